// A reproducible write: random file, settings, edits; can be run any number of times with different disturbances.
#pragma once
#include "any.h"
#include "edits.h"
namespace tp {
struct Scenario {
    AnyGen g;
    Cfg cfg;
    std::uint64_t editSeed = 0;
    bool createTags = false, saveAs = false, backups = false, existingBackup = false;
    std::string path, savePath, backupDir, desc;
    Bytes expected; // what an undisturbed run leaves at target()
    Snap before, after;
    bool rewritten = false; // the undisturbed run left a backup
    std::uint64_t writeBytes = 0, ops = 0, callbacks = 0;
    const std::string &target() const { return saveAs ? savePath : path; }
    // sets the directory up as it is before the run
    void reset(Ctx &c) const;
    // opens, parses, edits; throws if parsing fails as that is undisturbed
    std::unique_ptr<Media> open(Ctx &c) const;
    // names of files in scratch and backup directory with their content except path/savePath
    std::map<std::string, Bytes> others(Ctx &c) const;
};
struct ScenarioOptions {
    bool saveAs = true, backups = true;
    AnyOptions any;
};
Scenario makeScenario(Ctx &c, const ScenarioOptions &o = {});
}
