#include "scenario.h"
#include <filesystem>
#include <sys/stat.h>
#include <unistd.h>
namespace fs = std::filesystem;
namespace tp {
void Scenario::reset(Ctx &c) const
{
    for (auto &e : fs::directory_iterator(c.dir))
        fs::remove_all(e.path());
    writeFile(path, g.file);
    if (!backupDir.empty())
        fs::create_directory(backupDir);
    if (existingBackup) {
        auto stem = fs::path(g.name);
        if (backupDir.empty())
            writeFile(path + ".bak", "existing backup");
        else
            writeFile(backupDir + "/" + g.name, "existing backup");
    }
}
std::unique_ptr<Media> Scenario::open(Ctx &c) const
{
    auto m = std::make_unique<Media>(path);
    applyCfg(m->info, cfg);
    auto res = m->parse();
    auto ok = [](T::ParsingStatus s) { return s == T::ParsingStatus::Ok || s == T::ParsingStatus::NotSupported; };
    if (res.outcome != Outcome::Ok || !ok(m->info.tagsParsingStatus()) || !ok(m->info.tracksParsingStatus()))
        c.failNow("parse", desc + res.what + res.diagText());
    if (createTags) {
        T::TagCreationSettings s;
        m->info.createAppropriateTags(s);
    }
    Rng r(editSeed);
    randomEdit(r, m->info);
    if (!backupDir.empty())
        m->info.setBackupDirectory(backupDir);
    if (saveAs)
        m->info.setSaveFilePath(savePath);
    return m;
}
std::map<std::string, Bytes> Scenario::others(Ctx &c) const
{
    std::map<std::string, Bytes> r;
    for (auto &e : fs::recursive_directory_iterator(c.dir))
        if (e.is_regular_file() && e.path() != path && e.path() != savePath)
            r[e.path()] = readFile(e.path());
    return r;
}
Scenario makeScenario(Ctx &c, const ScenarioOptions &o)
{
    auto &r = c.rng;
    Scenario s;
    s.g = anyFile(r, o.any);
    s.cfg = randomCfg(r);
    s.editSeed = r.next();
    s.createTags = r.chance(60);
    s.saveAs = o.saveAs && r.chance(25);
    s.backups = o.backups && r.chance(25);
    s.existingBackup = r.chance(20);
    s.path = c.path(s.g.name);
    if (s.saveAs)
        s.savePath = c.path("saved-" + s.g.name);
    if (s.backups)
        s.backupDir = c.path("backups");
    s.desc = s.g.format + " " + s.cfg.toString() + (s.createTags ? " create" : "") + (s.saveAs ? " save-as" : "") + (s.backups ? " backup-dir" : "") + (s.existingBackup ? " existing-backup" : "") + ": ";
    c.note(s.desc + s.g.desc);
    c.artifact("input", s.g.file);
    s.before = snap(s.g, s.g.file);
    s.reset(c);
    auto m = s.open(c);
    iomon.reset();
    iomon.onOp = [&] { ++s.ops; };
    T::AbortableProgressFeedback p([&](T::AbortableProgressFeedback &) { ++s.callbacks; });
    auto res = m->run([&](T::Diagnostics &d) { m->info.applyChanges(d, p); });
    s.writeBytes = iomon.writeBytes;
    iomon.reset();
    if (res.outcome != Outcome::Ok)
        c.failNow("apply-throws", s.desc + res.what + " " + res.diagText());
    s.expected = readFile(s.target());
    c.artifact("expected", s.expected);
    try {
        s.after = snap(s.g, s.expected);
    } catch (const std::exception &e) {
        c.failNow("malformed-output", s.desc + e.what());
    }
    auto rest = s.others(c);
    s.rewritten = rest.size() > (s.existingBackup ? 1 : 0);
    c.cover(s.g.format + (s.saveAs ? " save-as" : s.rewritten ? " rewritten" : " in place"));
    return s;
}
}
