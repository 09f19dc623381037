// C17 (backups and save-as), C03 (reading changes nothing).
#include "scenario.h"
#include <filesystem>
#include <sys/stat.h>
#include <tagparser/backuphelper.h>
#include <unistd.h>
namespace fs = std::filesystem;
namespace tp {
namespace {
struct Entry {
    char type = '?';
    Bytes data;
    bool operator==(const Entry &o) const { return type == o.type && data == o.data; }
};
using Tree = std::map<std::string, Entry>;
Tree tree(const std::string &dir)
{
    Tree t;
    for (auto &e : fs::recursive_directory_iterator(dir)) {
        auto &x = t[e.path().string()];
        if (e.is_symlink())
            x = { 'l', fs::read_symlink(e.path()).string() };
        else if (e.is_directory())
            x = { 'd', {} };
        else
            x = { 'f', readFile(e.path()) };
    }
    return t;
}
struct TreeDiff {
    std::vector<std::string> added, removed, changed;
    std::string text() const
    {
        std::string s;
        for (auto &x : added)
            s += " +" + x;
        for (auto &x : removed)
            s += " -" + x;
        for (auto &x : changed)
            s += " ~" + x;
        return s;
    }
    bool none() const { return added.empty() && removed.empty() && changed.empty(); }
};
TreeDiff diff(const Tree &a, const Tree &b, const std::set<std::string> &except = {})
{
    TreeDiff d;
    for (auto &[k, v] : a)
        if (!except.count(k)) {
            if (auto i = b.find(k); i == b.end())
                d.removed.push_back(k);
            else if (!(i->second == v))
                d.changed.push_back(k);
        }
    for (auto &[k, v] : b)
        if (!except.count(k) && !a.count(k))
            d.added.push_back(k);
    return d;
}
struct Cwd {
    fs::path old = fs::current_path();
    explicit Cwd(const std::string &p) { fs::current_path(p); }
    ~Cwd() { fs::current_path(old); }
};
std::string randomName(Rng &r, const std::string &like)
{
    auto ext = fs::path(like).extension().string();
    switch (r.below(9)) {
    case 0: return "noextension";
    case 1: return "." + std::string("hidden") + (r.coin() ? ext : "");
    case 2: return "several.dots.in.name" + ext;
    case 3: return "with space " + ext;
    case 4: return "\xc3\xa4\xe6\x96\x87" + ext;
    case 5: return "f" + ext + ".bak";
    case 6: return "trailing.";
    default: return like;
    }
}
}
static void caseC17(Ctx &c)
{
    auto &r = c.rng;
    AnyOptions ao;
    ao.small = r.chance(70);
    auto g = anyFile(r, ao);
    auto before = snap(g, g.file);
    // directories: base/ holds everything; file in base/<dir>
    auto base = c.path("base");
    auto dirName = r.pick({ "plain", "dir.with.dots", "dir with space", "d.1" });
    auto dir = base + "/" + dirName;
    fs::create_directories(dir);
    fs::create_directories(base + "/other");
    auto name = randomName(r, g.name);
    auto real = dir + "/" + name; // where the file actually is
    auto open = real;
    std::optional<Cwd> cwd;
    auto how = r.below(10);
    auto canonicalDir = fs::canonical(dir).string();
    real = canonicalDir + "/" + name;
    writeFile(real, g.file);
    if (how == 0) {
        cwd.emplace(dir);
        open = name;
    } else if (how == 1) {
        cwd.emplace(base);
        open = std::string(r.coin() ? "./" : "") + dirName + "/" + name;
    } else if (how == 2) {
        open = base + "/other/" + (r.coin() ? name : std::string("link.x"));
        fs::create_symlink(r.coin() ? real : std::string("../") + dirName + "/" + name, open);
    } else if (how == 3) {
        fs::create_directory_symlink(dir, base + "/linked.dir");
        open = base + "/linked.dir/" + name;
    } else if (how == 4) {
        open = base + "/other/../" + dirName + "//" + name;
    }
    // backup directory
    std::string bdir, bdirReal = canonicalDir, bdesc = "-";
    auto missing = false;
    switch (r.below(8)) {
    case 0:
    case 1:
        bdir = base + "/backups.d";
        bdirReal = bdir;
        break;
    case 2:
        bdir = base + "/backups/";
        bdirReal = base + "/backups";
        break;
    case 3:
        bdir = "bak";
        bdirReal = dir + "/bak";
        break;
    case 4:
        bdir = "../bak/x.y";
        bdirReal = base + "/bak/x.y";
        break;
    case 5:
        if (r.chance(40)) {
            bdir = r.pick({ std::string("missing"), base + "/missing/dir" });
            missing = true;
        }
        break;
    default:;
    }
    if (!missing) {
        fs::create_directories(bdirReal);
        bdirReal = fs::canonical(bdirReal).string();
    }
    if (!bdir.empty())
        bdesc = bdir;
    // existing files which must not be overwritten
    auto stem = name.substr(0, name.rfind('.')), ext = name.rfind('.') == std::string::npos ? std::string() : name.substr(name.rfind('.'));
    auto occupy = r.chance(60) ? r.range(1, r.chance(10) ? 120 : 5) : 0;
    for (std::uint64_t i = 0; i <= occupy && occupy; ++i) {
        if (r.chance(12))
            continue;
        auto n = bdir.empty() ? (i ? name + "." + std::to_string(i) + ".bak" : name + ".bak") : (i ? stem + "." + std::to_string(i) + ext : name);
        auto p = (missing ? canonicalDir : bdirReal) + "/" + n;
        if (fs::exists(fs::symlink_status(p)))
            continue;
        switch (r.below(10)) {
        case 0: fs::create_directory(p); break;
        case 1: fs::create_symlink(base + "/nowhere", p); break;
        case 2: fs::create_symlink("../other", p); break;
        case 3: writeFile(p, ""); break;
        default: writeFile(p, "existing " + n);
        }
    }
    writeFile(base + "/other/unrelated.bak", "unrelated");
    c.artifact("input", g.file);
    c.note(strf("%s opened as \"%s\" (%s), backups: \"%s\"%s, occupied: %llu; ", g.format.c_str(), open.c_str(), real.c_str(), bdesc.c_str(), missing ? " (missing)" : "", (unsigned long long)occupy) + g.desc);
    auto current = real; // where the file currently is
    auto content = g.file;
    auto m = std::make_unique<Media>(open);
    auto rounds = r.range(1, 4);
    std::string lastBackup, lastBackupContent;
    for (std::uint64_t k = 0; k < rounds; ++k) {
        if (r.chance(30))
            m = std::make_unique<Media>(k && current != real ? current : open);
        auto cfg = randomCfg(r);
        if (r.chance(50))
            cfg.forceRewrite = true;
        applyCfg(m->info, cfg);
        m->info.setBackupDirectory(bdir);
        auto round = strf("round %llu ", (unsigned long long)k) + cfg.toString() + ": ";
        auto res = m->parse();
        if (res.outcome != Outcome::Ok)
            c.failNow("parse", round + res.what);
        if (r.chance(60))
            m->info.createAppropriateTags();
        round += randomEdit(r, m->info);
        // saving somewhere else
        std::string save;
        if (r.chance(30)) {
            switch (r.below(4)) {
            case 2:
                save = base + "/other/existing-target" + std::to_string(k);
                writeFile(save, r.payload(content.size() * 2 + 100000));
                break;
            default:
                save = base + "/other/saved" + std::to_string(k) + fs::path(g.name).extension().string();
            }
            m->info.setSaveFilePath(save);
        } else if (!m->info.saveFilePath().empty()) {
            m->info.setSaveFilePath(std::string_view());
        }
        auto exdev = r.chance(15);
        auto t0 = tree(base);
        iomon.reset();
        unsigned renames = 0;
        iomon.onCall = [&](const char *call, const char *) {
            if (strcmp(call, "rename"))
                return 0;
            ++renames;
            return exdev ? EXDEV : 0;
        };
        auto ap = m->apply();
        iomon.reset();
        auto t1 = tree(base);
        c.note(" | " + round + (save.empty() ? "" : " save as " + save) + (exdev ? " EXDEV" : ""));
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        if (ap.outcome != Outcome::Ok) {
            if (auto d = diff(t0, t1); !d.none())
                c.fail("failed-changes", round + "write failed (" + ap.what + ") but the following has changed:" + d.text());
            if (!missing)
                c.fail("apply-throws", round + ap.what + ap.diagText());
            c.cover("missing backup directory");
            c.nontrivial = true;
            return;
        }
        Bytes now;
        if (!save.empty()) {
            auto d = diff(t0, t1, { save });
            if (!d.none())
                c.fail("save-as-side-effect", round + "saving to a different path has changed:" + d.text());
            if (!fileExists(save))
                c.failNow("save-as-missing", round + "no file at the save path");
            if (m->info.path() != save)
                c.fail("save-as-path", round + "path of the object is " + m->info.path() + " after saving to " + save);
            if (!m->info.saveFilePath().empty())
                c.fail("save-as-path", round + "save path is still set after saving: " + m->info.saveFilePath());
            current = save;
            now = readFile(current);
            bdirReal = bdir.empty() ? fs::canonical(base + "/other").string() : bdir[0] == '/' ? bdirReal : std::string();
            if (bdirReal.empty()) {
                auto p = fs::path(base + "/other") / bdir;
                if (!missing)
                    fs::create_directories(p);
                bdirReal = missing ? p.string() : fs::canonical(p).string();
            }
            c.cover(g.format + " save-as");
        } else {
            auto d = diff(t0, t1, { current });
            if (!d.removed.empty() || !d.changed.empty())
                c.fail("side-effect", round + "files which are not the one written have been changed:" + d.text());
            now = readFile(current);
            if (d.added.empty()) {
                if (cfg.forceRewrite)
                    c.fail("no-backup", round + "file has been rewritten (as forced) without keeping a backup");
                if (renames)
                    c.fail("no-backup", round + "file has been renamed without keeping a backup");
                if (now == content)
                    c.count("writes-without-effect");
                c.cover(g.format + " in place");
            } else if (d.added.size() != 1) {
                c.fail("side-effect", round + "several files have been created:" + d.text());
            } else {
                auto &b = d.added.front();
                auto f = t1[b];
                if (f.type != 'f' || f.data != content)
                    c.fail("backup-content", round + strf("backup %s does not hold the original content (%zu bytes vs %zu)", b.c_str(), f.data.size(), content.size()));
                auto p = fs::path(b);
                auto curName = fs::path(current).filename().string();
                if (missing)
                    c.fail("backup-dir", round + "backup created as " + b + " despite missing backup directory");
                else if (fs::canonical(p.parent_path()).string() != bdirReal)
                    c.fail("backup-dir", round + "backup " + b + " is not in " + bdirReal);
                if (p.filename().string().compare(0, bdir.empty() ? curName.size() : curName.rfind('.') == std::string::npos ? curName.size() : curName.rfind('.'), curName, 0, bdir.empty() ? curName.size() : curName.rfind('.')))
                    c.fail("backup-name", round + "backup " + b + " is not named like " + curName);
                lastBackup = b;
                lastBackupContent = content;
                c.count("backups-compared");
                c.cover(g.format + " rewritten " + (bdir.empty() ? "next to file" : bdir[0] == '/' ? "absolute" : "relative") + (exdev ? " copied" : ""));
            }
        }
        // what has been written is sound
        try {
            auto s = snap(g, now);
            if (auto x = factsDiff(before.media, s.media); !x.empty())
                c.fail("media", round + x);
        } catch (const std::exception &e) {
            c.fail("malformed-output", round + e.what());
        }
        content = now;
        c.mix(now);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
    }
    // restore the last backup
    if (!lastBackup.empty() && r.chance(60)) {
        m.reset();
        auto t0 = tree(base);
        auto exdev = r.chance(30);
        CppUtilities::NativeFileStream a, b;
        if (r.coin())
            a.open(current, std::ios_base::in | std::ios_base::out | std::ios_base::binary);
        if (r.coin())
            b.open(lastBackup, std::ios_base::in | std::ios_base::binary);
        iomon.reset();
        iomon.onCall = [&](const char *call, const char *) { return exdev && !strcmp(call, "rename") ? EXDEV : 0; };
        try {
            IoScope scope;
            T::BackupHelper::restoreOriginalFileFromBackupFile(current, lastBackup, a, b);
        } catch (const std::exception &e) {
            c.fail("restore", std::string("restoring the backup failed: ") + e.what());
        }
        iomon.reset();
        if (!fileExists(current) || readFile(current) != lastBackupContent)
            c.fail("restore", "restoring the backup did not give back the original content");
        if (auto d = diff(t0, tree(base), { current, lastBackup }); !d.none())
            c.fail("restore", "restoring the backup has changed:" + d.text());
        c.count("backups-restored");
    } else if (!lastBackup.empty() && r.coin()) {
        // a missing backup must not cost the file
        m.reset();
        CppUtilities::NativeFileStream a, b;
        try {
            T::BackupHelper::restoreOriginalFileFromBackupFile(current, base + "/no-such-backup", a, b);
            c.fail("restore-missing", "restoring a backup which does not exist succeeds");
        } catch (const std::ios_base::failure &) {
        }
        if (!fileExists(current) || readFile(current) != content)
            c.fail("restore-missing", "restoring a backup which does not exist has removed or changed the file");
    }
}
static PropReg regC17("C17", caseC17);
}
