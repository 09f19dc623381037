// C15 (abort) and C16 (failing writes): what is left behind when applying changes is disturbed.
#include "scenario.h"
#include <atomic>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
namespace tp {
static bool allParsed(T::MediaFileInfo &f)
{
    auto ok = [](T::ParsingStatus s) { return s == T::ParsingStatus::Ok || s == T::ParsingStatus::NotSupported; };
    return ok(f.containerParsingStatus()) && ok(f.tagsParsingStatus()) && ok(f.tracksParsingStatus()) && ok(f.chaptersParsingStatus()) && ok(f.attachmentsParsingStatus());
}
static void abortParsing(Ctx &c, const Scenario &s)
{
    auto &r = c.rng;
    s.reset(c);
    Media full(s.path);
    std::uint64_t ops = 0;
    iomon.reset();
    iomon.onOp = [&] { ++ops; };
    full.parse();
    iomon.reset();
    auto want = dumpAll(full.info, true);
    Media m(s.path);
    applyCfg(m.info, s.cfg);
    std::uint64_t n = 0, at = r.below(ops + 1);
    auto aborted = false;
    T::AbortableProgressFeedback p;
    if (r.chance(5)) {
        p.tryToAbort();
        aborted = true;
    }
    iomon.onOp = [&] {
        if (n++ == at) {
            p.tryToAbort();
            aborted = true;
        }
    };
    auto res = m.run([&](T::Diagnostics &d) { m.info.parseEverything(d, p); });
    iomon.reset();
    auto what = s.desc + strf("abort parsing at operation %llu of %llu: ", (unsigned long long)at, (unsigned long long)ops);
    if (readFile(s.path) != s.g.file)
        c.fail("parse-changes-file", what + "file has been changed");
    if (res.outcome != Outcome::Ok && res.outcome != Outcome::Aborted)
        c.fail("parse-outcome", what + "ended with " + outcomeName(res.outcome) + " " + res.what);
    auto complete = res.outcome == Outcome::Ok && allParsed(m.info) && dumpAll(m.info, true) == want;
    auto reported = res.outcome == Outcome::Aborted || !allParsed(m.info);
    for (auto &d : res.diag)
        reported |= d.message().find("abort") != std::string::npos;
    if (!complete && !reported)
        c.fail("parse-abort-silent", what + "results are incomplete but nothing says so: " + firstDiff(want, dumpAll(m.info, true)));
    if (complete && !aborted)
        return;
    c.count(complete ? "parse-aborts-too-late" : "parse-aborts");
    // applying changes now must not lose anything
    auto ap = m.apply();
    auto now = readFile(s.path);
    if (ap.outcome != Outcome::Ok) {
        if (now != s.g.file)
            c.fail("apply-after-aborted-parse", what + "applying changes failed but the file has been changed");
    } else {
        c.count("applied-after-aborted-parse");
        try {
            auto a = snap(s.g, now);
            for (auto part : { &Snap::foreign, &Snap::media })
                if (auto d = factsDiff(s.before.*part, a.*part); !d.empty())
                    c.fail("apply-after-aborted-parse", what + d);
            if (auto d = factsDiff(s.before.tags, a.tags, [&](const Bytes &key) { return key == "vorbis|vendor"; }); !d.empty())
                c.fail("apply-after-aborted-parse", what + d);
        } catch (const Malformed &e) {
            c.fail("apply-after-aborted-parse", what + e.what());
        }
    }
}
static void judgeAbort(Ctx &c, const Scenario &s, const Result &res, const std::string &what, bool requested)
{
    auto now = readFile(s.path);
    auto made = s.saveAs ? (fileExists(s.savePath) ? readFile(s.savePath) : Bytes()) : now;
    c.count(res.outcome == Outcome::Aborted ? "aborted" : requested ? "too-late" : "not-requested");
    if (!fileExists(s.path)) {
        c.artifact("disturbed", made);
        c.fail("abort-file-gone", what + "no file at the original path");
        return;
    }
    switch (res.outcome) {
    case Outcome::Aborted:
        if (!requested)
            c.fail("abort-unrequested", what + "reported as aborted without request");
        if (now != s.g.file) {
            c.artifact("disturbed", now);
            c.fail("abort-not-restored", what + strf("reported as aborted but the file differs from the original (%zu vs %zu bytes", s.g.file.size(), now.size()) + (made == s.expected ? ", completely written)" : ", partially written)"));
        }
        break;
    case Outcome::Ok:
        if (made != s.expected) {
            c.artifact("disturbed", made);
            c.fail("abort-silent", what + strf("reported as success but the file is neither complete (%zu bytes vs %zu) ", s.expected.size(), made.size()) + (made == s.g.file ? "; nothing has been written" : ""));
        }
        if (s.saveAs && now != s.g.file)
            c.fail("abort-source", what + "source has been changed despite different save path");
        break;
    default:
        c.fail("abort-outcome", what + "ended with " + outcomeName(res.outcome) + " instead of reporting the abort: " + res.what);
    }
}
static void caseC15(Ctx &c)
{
    auto &r = c.rng;
    ScenarioOptions so;
    so.any.large = r.chance(10);
    auto s = makeScenario(c, so);
    auto points = c.thorough ? 40 : 14;
    auto originals = s.others(c);
    for (auto n = 0; n < points && c.failures.empty(); ++n) {
        s.reset(c);
        auto existing = s.others(c);
        auto m = s.open(c);
        std::uint64_t at = 0, count = 0;
        std::string what;
        auto requested = false;
        std::uint64_t writtenAtRequest = 0;
        std::atomic_bool request = false;
        T::AbortableProgressFeedback *feedback = nullptr;
        auto hit = [&] {
            if (count++ == at) {
                requested = true;
                writtenAtRequest = iomon.writeBytes;
                feedback->tryToAbort();
            }
        };
        T::AbortableProgressFeedback::Callback cb, pc;
        auto mode = r.below(10);
        std::string step;
        if (mode < 4) {
            at = static_cast<std::uint64_t>(n) < s.callbacks && r.coin() ? static_cast<std::uint64_t>(n) : r.below(s.callbacks + 1);
            cb = [&](T::AbortableProgressFeedback &p) {
                if (!requested)
                    step = p.step();
                hit();
            };
            what = strf("abort in callback %llu of %llu: ", (unsigned long long)at, (unsigned long long)s.callbacks);
        } else {
            cb = [&](T::AbortableProgressFeedback &p) {
                if (!requested)
                    step = p.step();
            };
        }
        T::AbortableProgressFeedback p(std::move(cb));
        feedback = &p;
        iomon.reset();
        std::thread other;
        std::atomic_uint64_t done = 0;
        if (mode >= 4 && mode < 9) {
            at = r.below(s.ops + 1);
            what = strf("abort at I/O operation %llu of %llu: ", (unsigned long long)at, (unsigned long long)s.ops);
            iomon.onOp = hit;
        } else if (mode == 9) {
            at = r.below(s.ops + 1);
            what = strf("abort from other thread around I/O operation %llu of %llu: ", (unsigned long long)at, (unsigned long long)s.ops);
            iomon.onOp = [&] { done.store(count++, std::memory_order_relaxed); };
            other = std::thread([&] {
                while (done.load(std::memory_order_relaxed) < at && !request)
                    std::this_thread::yield();
                p.tryToAbort();
            });
            requested = true;
        }
        auto res = m->run([&](T::Diagnostics &d) { m->info.applyChanges(d, p); });
        iomon.reset();
        if (other.joinable()) {
            request = true;
            other.join();
        }
        what = s.desc + what + "(step \"" + step + "\") ";
        m.reset();
        judgeAbort(c, s, res, what, requested);
        if (res.outcome == Outcome::Ok && requested && mode < 9) {
            // requests must be honoured before writing starts and as long as there is much left to be written
            for (auto *early : { "Calculating", "Prepar", "Updating ID3v2 tags", "Updating FLAC tags" })
                if (!step.compare(0, strlen(early), early) && (mode < 4 || early != std::string_view("Prepar")))
                    c.fail("abort-ignored", what + "request before writing started has been ignored");
            if ((s.rewritten || s.saveAs) && s.writeBytes > 150000 && writtenAtRequest < s.writeBytes / 2)
                c.fail("abort-ignored", what + strf("request after %llu of %llu bytes has been ignored", (unsigned long long)writtenAtRequest, (unsigned long long)s.writeBytes));
        }
        if (s.writeBytes > 150000 && writtenAtRequest > 20000 && res.outcome == Outcome::Aborted)
            c.count("aborted-in-the-midst");
        for (auto &[path, data] : existing)
            if (!fileExists(path) || readFile(path) != data)
                c.fail("abort-other-file", what + path + " has been changed");
        if (res.outcome == Outcome::Aborted) {
            c.cover("aborted at " + step.substr(0, 40));
            c.cover(s.g.format + " aborted");
        }
        if (c.failures.empty() && res.outcome == Outcome::Aborted && r.chance(20)) {
            // it works when trying again
            auto again = s.open(c);
            auto res2 = again->apply();
            if (res2.outcome != Outcome::Ok || readFile(s.target()) != s.expected)
                c.fail("abort-retry", what + "trying again gives a different result: " + res2.what);
        }
        c.mix(what);
    }
    if (c.failures.empty())
        abortParsing(c, s);
    c.nontrivial = c.counts["aborted"] > 0;
}
static PropReg regC15("C15", caseC15);

// --- C16
struct Limit { // limits the size of files as the kernel would
    rlimit old;
    explicit Limit(std::uint64_t n)
    {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        auto now = old;
        now.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &now);
    }
    ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
static void caseC16(Ctx &c)
{
    auto &r = c.rng;
    ScenarioOptions so;
    so.any.large = r.chance(10);
    auto s = makeScenario(c, so);
    auto points = c.thorough ? 40 : 14;
    auto safe = s.rewritten || s.saveAs;
    // calls done by the undisturbed run
    std::vector<std::string> calls;
    {
        s.reset(c);
        auto m = s.open(c);
        iomon.reset();
        iomon.onCall = [&](const char *call, const char *) {
            calls.push_back(call);
            return 0;
        };
        m->apply();
        iomon.reset();
        if (readFile(s.target()) != s.expected)
            c.failNow("not-deterministic", s.desc + "repeating the same write gives a different result");
    }
    for (auto n = 0; n < points && c.failures.empty(); ++n) {
        s.reset(c);
        auto existing = s.others(c);
        auto m = s.open(c);
        std::string what;
        std::unique_ptr<Limit> limit;
        iomon.reset();
        auto mode = r.below(10);
        auto mustFail = false, restorable = true;
        auto target = s.target();
        std::uint64_t nth = 0, seen = 0;
        if (mode < 5) {
            iomon.failWriteAtByte = static_cast<std::int64_t>(r.chance(20) ? s.writeBytes - std::min<std::uint64_t>(s.writeBytes, r.size(600)) : r.below(s.writeBytes + 1));
            iomon.shortWrite = r.coin();
            iomon.sticky = r.chance(70);
            iomon.failErrno = r.pick({ ENOSPC, EIO, EFBIG, EDQUOT });
            what = strf("write fails with %s after %lld of %llu bytes%s: ", strerror(iomon.failErrno), (long long)iomon.failWriteAtByte, (unsigned long long)s.writeBytes, iomon.sticky ? "" : " once");
        } else if (mode == 5) {
            iomon.failReadAtByte = static_cast<std::int64_t>(r.below(s.g.file.size() * 2 + 1));
            what = strf("read fails after %lld bytes: ", (long long)iomon.failReadAtByte);
        } else if (mode < 8 && !calls.empty()) {
            nth = r.below(calls.size());
            auto e = r.pick({ EACCES, ENOSPC, EIO, EMFILE });
            if (calls[nth] == "rename" && r.coin())
                e = EXDEV;
            auto twice = r.chance(20);
            what = strf("call %llu (%s) fails with %s%s: ", (unsigned long long)nth, calls[nth].c_str(), strerror(e), twice ? " and so does the next one" : "");
            restorable = false;
            iomon.onCall = [&, e, twice](const char *, const char *) {
                ++seen;
                if (seen == nth + 1 || (twice && seen == nth + 2)) {
                    iomon.tripped = true;
                    return e;
                }
                return 0;
            };
            iomon.sticky = false;
            c.cover("call fails: " + calls[nth]);
        } else if (mode == 8) {
            limit = std::make_unique<Limit>(r.below(s.expected.size() + 1));
            what = "file size limit: ";
            mustFail = false;
        } else {
            switch (r.below(s.saveAs ? 6 : 3)) {
            case 0:
                m->info.setBackupDirectory(c.path("missing"));
                what = "missing backup directory: ";
                mustFail = s.rewritten && !s.saveAs;
                break;
            case 1:
                writeFile(c.path("file"), "x");
                existing[c.path("file")] = "x";
                m->info.setBackupDirectory(c.path("file"));
                what = "backup directory is a file: ";
                mustFail = s.rewritten && !s.saveAs;
                break;
            case 2: // the file is gone
                if (s.saveAs || !s.rewritten)
                    continue;
                m->info.close();
                unlink(s.path.c_str());
                what = "original file has been deleted: ";
                {
                    auto res = m->apply();
                    if (res.outcome == Outcome::Ok)
                        c.fail("write-silent", s.desc + what + "reported as success");
                    c.count("failures");
                }
                continue;
            case 3:
                m->info.setSaveFilePath(c.path("missing/dir/f"));
                what = "save path in missing directory: ";
                mustFail = true;
                break;
            case 4:
                m->info.setSaveFilePath(c.dir);
                what = "save path is a directory: ";
                mustFail = true;
                break;
            case 5:
                if (symlink("/dev/full", s.savePath.c_str()))
                    continue;
                what = "save path without space left: ";
                mustFail = true;
                break;
            }
        }
        auto res = m->apply();
        limit.reset();
        auto tripped = iomon.tripped || iomon.readTripped;
        iomon.reset();
        what = s.desc + what;
        // judge
        auto gone = !fileExists(s.path);
        auto now = gone ? Bytes() : readFile(s.path);
        c.count(res.outcome == Outcome::Ok ? "successes" : "failures");
        if (res.outcome == Outcome::Ok) {
            if (mustFail)
                c.fail("write-silent", what + "reported as success");
            else {
                auto made = s.saveAs && fileExists(s.savePath) ? readFile(s.savePath) : now;
                // not being able to truncate is reported as critical diagnostic
                if (made != s.expected && !(res.level() >= T::DiagLevel::Critical && !safe)) {
                    c.artifact("disturbed", made);
                    c.fail("write-silent", what + strf("reported as success but the file is neither complete (%zu bytes vs %zu) ", s.expected.size(), made.size()));
                }
            }
            if (s.saveAs && now != s.g.file)
                c.fail("source-changed", what + "source has been changed despite different save path");
        } else {
            if (res.outcome != Outcome::Io && res.outcome != Outcome::Failure)
                c.fail("write-outcome", what + "ended with " + outcomeName(res.outcome) + " " + res.what);
            if (!tripped && mode != 8 && !mustFail)
                c.fail("write-spurious", what + "failed although nothing has been disturbed: " + res.what);
            if (safe && now != s.g.file) {
                auto kept = false;
                for (auto &[path, data] : s.others(c))
                    kept |= !existing.count(path) && data == s.g.file;
                if (!kept || restorable || s.saveAs) {
                    c.artifact("disturbed", now);
                    c.fail("original-lost", what + res.what + strf(": the file at the original path %s (%zu vs %zu bytes) ", gone ? "is gone" : "differs from the original", s.g.file.size(), now.size())
                        + (kept ? "but there is a backup" : "and there is no backup"));
                }
            }
            if (m->info.path() != s.path)
                c.fail("path", what + "the save path is considered the regular path although writing failed");
            if (!safe && gone)
                c.fail("original-lost", what + "the file is gone");
        }
        for (auto &[path, data] : existing)
            if (!fileExists(path) || readFile(path) != data)
                c.fail("other-file", what + path + " has been changed");
        if (c.failures.empty() && safe && res.outcome != Outcome::Ok && now == s.g.file && r.chance(20)) {
            // the object can still be used
            Media fresh(s.path);
            fresh.parse();
            if (auto pr = mode < 5 || mode >= 8 ? m->parse() : fresh.parse(); mode < 5 || mode >= 8)
            if (auto a = dumpAll(fresh.info, true), b = dumpAll(m->info, true); a != b)
                c.fail("object-after-failure", what + "parsing again with the same object gives different results: " + pr.what + firstDiff(a, b));
            c.count("reparsed-after-failure");
            // it works when trying again
            m.reset();
            if (s.saveAs)
                unlink(s.savePath.c_str());
            auto again = s.open(c);
            auto res2 = again->apply();
            if (res2.outcome != Outcome::Ok || readFile(s.target()) != s.expected)
                c.fail("retry", what + "trying again gives a different result: " + res2.what);
        }
        c.mix(what);
        c.cover(strf("%s %s %s", s.g.format.c_str(), safe ? "rewritten" : "in place", outcomeName(res.outcome)));
    }
    c.nontrivial = c.counts["failures"] > 0;
}
static PropReg regC16("C16", caseC16);
}
