// C01 (memory safety on any input), C02 (bounded effort, documented errors only), C03 (reading changes nothing).
#include "hostile.h"
#include <ctime>
#include <fcntl.h>
#include <filesystem>
#include <sys/stat.h>
#include <unistd.h>
namespace fs = std::filesystem;
namespace tp {
static double cpuNow()
{
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}
static void caseC01(Ctx &c)
{
    auto &r = c.rng;
    auto h = hostileFile(r);
    auto path = c.path(h.g.name);
    writeFile(path, h.bytes);
    c.artifact("input", h.bytes);
    c.note(h.g.format + " " + h.how + "; ");
    auto m = std::make_unique<Media>(path);
    auto rounds = r.range(1, 3);
    for (std::uint64_t k = 0; k < rounds; ++k) {
        applyCfg(m->info, randomCfg(r));
        m->info.setForceFullParse(r.chance(60));
        c.note(exercise(m->info, r, true, [&](const char *, auto &f) { c.count(std::string("calls-") + outcomeName(m->run([&](T::Diagnostics &d) { f(d, m->progress); }).outcome)); }));
        c.mix(inspectAll(m->info, r));
        c.cover(std::string(m->info.containerFormatName()) + strf(" %d%d", (int)m->info.tracksParsingStatus(), (int)m->info.tagsParsingStatus()));
        auto ap = m->apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        c.note(std::string(" apply ") + outcomeName(ap.outcome) + "; ");
        if (r.coin())
            m->parse();
        if (r.coin())
            inspectAll(m->info, r);
        if (r.chance(40))
            m = std::make_unique<Media>(path);
        if (!fileExists(path))
            break;
    }
    c.nontrivial = true;
}
static PropReg regC01("C01", caseC01);

static void caseC02(Ctx &c)
{
    auto &r = c.rng;
    auto h = hostileFile(r);
    auto path = c.path(h.g.name);
    writeFile(path, h.bytes);
    c.artifact("input", h.bytes);
    c.note(h.g.format + " " + h.how + "; ");
    Media m(path);
    m.info.setForceFullParse(r.chance(60));
    auto size = h.bytes.size();
    // compressed ID3v2 frames may expand by the maximum ratio of deflate
    auto ratio = h.bytes.find("ID3") != Bytes::npos ? 1200u : 16u;
    exercise(m.info, r, false, [&](const char *name, auto &f) {
        iomon.reset();
        allocmon = AllocMon();
        auto t0 = cpuNow();
        allocmon.active = true;
        auto res = m.run([&](T::Diagnostics &d) { f(d, m.progress); });
        allocmon.active = false;
        auto secs = cpuNow() - t0;
        c.count(std::string("calls-") + outcomeName(res.outcome));
        if (res.outcome == Outcome::Other)
            c.fail(std::string("exception:") + res.what.substr(0, 30), std::string(name) + " ended with an undocumented exception: " + res.what);
        // effort in relation to the size of the file
        if (allocmon.maxSingle > size * ratio + (1u << 20))
            c.fail("allocation", std::string(name) + strf(" allocated %llu bytes at once for a file of %zu bytes", (unsigned long long)allocmon.maxSingle, size));
        if (allocmon.peak > size * std::max(ratio, 256u) + (4u << 20))
            c.fail("memory", std::string(name) + strf(" allocated %llu bytes for a file of %zu bytes", (unsigned long long)allocmon.peak, size));
        if (iomon.reads > size * 8 + 20000)
            c.fail("reads", std::string(name) + strf(" did %llu read operations for a file of %zu bytes", (unsigned long long)iomon.reads, size));
        if (secs > 2 + size / (h.scale ? 50000.0 : 10000.0))
            c.fail("time", std::string(name) + strf(" took %.1f s for a file of %zu bytes", secs, size));
        if (res.diag.size() > size + 1000)
            c.fail("diagnostics", std::string(name) + strf(" yields %zu messages for a file of %zu bytes", res.diag.size(), size));
        c.count(allocmon.peak > size * 64 + 1000000 ? "memory-high" : "memory-low");
        c.count(iomon.reads > size + 1000 ? "reads-high" : "reads-low");
    });
    iomon.reset();
    auto t0 = cpuNow();
    try {
        c.mix(inspectAll(m.info, r));
    } catch (const T::Failure &) {
    }
    if (auto secs = cpuNow() - t0; secs > 4 + size / 5000.0)
        c.fail("time-inspection", strf("inspecting took %.1f s for a file of %zu bytes", secs, size));
    c.cover(std::string(m.info.containerFormatName()) + strf(" %d%d%d%d%d", (int)m.info.containerParsingStatus(), (int)m.info.tracksParsingStatus(), (int)m.info.tagsParsingStatus(), (int)m.info.chaptersParsingStatus(), (int)m.info.attachmentsParsingStatus()));
    c.nontrivial = true;
}
static PropReg regC02("C02", caseC02);

static void caseC03(Ctx &c)
{
    auto &r = c.rng;
    auto h = hostileFile(r, 50);
    auto path = c.path(h.g.name);
    writeFile(path, h.bytes);
    writeFile(c.path("neighbour"), "x");
    c.artifact("input", h.bytes);
    c.note(h.g.format + " " + h.how + "; ");
    struct timespec ts[2] = { { 1000000000, 0 }, { 1000000000, 0 } };
    utimensat(AT_FDCWD, path.c_str(), ts, 0);
    struct stat before;
    stat(path.c_str(), &before);
    auto names = listDir(c.dir);
    std::uint64_t writes = 0;
    std::string calls;
    {
        Media m(path);
        if (r.coin())
            applyCfg(m.info, randomCfg(r));
        if (r.chance(30))
            m.info.setSaveFilePath(c.path("saved"));
        if (r.chance(30))
            m.info.setBackupDirectory(c.path("backups"));
        auto rounds = r.range(1, 3);
        for (std::uint64_t k = 0; k < rounds; ++k)
            calls += exercise(m.info, r, true, [&](const char *name, auto &f) {
                iomon.reset();
                auto destructive = false;
                iomon.onCall = [&](const char *call, const char *) {
                    destructive |= !strcmp(call, "rename") || !strcmp(call, "remove") || !strcmp(call, "truncate");
                    return 0;
                };
                m.run([&](T::Diagnostics &d) { f(d, m.progress); });
                writes += iomon.writes;
                if (iomon.writes || destructive)
                    c.fail("writes", std::string(name) + " writes to the file system");
                iomon.reset();
            });
        c.mix(inspectAll(m.info, r));
        c.cover(std::string(m.info.containerFormatName()) + strf(" %d%d", (int)m.info.tracksParsingStatus(), (int)m.info.tagsParsingStatus()));
    }
    if (readFile(path) != h.bytes)
        c.fail("changed", "content of the file has been changed: " + calls);
    struct stat after;
    if (stat(path.c_str(), &after) || after.st_mtim.tv_sec != before.st_mtim.tv_sec || after.st_ino != before.st_ino || after.st_mode != before.st_mode)
        c.fail("touched", "file has been replaced or touched: " + calls);
    if (listDir(c.dir) != names)
        c.fail("directory", "directory has been changed: " + calls);
    // read-only access gives the same
    auto full = r.coin();
    Media w(path), ro(path);
    w.info.setForceFullParse(full);
    ro.info.setForceFullParse(full);
    auto rw = w.parse();
    iomon.reset();
    iomon.onCall = [&](const char *call, const char *) { return strcmp(call, "fopen-read") ? EACCES : 0; };
    Result rr;
    try {
        IoScope scope;
        ro.info.open(true);
    } catch (const std::exception &e) {
        c.failNow("read-only", std::string("opening read-only failed: ") + e.what());
    }
    if (!ro.info.isReadOnly())
        c.fail("read-only", "object opened read-only does not say so");
    rr = ro.parse();
    iomon.reset();
    if (rr.outcome != rw.outcome)
        c.fail("read-only", std::string("parsing ended with ") + outcomeName(rw.outcome) + " when writable and " + outcomeName(rr.outcome) + " " + rr.what + " when read-only");
    else if (rr.diagText(T::DiagLevel::Debug) != rw.diagText(T::DiagLevel::Debug))
        c.fail("read-only", "diagnostics differ when read-only: " + firstDiff(rw.diagText(), rr.diagText()));
    else if (auto a = dumpAll(w.info, true), b = dumpAll(ro.info, true); a != b)
        c.fail("read-only", "results differ when read-only: " + firstDiff(a, b));
    c.count("read-only-compared");
    c.nontrivial = true;
}
static PropReg regC03("C03", caseC03);
}
