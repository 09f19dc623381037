// C09: MP4 media data stays addressed and intact.
#include "lib.h"
#include "mp4fmt.h"
#include "edits.h"
#include <algorithm>

namespace tp {
using namespace mp4;

// compares what must be retained; expectations about foreign content are judged by C13
void compareMp4(Ctx &c, const Info &a, const Info &b, const std::string &round)
{
    if (a.tracks.size() != b.tracks.size())
        c.failNow("track-count", round + strf("tracks before %zu, after %zu", a.tracks.size(), b.tracks.size()));
    for (std::size_t i = 0; i < a.tracks.size(); ++i) {
        const auto &x = a.tracks[i], &y = b.tracks[i];
        auto id = strf("track %u: ", x.id);
        if (x.id != y.id)
            c.failNow("track-order", round + strf("track #%zu was %u, is %u", i, x.id, y.id));
        if (x.samples != y.samples) {
            std::size_t k = 0;
            while (k < x.samples.size() && k < y.samples.size() && x.samples[k] == y.samples[k])
                ++k;
            c.fail("samples", round + id + strf("%zu samples before, %zu after; first difference at sample %zu", x.samples.size(), y.samples.size(), k));
        }
        if (x.fragSamples != y.fragSamples)
            c.fail("fragment-samples", round + id + strf("%zu fragment samples before, %zu after, or content differs", x.fragSamples.size(), y.fragSamples.size()));
        if (x.handler != y.handler || x.name != y.name)
            c.fail("handler", round + id + "handler " + quote(x.handler + x.name) + " vs " + quote(y.handler + y.name));
        if (x.tkhdFlags != y.tkhdFlags)
            c.fail("tkhd-flags", round + id + strf("flags %x vs %x", x.tkhdFlags, y.tkhdFlags));
        if (x.creation != y.creation || x.modification != y.modification || x.tkhdDuration != y.tkhdDuration)
            c.fail("tkhd-times", round + id + strf("creation/modification/duration %llu/%llu/%llu vs %llu/%llu/%llu", (unsigned long long)x.creation, (unsigned long long)x.modification,
                (unsigned long long)x.tkhdDuration, (unsigned long long)y.creation, (unsigned long long)y.modification, (unsigned long long)y.tkhdDuration));
        if (x.tkhdTail != y.tkhdTail)
            c.fail("tkhd-tail", round + id + "layer/volume/matrix/size differ: " + hex(x.tkhdTail) + " vs " + hex(y.tkhdTail));
        if (x.timescale != y.timescale || x.mdhdDuration != y.mdhdDuration || x.mcreation != y.mcreation || x.mmodification != y.mmodification)
            c.fail("mdhd-times", round + id + strf("timescale/duration/creation/modification %u/%llu/%llu/%llu vs %u/%llu/%llu/%llu", x.timescale, (unsigned long long)x.mdhdDuration,
                (unsigned long long)x.mcreation, (unsigned long long)x.mmodification, y.timescale, (unsigned long long)y.mdhdDuration, (unsigned long long)y.mcreation, (unsigned long long)y.mmodification));
        if (x.lang != y.lang)
            c.fail("mdhd-language", round + id + strf("language %x vs %x", x.lang, y.lang));
        auto cmp = [&](const char *what, const std::vector<Bytes> &p, const std::vector<Bytes> &q) {
            if (p == q)
                return;
            std::string m;
            for (auto &e : p)
                m += Bytes(e.substr(4, 4)) + strf("(%zu) ", e.size());
            m += "vs ";
            for (auto &e : q)
                m += Bytes(e.substr(4, 4)) + strf("(%zu) ", e.size());
            c.fail(what, round + id + what + ": " + m);
        };
        cmp("stbl-tables", x.otherStbl, y.otherStbl);
        cmp("minf-children", x.otherMinf, y.otherMinf);
        cmp("mdia-children", x.otherMdia, y.otherMdia);
        cmp("trak-children", x.otherTrak, y.otherTrak);
    }
    // movie header: everything but the modification-independent content stays
    if (a.mvhd != b.mvhd)
        c.fail("mvhd", round + "movie header differs: " + hex(a.mvhd, 120) + " vs " + hex(b.mvhd, 120));
}

static void caseC09(Ctx &c)
{
    auto &r = c.rng;
    mp4::GOptions o;
    o.big = r.chance(15);
    auto g = mp4::generate(r, o);
    auto path = c.path("f.mp4");
    writeFile(path, g.file);
    c.artifact("input.mp4", g.file);
    c.note(g.desc);
    auto before = mp4::inspect(g.file);
    for (std::size_t i = 0; i < g.tracks.size(); ++i) {
        std::vector<Bytes> s;
        for (auto &x : g.tracks[i].samples)
            s.push_back(x.data);
        if (s != (g.fragmented ? before.tracks[i].fragSamples : before.tracks[i].samples))
            throw std::logic_error("harness: generator and reader disagree");
    }
    auto rounds = r.range(1, 3);
    auto m = std::make_unique<Media>(path);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        if (r.chance(30))
            m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        auto res = m->parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok)
            c.failNow("parse-throws", round + res.what);
        if (m->info.tagsParsingStatus() == T::ParsingStatus::CriticalFailure || m->info.tracksParsingStatus() != T::ParsingStatus::Ok)
            c.failNow("parse-status", round + "tracks or tags not parsed: " + res.diagText());
        m->info.createAppropriateTags();
        auto ed = randomEdit(r, m->info);
        if (!g.fragmented && before.tracks.size() > 1 && r.chance(12)) {
            auto victim = r.below(before.tracks.size());
            auto *container = static_cast<T::Mp4Container *>(m->info.container());
            if (container->trackCount() != before.tracks.size())
                c.failNow("track-count", round + "tracks missing");
            container->removeTrack(container->track(victim));
            before.tracks.erase(before.tracks.begin() + static_cast<std::ptrdiff_t>(victim));
            ed += strf("remove track #%llu ", (unsigned long long)victim);
            c.cover("track-removed");
        }
        c.note(" | " + round + ed);
        bool inPlacePossible = !cfg.forceRewrite;
        emptyDirExcept(c.dir, "f.mp4");
        auto ap = m->apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.mp4", k), bytes);
        mp4::Info after;
        try {
            after = mp4::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        compareMp4(c, before, after, round + ed);
        if (after.sidxProblem)
            c.fail("sidx", round + *after.sidxProblem);
        bool rewritten = fileExists(path + ".bak");
        c.cover(std::string(rewritten ? "rewritten" : "in-place") + (g.fragmented ? " fragmented" : strf(" %zu mdat", before.mdats.size())));
        c.cover(strf("tag %d%d index %d%d", (int)cfg.tagPos, cfg.forceTagPos, (int)cfg.indexPos, cfg.forceIndexPos));
        (void)inPlacePossible;
        for (auto &t : after.tracks)
            c.count("samples-compared", t.samples.size() + t.fragSamples.size());
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
    }
}
static PropReg regC09("C09", caseC09);
} // namespace tp
