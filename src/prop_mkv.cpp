// C10: Matroska blocks, cues, seek entries and checksums.
#include "edits.h"
#include "lib.h"
#include "mkvfmt.h"

namespace tp {
void compareMkv(Ctx &c, const mkv::Info &a, const mkv::Info &b, const std::string &round)
{
    if (a.clusters.size() != b.clusters.size())
        c.failNow("cluster-count", round + strf("clusters before %zu, after %zu", a.clusters.size(), b.clusters.size()));
    for (std::size_t i = 0; i < a.clusters.size(); ++i) {
        auto &x = a.clusters[i], &y = b.clusters[i];
        if (x.ts != y.ts)
            c.fail("cluster-time", round + strf("cluster %zu timestamp differs", i));
        if (x.blocks != y.blocks)
            c.fail("blocks", round + strf("blocks of cluster %zu differ (%zu before, %zu after)", i, x.blocks.size(), y.blocks.size()));
        if (x.other != y.other)
            c.fail("cluster-other", round + strf("other children of cluster %zu differ", i));
    }
    if (a.cues.size() != b.cues.size())
        c.fail("cue-count", round + strf("cues before %zu, after %zu", a.cues.size(), b.cues.size()));
    else
        for (std::size_t i = 0; i < a.cues.size(); ++i)
            if (a.cues[i].text() != b.cues[i].text())
                c.fail("cue", round + strf("cue %zu: ", i) + a.cues[i].text() + " vs " + b.cues[i].text());
    for (auto &p : b.problems) {
        auto key = p.find("seek entry") == 0 ? "seek-entry" : p.find("cue") == 0 ? "cue-position" : p.find("position element") == 0 ? "cluster-position" : p.find("checksum") == 0 ? "checksum" : "problem";
        c.fail(key, round + p);
    }
}
static void caseC10(Ctx &c)
{
    auto &r = c.rng;
    auto g = mkv::generate(r);
    std::size_t segments = 1;
    if (r.chance(12)) { // multiple segments (concatenated files)
        mkv::GOptions o;
        o.maxClusters = 3;
        o.maxBlocks = 4;
        for (auto n = r.range(1, 2); n; --n) {
            if (mkv::parse(g.file).back().unknownSize)
                break; // only the last segment might be of unknown size
            auto h = mkv::generate(r, o);
            g.file += h.file;
            g.desc += " + " + h.desc;
            ++segments;
        }
    }
    auto path = c.path("f.mkv");
    writeFile(path, g.file);
    c.artifact("input.mkv", g.file);
    c.note(g.desc);
    std::vector<mkv::Info> before;
    for (std::size_t i = 0; i < segments; ++i) {
        before.push_back(mkv::inspect(g.file, i));
        if (!before.back().problems.empty())
            throw std::logic_error("harness: generated file has problems: " + before.back().problems[0]);
    }
    auto rounds = r.range(1, 3);
    auto m = std::make_unique<Media>(path);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        if (r.chance(30))
            m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        auto res = m->parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok)
            c.failNow("parse-throws", round + res.what);
        if (m->info.tagsParsingStatus() != T::ParsingStatus::Ok || m->info.tracksParsingStatus() != T::ParsingStatus::Ok)
            c.failNow("parse-status", round + "tracks or tags not parsed: " + res.diagText());
        m->info.createAppropriateTags();
        auto ed = randomEdit(r, m->info);
        c.note(" | " + round + ed);
        emptyDirExcept(c.dir, "f.mkv");
        auto ap = m->apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.mkv", k), bytes);
        std::vector<mkv::Info> after;
        try {
            for (std::size_t i = 0; i < segments; ++i)
                after.push_back(mkv::inspect(bytes, i));
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        if (after[0].segments != segments)
            c.fail("segment-count", round + strf("segments before %zu, after %zu", segments, after[0].segments));
        for (std::size_t i = 0; i < segments; ++i)
            compareMkv(c, before[i], after[i], round + (segments > 1 ? strf("segment %zu: ", i) : "") + ed);
        bool rewritten = fileExists(path + ".bak");
        c.cover(rewritten ? "rewritten" : "in-place");
        c.cover(strf("tag %d%d index %d%d", (int)cfg.tagPos, cfg.forceTagPos, (int)cfg.indexPos, cfg.forceIndexPos));
        for (auto &seg : after) {
            for (auto &cl : seg.clusters)
                c.count("blocks-compared", cl.blocks.size());
            c.count("cues-resolved", seg.cues.size());
            c.count("seek-entries-resolved", seg.seekEntries);
        }
        if (segments > 1)
            c.count("multiple-segments");
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
    }
}
static PropReg regC10("C10", caseC10);
} // namespace tp
