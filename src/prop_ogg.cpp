// C11: Ogg packets and page structure.
#include "edits.h"
#include "lib.h"
#include "oggfmt.h"

namespace tp {
// removed: serials of streams whose comment packet is gone; added: serials which got a comment
void compareOgg(Ctx &c, const ogg::Info &a, const ogg::Info &b, const std::string &round, const std::set<std::uint32_t> &removed, const std::set<std::uint32_t> &added)
{
    // a removed comment may take the only page after the identification header along
    std::set<std::string> tolerated(a.problems.begin(), a.problems.end());
    for (auto &s : a.streams)
        if (removed.count(s.serial) && s.comment && *s.comment + 1 == s.packets.size())
            tolerated.insert(strf("noeos stream %u has no EOS flag on its last page", s.serial));
    for (auto &p : b.problems)
        if (!tolerated.count(p)) c.fail("page-" + p.substr(0, p.find(' ')), round + p);
    if (a.streams.size() != b.streams.size())
        c.failNow("stream-count", round + strf("%zu streams before, %zu after", a.streams.size(), b.streams.size()));
    for (std::size_t i = 0; i < a.streams.size(); ++i) {
        auto &x = a.streams[i], &y = b.streams[i];
        auto id = strf("stream %u (%s): ", x.serial, x.codec.c_str());
        if (x.serial != y.serial)
            c.failNow("stream-order", round + id + "another stream is at its place");
        std::vector<const ogg::Packet *> p, q;
        auto headers = x.codec == "vorbis" || x.codec == "theora" ? 3u : x.codec == "opus" || x.codec == "speex" ? 2u : x.codec == "flac" ? 5u : 0u;
        std::vector<bool> header;
        for (std::size_t k = 0; k < x.packets.size(); ++k)
            if (!(x.comment && *x.comment == k)) {
                p.push_back(&x.packets[k]);
                header.push_back(k < headers);
            }
        bool expectComment = (x.comment || added.count(x.serial)) && !removed.count(x.serial);
        for (std::size_t k = 0; k < y.packets.size(); ++k)
            if (!(y.comment && *y.comment == k))
                q.push_back(&y.packets[k]);
        if (expectComment && !y.comment)
            c.fail("comment-missing", round + id + "no comment packet at its place");
        if (!expectComment && y.comment)
            c.fail("comment-left", round + id + "comment packet present");
        if (p.size() != q.size())
            c.failNow("packet-count", round + id + strf("%zu packets before, %zu after", p.size(), q.size()));
        for (std::size_t k = 0; k < p.size(); ++k) {
            if (p[k]->data != q[k]->data)
                c.failNow("packet", round + id + strf("packet %zu (%zu bytes) differs (%zu bytes)", k, p[k]->data.size(), q[k]->data.size()));
            if (p[k]->granule != q[k]->granule && !(header[k] && (!p[k]->granule || *p[k]->granule == 0) && (!q[k]->granule || *q[k]->granule == 0)))
                c.fail("granule", round + id + strf("packet %zu: granule position %lld before, %lld after", k, (long long)p[k]->granule.value_or(-2), (long long)q[k]->granule.value_or(-2)));
        }
        if (x.lastGranule != y.lastGranule)
            c.fail("last-granule", round + id + strf("final granule position %lld before, %lld after", (long long)x.lastGranule, (long long)y.lastGranule));
        // the identification header is alone on its page
        if (y.packets.size() > 1 && x.packets.size() > 1 && x.packets[1].freshPage && !y.packets[1].freshPage)
            c.fail("header-page", round + id + "second packet shares the page of the identification header");
    }
}
static void caseC11(Ctx &c)
{
    auto &r = c.rng;
    auto g = ogg::generate(r);
    auto path = c.path("f.ogg");
    writeFile(path, g.file);
    c.artifact("input.ogg", g.file);
    c.note(g.desc);
    auto before = ogg::inspect(g.file);
    if (!before.problems.empty())
        throw std::logic_error("harness: generated file has problems: " + before.problems[0]);
    auto rounds = r.range(1, 3);
    auto m = std::make_unique<Media>(path);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        if (r.chance(30))
            m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        m->info.setPreferredPadding(r.chance(60) ? 0 : r.below(3000));
        auto res = m->parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok)
            c.failNow("parse-throws", round + res.what);
        if (m->info.tagsParsingStatus() != T::ParsingStatus::Ok || m->info.tracksParsingStatus() != T::ParsingStatus::Ok)
            c.failNow("parse-status", round + "tracks or tags not parsed: " + res.diagText());
        std::set<std::uint32_t> removed, added;
        auto *container = static_cast<T::OggContainer *>(m->info.container());
        std::string ed;
        for (auto &s : before.streams)
            if (!s.comment && (s.codec == "vorbis" || s.codec == "opus") && r.coin()) {
                if (auto *t = container->createTag(T::TagTarget(50, { s.serial }))) {
                    t->setValue(T::KnownField::Title, utf8Value("new"));
                    added.insert(s.serial);
                    ed += "create tag ";
                }
            }
        ed += randomEdit(r, m->info);
        if (ed.find("removeTags") != std::string::npos)
            for (auto &s : before.streams)
                removed.insert(s.serial);
        else if (r.chance(5) && container->tagCount()) {
            auto *t = container->tag(r.below(container->tagCount()));
            removed.insert(static_cast<std::uint32_t>(t->target().tracks().front()));
            container->removeTag(t);
            ed += "removeTag ";
        }
        c.note(" | " + round + ed);
        emptyDirExcept(c.dir, "f.ogg");
        auto ap = m->apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.ogg", k), bytes);
        ogg::Info after;
        try {
            after = ogg::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        compareOgg(c, before, after, round + ed, removed, added);
        for (auto &s : after.streams)
            c.count("packets-compared", s.packets.size());
        c.count("pages-checked", after.pages.size());
        c.cover(strf("streams %zu", after.streams.size()));
        for (auto &s : g.streams)
            c.cover(s.codec + (s.hasComment ? "" : " nocomment"));
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
        if (!removed.empty() || !added.empty()) {
            before = after;
            m = std::make_unique<Media>(path);
        }
    }
}
static PropReg regC11("C11", caseC11);
} // namespace tp
