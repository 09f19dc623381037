// C18: padding, rewriting and positions.
#include "any.h"
#include "edits.h"
#include "mkvfmt.h"
#include "mp4fmt.h"
#include "oggfmt.h"
#include "rawfmt.h"
#include <filesystem>
#include <sys/stat.h>
namespace fs = std::filesystem;
namespace tp {
namespace {
using Pos = T::ElementPosition;
const char *posName(Pos p) { return p == Pos::Keep ? "keep" : p == Pos::BeforeData ? "before" : "after"; }
// where things are, by independent readers
struct Layout {
    bool hasMedia = false, multi = false, fragmented = false, canPad = false, flacOnly = false;
    std::uint64_t media = 0, front = 0, end = 0, endVoidable = 0;
    std::uint64_t reported = 0; // what paddingSize() should say
    bool reportedKnown = false;
    std::optional<bool> tagsAfter, attachmentsAfter, indexAfter;
    std::optional<bool> firstMdatTags, firstMdatIndex; // relative to the first "mdat" atom
    std::size_t references = 0;
    std::vector<std::uint64_t> oggPaddings;
    std::string text() const
    {
        auto o = [](const std::optional<bool> &b) { return !b ? "-" : *b ? "after" : "before"; };
        return strf("media@%llu front %llu end %llu tags %s attachments %s index %s", (unsigned long long)media, (unsigned long long)front, (unsigned long long)end, o(tagsAfter), o(attachmentsAfter), o(indexAfter));
    }
};
bool isHead(std::string_view t) { return t == "ftyp" || t == "pdin" || t == "moov" || t == "free" || t == "skip"; }
void sumFree(const std::vector<mp4::Atom> &atoms, std::uint64_t &n)
{
    for (auto &a : atoms) {
        if (a.type == "free" || a.type == "skip")
            n += a.size;
        sumFree(a.kids, n);
    }
}
void sumVoid(const std::vector<mkv::El> &els, std::uint64_t &n)
{
    for (auto &e : els) {
        if (e.id == 0xEC)
            n += e.hdr + e.size;
        sumVoid(e.kids, n);
    }
}
Layout layoutOf(const AnyGen &g, std::string_view b)
{
    Layout l;
    switch (g.fam) {
    case Fam::Mp4: {
        auto i = mp4::inspect(b);
        l.fragmented = i.fragmented;
        l.canPad = true;
        std::uint64_t firstMdat = 0, moov = 0, pending = 0;
        const mp4::Atom *m = nullptr;
        for (auto &a : i.atoms) {
            if (!isHead(a.type)) {
                if (!l.hasMedia)
                    l.media = a.off;
                l.hasMedia = true;
                l.endVoidable += pending;
                pending = 0;
            } else if (l.hasMedia)
                pending += a.size;
            if (a.type == "mdat" && !firstMdat)
                firstMdat = a.off;
            if (a.type == "moov" && !m) {
                moov = a.off;
                m = &a;
            }
            if (a.type == "free" || a.type == "skip")
                (l.hasMedia ? l.end : l.front) += a.size;
        }
        if (l.hasMedia)
            l.indexAfter = moov > l.media;
        if (firstMdat && moov) {
            l.firstMdatIndex = moov > firstMdat;
            if (m->child("udta"))
                l.firstMdatTags = moov > firstMdat;
        }
        sumFree(i.atoms, l.reported);
        l.reportedKnown = true;
        break;
    }
    case Fam::Mkv: {
        auto i = mkv::inspect(b);
        l.multi = i.segments > 1;
        l.hasMedia = !i.clusters.empty();
        l.canPad = l.hasMedia;
        l.media = i.firstCluster;
        l.front = i.padding;
        if (l.hasMedia && !l.multi) {
            if (i.tagsOff)
                l.tagsAfter = l.firstMdatTags = i.tagsOff > i.firstCluster;
            if (i.attachmentsOff)
                l.attachmentsAfter = i.attachmentsOff > i.firstCluster;
            if (i.hasCues)
                l.indexAfter = l.firstMdatIndex = i.cuesOff > i.firstCluster;
        }
        l.references = i.cues.size() + i.seekEntries;
        sumVoid(i.els, l.reported);
        l.reportedKnown = true;
        break;
    }
    case Fam::Ogg: {
        auto i = ogg::inspect(b);
        for (auto &t : i.streams)
            if (t.tag)
                l.oggPaddings.push_back(t.padding);
        break;
    }
    case Fam::Raw: {
        auto i = raw::inspect(b, g.keepJunk);
        l.hasMedia = true;
        l.media = i.streamOff;
        l.front = i.padding();
        l.canPad = i.flac || !i.tags.empty();
        l.flacOnly = i.flac && i.tags.empty();
        l.reported = l.front;
        l.reportedKnown = !i.junk && !g.keepJunk;
        break;
    }
    }
    return l;
}
struct Outputs {
    Result res;
    bool rewritten = false;
    Bytes bytes;
    Layout layout;
    std::string desc;
};
struct Subject {
    Ctx &c;
    AnyGen g;
    Layout before;
    std::uint64_t editSeed = 0;
    bool create = false, edit = true;
    std::string path;

    Outputs run(const Cfg &cfg, const char *what)
    {
        for (auto &e : fs::directory_iterator(c.dir))
            fs::remove_all(e.path());
        writeFile(path, g.file);
        Outputs o;
        o.desc = g.format + " " + what + " " + cfg.toString() + ": ";
        auto m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        auto res = m->parse();
        auto ok = [](T::ParsingStatus s) { return s == T::ParsingStatus::Ok || s == T::ParsingStatus::NotSupported; };
        if (res.outcome != Outcome::Ok || !ok(m->info.tagsParsingStatus()) || !ok(m->info.tracksParsingStatus()))
            c.failNow("parse", o.desc + res.what + res.diagText());
        if (create) {
            T::TagCreationSettings s;
            m->info.createAppropriateTags(s);
        }
        Rng r(editSeed);
        if (edit)
            o.desc += randomEdit(r, m->info);
        struct stat s0, s1;
        stat(path.c_str(), &s0);
        o.res = m->apply();
        if (o.res.outcome != Outcome::Ok)
            c.failNow("apply-throws", o.desc + o.res.what + " " + o.res.diagText());
        stat(path.c_str(), &s1);
        std::size_t others = 0;
        for (auto &e : fs::directory_iterator(c.dir))
            others += e.path() != path;
        if (others > 1)
            c.fail("extra-files", o.desc + strf("%zu files beside the written one", others));
        if ((others == 1) != (s0.st_ino != s1.st_ino))
            c.fail("backup-vs-rewrite", o.desc + strf("%zu backups but the file is %s one", others, s0.st_ino != s1.st_ino ? "a new" : "the same"));
        o.rewritten = others == 1;
        if (o.rewritten)
            for (auto &e : fs::directory_iterator(c.dir))
                if (e.path() != path && readFile(e.path()) != g.file)
                    c.fail("backup-content", o.desc + "the backup does not hold the original");
        o.bytes = readFile(path);
        c.artifact("written", o.bytes);
        try {
            o.layout = layoutOf(g, o.bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", o.desc + e.what());
        }
        // what the object reports after writing itself is cleared; what another one reports
        report(o);
        judge(cfg, o);
        c.cover(g.format + (o.rewritten ? " rewritten" : " in place"));
        c.count(o.rewritten ? "rewritten" : "in-place");
        return o;
    }
    void report(const Outputs &o)
    {
        auto &l = o.layout;
        Media m(path);
        m.info.setForceFullParse(true);
        auto res = m.parse();
        if (res.outcome != Outcome::Ok)
            c.failNow("reparse", o.desc + res.what);
        if (g.fam == Fam::Ogg) {
            // padding of the comments of streams handled by the library
            if (!l.oggPaddings.empty() && m.info.container()) {
                std::uint64_t sum = 0;
                for (auto p : l.oggPaddings)
                    sum += p;
                if (m.info.paddingSize() != sum)
                    c.fail("reported-padding", o.desc + strf("paddingSize() is %llu but the file has %llu", (unsigned long long)m.info.paddingSize(), (unsigned long long)sum));
            }
        } else if (l.reportedKnown && m.info.paddingSize() != l.reported)
            c.fail("reported-padding", o.desc + strf("paddingSize() is %llu but the file has %llu", (unsigned long long)m.info.paddingSize(), (unsigned long long)l.reported));
        if (auto *k = m.info.container(); k && !l.multi && l.hasMedia && g.fam != Fam::Ogg) {
            T::Diagnostics d;
            auto check = [&](Pos got, const std::optional<bool> &want, const char *what) {
                auto expected = !want ? Pos::Keep : *want ? Pos::AfterData : Pos::BeforeData;
                if (got != expected)
                    c.fail("reported-position", o.desc + strf("position of %s is said to be \"%s\" but is \"%s\"", what, posName(got), posName(expected)));
            };
            check(k->determineTagPosition(d), l.firstMdatTags, "tags");
            check(k->determineIndexPosition(d), l.firstMdatIndex, "index");
        }
    }
    void judge(const Cfg &cfg, const Outputs &o)
    {
        auto &l = o.layout;
        auto &b = before;
        if (g.fam == Fam::Ogg) {
            for (auto p : l.oggPaddings)
                if (p != cfg.prefPad)
                    c.fail("padding-ogg", o.desc + strf("padding of comment is %llu instead of the preferred %zu", (unsigned long long)p, cfg.prefPad));
            return;
        }
        if (o.rewritten) {
            std::uint64_t want = cfg.prefPad;
            if (g.fam == Fam::Mp4)
                want = want && want < 8 ? 8 : want;
            else if (g.fam == Fam::Mkv)
                want = want == 1 ? 2 : want;
            else if (l.flacOnly)
                want = want ? want + 4 : 0;
            if (!l.canPad)
                want = 0;
            if (l.front != want)
                c.fail("preferred-padding", o.desc + strf("the file was rewritten but there are %llu instead of %llu bytes of padding; ", (unsigned long long)l.front, (unsigned long long)want) + l.text());
            if (l.end)
                c.fail("padding-after-data", o.desc + strf("the file was rewritten but there are %llu bytes of padding between the media data", (unsigned long long)l.end));
        } else {
            if (cfg.forceRewrite && !(g.fam == Fam::Raw && !l.canPad && o.bytes == g.file))
                c.fail("not-rewritten", o.desc + "rewriting was forced but the file was updated in place");
            if (l.canPad && (l.front < cfg.minPad || l.front + l.end > cfg.maxPad))
                c.fail("padding-limits", o.desc + strf("the file was updated in place leaving %llu+%llu bytes of padding; ", (unsigned long long)l.front, (unsigned long long)l.end) + l.text());
            if (l.hasMedia && l.media != b.media && !(g.fam == Fam::Raw && !l.canPad))
                c.fail("media-moved", o.desc + "the file was updated in place but the media data is somewhere else: " + b.text() + " -> " + l.text());
        }
        // positions
        auto side = [&](const std::optional<bool> &was, const std::optional<bool> &is, Pos p, bool forced, const char *what) {
            if (!is || (!forced && !o.rewritten))
                return;
            if (p == Pos::Keep) {
                if (was && *was != *is)
                    c.fail("position-not-kept", o.desc + strf("%s should be kept but moved; ", what) + b.text() + " -> " + l.text());
            } else if (*is != (p == Pos::AfterData))
                c.fail("position", o.desc + strf("%s should be %s the media data; ", what, posName(p)) + b.text() + " -> " + l.text());
            c.count(std::string("position-") + what);
        };
        if (g.fam == Fam::Mp4) {
            auto byTag = cfg.forceTagPos || !cfg.forceIndexPos;
            if (l.fragmented) {
                if (l.indexAfter && *l.indexAfter)
                    c.fail("position", o.desc + "movie atom of fragmented file is not in front of the media data");
            } else
                side(b.indexAfter, l.indexAfter, byTag ? cfg.tagPos : cfg.indexPos, cfg.forceTagPos || cfg.forceIndexPos, "movie atom");
        } else if (g.fam == Fam::Mkv && !l.multi) {
            // the library considers tags and attachments together
            auto together = !b.tagsAfter || !b.attachmentsAfter || *b.tagsAfter == *b.attachmentsAfter;
            auto was = b.tagsAfter ? b.tagsAfter : b.attachmentsAfter;
            if (cfg.tagPos != Pos::Keep || together) {
                side(was, l.tagsAfter, cfg.tagPos, cfg.forceTagPos, "tags");
                side(was, l.attachmentsAfter, cfg.tagPos, cfg.forceTagPos, "attachments");
            }
            side(b.indexAfter, l.indexAfter, cfg.indexPos, cfg.forceIndexPos, "cues");
        }
        // needless rewriting
        if (o.rewritten && !cfg.forceRewrite && !b.multi && b.hasMedia && l.hasMedia) {
            auto head = l.media - l.front;
            if (b.media >= head) {
                std::uint64_t room = b.media - head, low = cfg.minPad, high = cfg.maxPad, margin = 0;
                if (g.fam == Fam::Mkv)
                    margin = 64 + 4 * (b.references + l.references);
                auto possible = room >= low + margin && room + b.endVoidable + margin <= high;
                if (g.fam == Fam::Mp4 && room && room < 8)
                    possible = false;
                if (g.fam == Fam::Raw && (l.flacOnly ? room && room < 4 : !l.canPad && room))
                    possible = false;
                if (possible)
                    c.fail("needless-rewrite", o.desc + strf("the file was rewritten although %llu (+%llu) bytes of padding would be within the limits; ", (unsigned long long)room, (unsigned long long)b.endVoidable) + b.text() + " -> " + l.text());
                c.count("rewrite-justified");
            }
        }
    }
};
}
static void caseC18(Ctx &c)
{
    auto &r = c.rng;
    AnyOptions ao;
    ao.small = r.chance(60);
    if (r.chance(94))
        ao.fam = r.pick({ static_cast<int>(Fam::Mp4), static_cast<int>(Fam::Mkv), static_cast<int>(Fam::Raw) });
    Subject s{ c, anyFile(r, ao), {}, r.next(), r.chance(60), r.chance(85), {} };
    s.path = c.path(s.g.name);
    s.before = layoutOf(s.g, s.g.file);
    // give the file more or less room beforehand (by the library as the generators give little)
    c.artifact("input", s.g.file);
    c.note(s.g.desc + "; " + s.before.text());
    if (s.g.fam != Fam::Ogg && r.chance(60)) {
        Cfg pre = randomCfg(r);
        pre.forceRewrite = true;
        pre.prefPad = r.pick({ std::size_t(0), r.size(64), r.size(600), r.size(5000), std::size_t(200000) });
        auto keepEdit = s.edit, keepCreate = s.create;
        s.edit = r.chance(30);
        s.create = r.coin();
        auto o = s.run(pre, "preparation");
        s.edit = keepEdit;
        s.create = keepCreate;
        s.editSeed = r.next();
        s.g.file = o.bytes;
        s.before = o.layout;
        c.artifact("prepared", s.g.file);
        c.note(" prepared: " + s.before.text());
    }
    Cfg cfg = randomCfg(r);
    cfg.forceRewrite = false;
    cfg.minPad = 0;
    cfg.maxPad = 1ull << 40;
    cfg.prefPad = r.chance(30) ? r.below(16) : r.size(5000);
    auto o = s.run(cfg, "without limits");
    if (!o.rewritten && o.layout.canPad && s.g.fam != Fam::Ogg) {
        // limits right at the boundary
        auto p = o.layout.front, e = o.layout.end;
        auto l = cfg;
        auto which = r.below(5);
        auto expectSame = false, expectOther = false;
        switch (which) {
        case 0:
            l.maxPad = p + e;
            expectSame = true;
            break;
        case 1:
            if (p + e) {
                l.maxPad = p + e - 1;
                expectOther = true;
            } else
                expectSame = true;
            break;
        case 2:
            l.minPad = p;
            expectSame = true;
            break;
        case 3:
            l.minPad = p + 1;
            expectOther = true;
            break;
        case 4:
            l.forceRewrite = true;
            expectOther = true;
            break;
        }
        auto o2 = s.run(l, "with limit");
        if (expectSame && (o2.rewritten || o2.bytes != o.bytes))
            c.fail("limit-inclusive", o2.desc + strf("padding of %llu+%llu is within the limits but the outcome is different: %s; ", (unsigned long long)p, (unsigned long long)e, o2.rewritten ? "rewritten" : "in place") + o.layout.text() + " -> " + o2.layout.text());
        if (expectOther && !o2.rewritten && o2.layout.front == p && o2.layout.end == e)
            c.fail("limit-ignored", o2.desc + strf("padding of %llu+%llu is not within the limits but the file was not rewritten", (unsigned long long)p, (unsigned long long)e));
        c.count(strf("boundary-%d", static_cast<int>(which)));
        c.cover(s.g.format + strf(" boundary %d", static_cast<int>(which)));
    }
    auto o3 = s.run(randomCfg(r), "random settings");
    c.mix(o.rewritten);
    c.mix(o.layout.front);
    c.mix(o3.rewritten);
    c.mix(o3.layout.front);
    c.mix(s.before.media);
    c.nontrivial = true;
}
static PropReg c18{ "C18", caseC18 };
}
