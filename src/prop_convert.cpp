// C21: conversion between ID3 versions and creation of the tags requested by settings.
#include "edits.h"
#include "mkvfmt.h"
#include "rawfmt.h"
#include "values.h"
#include "views.h"
#include <set>
namespace tp {
void compareRaw(Ctx &c, const raw::Info &a, const raw::Info &b, const std::string &round);
namespace {
using Canon = std::vector<std::pair<Bytes, Bytes>>;
struct Date {
    long y = -1, mo = -1, d = -1, h = -1, mi = -1, s = -1;
    std::string str() const { return strf("%ld-%ld-%ld %ld:%ld:%ld", y, mo, d, h, mi, s); }
};
struct Tag2 {
    unsigned version = 3;
    Canon frames; // without recording date and frames which are optional
    Date date;
    unsigned dateVersion = 3; // version of the tag the date comes from
    bool hadDate = false;
    std::set<Bytes> vague; // frames which may or may not count as set (zero positions)
    std::vector<Canon> more; // frames merged from further tags
    bool empty() const { return frames.empty() && !hadDate && more.empty(); }
};
struct Slot {
    std::vector<Bytes> any; // acceptable texts; empty: none expected
    bool vague = false;
};
struct Tag1 {
    Slot texts[5]; // title, artist, album, year, comment
    std::vector<unsigned> tracks{ 0 }, genres{ 255 };
};
long num(std::string_view s)
{
    if (s.empty())
        return -1;
    long v = 0;
    for (auto ch : s) {
        if (ch < '0' || ch > '9')
            return -1;
        v = v * 10 + (ch - '0');
    }
    return v;
}
Bytes inner(const Bytes &form)
{
    auto f = form.substr(0, form.rfind(']'));
    return f.empty() ? f : f.substr(1);
}
// takes the recording date out of the frames
Date takeDate(Canon &v, bool &had)
{
    Date r;
    had = false;
    for (auto i = v.begin(); i != v.end();) {
        auto s = i->first == "TYER" || i->first == "TDAT" || i->first == "TIME" || i->first == "TDRC" ? inner(i->second) : Bytes();
        if (i->first == "TYER")
            r.y = num(s);
        else if (i->first == "TDAT")
            r.d = num(s.substr(0, 2)), r.mo = num(s.substr(2));
        else if (i->first == "TIME")
            r.h = num(s.substr(0, 2)), r.mi = num(s.substr(2));
        else if (i->first == "TDRC") {
            auto part = [&](std::size_t p, std::size_t n) { return p < s.size() ? num(s.substr(p, n)) : -1; };
            r = { part(0, 4), part(5, 2), part(8, 2), part(11, 2), part(14, 2), part(17, 2) };
        } else if (i->first != "TRDA") {
            ++i;
            continue;
        }
        had |= i->first != "TRDA";
        i = v.erase(i);
    }
    return r;
}
Tag2 load(const id3::Tag &t)
{
    Tag2 r;
    r.version = r.dateVersion = t.version;
    r.frames = id3::canonTag(t);
    r.date = takeDate(r.frames, r.hadDate);
    for (auto &f : t.frames) {
        auto id = t.version < 3 ? id3::longId(f.id) : f.id;
        auto known = std::any_of(r.frames.begin(), r.frames.end(), [&](auto &e) { return e.first == id; });
        if (!known)
            r.vague.insert(id);
    }
    return r;
}
Bytes decodeSlot(const Bytes &s)
{
    if (s.substr(0, 3) == "\xEF\xBB\xBF")
        return s.substr(3);
    std::vector<std::uint32_t> cps;
    for (auto ch : s)
        cps.push_back(static_cast<unsigned char>(ch));
    return fromCodePoints(cps);
}
Tag1 load(const id3::V1 &v)
{
    Tag1 r;
    const Bytes *slots[] = { &v.title, &v.artist, &v.album, &v.year, &v.comment };
    for (unsigned i = 0; i < 5; ++i)
        if (!slots[i]->empty())
            r.texts[i].any = { decodeSlot(*slots[i]) };
    r.tracks = { v.v11 ? v.track : 0 };
    r.genres = { v.genre };
    return r;
}
bool slotHolds(const Bytes &text, const Bytes &slot, std::size_t cap)
{
    auto got = decodeSlot(slot);
    auto trimmed = text;
    while (!trimmed.empty() && (trimmed.back() == ' ' || trimmed.back() == '\0'))
        trimmed.pop_back();
    if (got == text || got == trimmed)
        return true;
    auto bom = slot.substr(0, 3) == "\xEF\xBB\xBF";
    auto room = bom ? cap - 3 : cap;
    auto encoded = bom ? text : isLatin1(text) ? utf8ToLatin1(text) : Bytes();
    if (encoded.size() <= room)
        return false;
    auto raw = bom ? slot.substr(3) : slot;
    auto expect = encoded.substr(0, room);
    while (!expect.empty() && expect.back() == ' ')
        expect.pop_back();
    if (raw == expect)
        return true;
    // a multi-byte character may be left out completely
    return bom && raw.size() + 3 >= expect.size() && encoded.compare(0, raw.size(), raw) == 0 && (static_cast<unsigned char>(encoded[raw.size()]) & 0xC0) != 0x80;
}
const char *ids1[] = { "TIT2", "TPE1", "TALB", "", "COMM" };
// the values of an ID3v2 tag which ID3v1 can hold
void fill(Tag1 &to, const Tag2 &from, bool overwrite)
{
    auto take = [&](const Canon &frames, bool also) {
        for (unsigned i = 0; i < 5; ++i) {
            std::vector<Bytes> any;
            if (i == 3) {
                if (from.hadDate && from.date.y >= 0 && !also)
                    any.push_back(strf("%04ld", from.date.y));
            } else
                for (auto &e : frames)
                    if (e.first == ids1[i]) {
                        auto f = e.second;
                        if (i == 4) {
                            f = f.substr(f.find(")(") + 2);
                            f = f.substr(f.find(")[") + 1);
                        }
                        any.push_back(inner(f));
                    }
            if (any.empty())
                continue;
            if (to.texts[i].any.empty())
                to.texts[i].any = any, to.texts[i].vague = also;
            else if (overwrite)
                to.texts[i].any.insert(to.texts[i].any.end(), any.begin(), any.end());
        }
        for (auto &e : frames) {
            auto add = [&](auto &v, unsigned none, unsigned n) {
                if (v.size() == 1 && v[0] == none) {
                    v = { n };
                    if (also || n == none) // may count as set
                        v.push_back(none);
                } else if (overwrite || (v[0] == none && v[1] == none))
                    v.push_back(n);
            };
            if (e.first == "TRCK") {
                auto s = inner(e.second);
                auto n = num(s.substr(0, s.find('/')));
                add(to.tracks, 0, n < 0 || n > 255 ? 0 : static_cast<unsigned>(n));
            } else if (e.first == "TCON") {
                auto s = inner(e.second);
                if (s.size() > 1 && s[0] == '#')
                    add(to.genres, 255, static_cast<unsigned>(num(s.substr(1))));
                else // can not be represented
                    add(to.genres, 255, 255);
            }
        }
        if (from.vague.count("TRCK"))
            to.tracks.push_back(0);
    };
    take(from.frames, false);
    for (auto &m : from.more)
        take(m, true);
}
// the values of an ID3v1 tag are added where there are none yet
void fill(Tag2 &to, const Tag1 &from)
{
    auto has = [&](const Bytes &id) {
        auto in = [&](const Canon &v) { return std::any_of(v.begin(), v.end(), [&](auto &e) { return e.first == id; }); };
        return in(to.frames) || std::any_of(to.more.begin(), to.more.end(), in);
    };
    for (unsigned i = 0; i < 5; ++i) {
        if (from.texts[i].any.size() != 1)
            continue;
        auto &s = from.texts[i].any[0];
        if (i == 3) {
            if (!to.hadDate) {
                auto y = num(s);
                if (s.size() == 4 && y > 0) {
                    to.hadDate = true;
                    to.date = Date();
                    to.date.y = y;
                } else
                    to.date.y = -2; // whatever it is
            }
        } else if (!has(ids1[i])) {
            if (to.vague.count(ids1[i]))
                continue;
            to.frames.emplace_back(ids1[i], (i == 4 ? "()()[" : "[") + s + "]");
        }
    }
    if (!has("TRCK") && from.tracks.size() == 1 && from.tracks[0]) {
        if (to.vague.count("TRCK"))
            to.vague.insert("TRCK?");
        else
            to.frames.emplace_back("TRCK", strf("[%u]", from.tracks[0]));
    }
    if (!has("TCON") && from.genres.size() == 1 && from.genres[0] < 192) // standard genres
        to.frames.emplace_back("TCON", strf("[#%u]", from.genres[0]));
}
// frames which have equivalents in version 2.2
bool convertible(const Bytes &id)
{
    static const std::set<Bytes> ids = { "TALB", "TPE1", "COMM", "TORY", "TMED", "TIT2", "TCON", "TRCK", "TPOS", "TENC", "TBPM", "APIC", "TEXT", "TLEN", "TLAN", "TSSE", "USLT", "SYLT", "TPE2", "TIT1", "TIT3", "TPUB", "UFID", "TCOM", "PCNT", "POPM",
        "TPE4", "TCOP", "TSRC", "TKEY", "TXXX", "WCOM", "WCOP", "WOAF", "WOAS", "WPUB", "WOAR", "WXXX" };
    return ids.count(id);
}
Bytes withoutFlags(Bytes s)
{
    for (auto *f : { " {discard-tag}", " {discard-file}", " {read-only}", " {group " })
        if (auto p = s.rfind(f); p != Bytes::npos)
            s.erase(p, s.find('}', p) - p + 1);
    return s;
}
void checkTag2(Ctx &c, const Tag2 &want, unsigned from, const id3::Tag &raw, const Result &applied, const std::string &what)
{
    auto to = raw.version;
    auto got = id3::canonTag(raw);
    bool gotDate;
    auto date = takeDate(got, gotDate);
    auto dropDiags = 0, firstOnly = 0;
    for (auto &d : applied.diag) {
        dropDiags += d.message().find("frame ID can't be converted to its") != std::string::npos;
        firstOnly += d.message().find("Multiple strings assigned to pre-ID3v2.4") != std::string::npos;
    }
    // recording date
    auto bad = [&](long w, long g) { return w != g; };
    auto &d = want.date;
    if (want.hadDate) {
        auto wrong = bad(d.y, date.y);
        if (to >= 4 || d.mo < 0 || d.d >= 0)
            wrong |= bad(d.mo, date.mo) || bad(d.d, date.d) || bad(d.h, date.h) || bad(d.mi, date.mi);
        else
            wrong |= bad(d.mo, date.mo); // there is no month without a day
        if (to >= 4)
            wrong |= want.dateVersion >= 4 ? bad(d.s, date.s) : date.s > 0;
        if (wrong && !(want.dateVersion < 4 && to >= 4 && d.h < 0 && date.h < 0 && d.y == date.y && d.mo == date.mo && d.d == date.d))
            c.fail(strf("date-%u-%u", from, to), what + "recording date " + d.str() + " became " + date.str());
    } else if (gotDate && d.y != -2)
        c.fail(strf("date-%u-%u", from, to), what + "recording date " + date.str() + " appeared");
    // other frames
    auto strict = from >= 3 && to >= 3;
    auto same = [&](const Bytes &w, const Bytes &g) {
        if (strict ? w == g : withoutFlags(w) == withoutFlags(g))
            return true;
        if (from < 4 || to >= 4 || !firstOnly)
            return false;
        auto a = withoutFlags(w), b = withoutFlags(g); // only the first of multiple values
        return b.size() > 2 && b.back() == ']' && a.compare(0, b.size(), b) == 0;
    };
    auto rest = got;
    for (auto &e : want.frames) {
        auto hit = rest.end();
        for (auto i = rest.begin(); i != rest.end(); ++i)
            if (i->first == e.first && same(e.second, i->second)) {
                hit = i;
                break;
            }
        if (hit != rest.end()) {
            rest.erase(hit);
            c.count("frames-kept");
            continue;
        }
        auto needsEquivalent = (from < 3) != (to < 3);
        if (needsEquivalent && !convertible(e.first) && dropDiags-- > 0) {
            c.count("frames-not-representable");
            continue;
        }
        Bytes other;
        for (auto &x : got)
            if (x.first == e.first)
                other += " " + x.second.substr(0, 120);
        c.fail(strf("frame-%u-%u-", from, to) + e.first, what + strf("2.%u to 2.%u: ", from, to) + e.first + "=" + e.second.substr(0, 120) + " expected, present:" + other);
    }
    for (auto &e : rest) { // not expected
        auto ok = want.vague.count(e.first + "?") != 0;
        for (auto &m : want.more)
            for (auto &x : m)
                ok |= x.first == e.first && same(x.second, e.second);
        if (!ok)
            c.fail(strf("extra-%u-%u-", from, to) + e.first, what + e.first + "=" + e.second.substr(0, 120) + " not expected");
    }
    // frames of merged tags
    std::set<Bytes> seen;
    for (auto &m : want.more)
        for (auto &x : m) {
            auto id = x.first;
            if (!seen.insert(id).second || std::any_of(got.begin(), got.end(), [&](auto &e) { return e.first == id; }) || want.vague.count(id))
                continue;
            // one message per frame; frames of the first tag have been counted before
            auto counted = std::any_of(want.frames.begin(), want.frames.end(), [&](auto &e) { return e.first == id; });
            if (!convertible(id) && (counted || dropDiags-- > 0))
                continue;
            c.fail("merged-" + id, what + id + "=" + x.second.substr(0, 120) + " of a further tag is missing");
        }
}
void checkTag1(Ctx &c, const Tag1 &want, const id3::V1 &v, const std::string &what)
{
    const Bytes *slots[] = { &v.title, &v.artist, &v.album, &v.year, &v.comment };
    const std::size_t caps[] = { 30, 30, 30, 4, 28 };
    for (unsigned i = 0; i < 5; ++i) {
        auto &w = want.texts[i];
        auto ok = w.any.empty() || w.vague ? slots[i]->empty() : false;
        for (auto &t : w.any)
            ok |= slotHolds(t, *slots[i], caps[i]) || (i == 3 && decodeSlot(*slots[i]) == t.substr(0, 4));
        if (!ok)
            c.fail(strf("v1-slot-%u", i), what + strf("ID3v1 slot %u is ", i) + quote(*slots[i]) + ", expected " + (w.any.empty() ? Bytes("nothing") : quote(w.any[0])));
        c.count("slots-compared");
    }
    auto in = [](const std::vector<unsigned> &v, unsigned n) { return std::find(v.begin(), v.end(), n) != v.end(); };
    if (!in(want.tracks, v.track))
        c.fail("v1-track", what + strf("ID3v1 track is %u instead of %u", v.track, want.tracks[0]));
    if (!in(want.genres, v.genre))
        c.fail("v1-genre", what + strf("ID3v1 genre is %u instead of %u", v.genre, want.genres[0]));
}
void merge(std::vector<Tag2> &tags)
{
    if (tags.size() < 2)
        return;
    auto &first = tags[0];
    for (std::size_t k = 1; k < tags.size(); ++k) {
        first.more.push_back(tags[k].frames);
        for (auto &v : tags[k].vague)
            first.vague.insert(v);
        if (!first.hadDate && tags[k].hadDate)
            first.hadDate = true, first.date = tags[k].date, first.dateVersion = tags[k].dateVersion;
    }
    tags.resize(1);
}
const char *usageName(T::TagUsage u)
{
    return u == T::TagUsage::Always ? "always" : u == T::TagUsage::Never ? "never" : "keep";
}
void caseRaw(Ctx &c)
{
    auto &r = c.rng;
    auto onlyVersion = r.chance(45);
    raw::GOptions go;
    go.maxStream = 3000;
    if (onlyVersion)
        go.format = r.pick({ "mp3", "mp3", "adts", "flac", "wavpack", "aiff" });
    go.v1 = !onlyVersion || r.chance(20);
    go.tag.multi = onlyVersion;
    auto g = raw::generate(r, go);
    auto path = c.path("f.bin");
    writeFile(path, g.file);
    c.artifact("input.bin", g.file);
    auto keepJunk = g.format == "unknown";
    auto before = raw::inspect(g.file, keepJunk);
    auto cfg = randomCfg(r);
    Media m(path);
    applyCfg(m.info, cfg);
    auto res = m.parse();
    if (res.outcome != Outcome::Ok)
        c.failNow("parse", res.what);
    if (m.info.id3v2Tags().size() != before.tags.size() || m.info.hasId3v1Tag() != before.v1.has_value())
        c.failNow("tags", "tags not found");
    std::vector<Tag2> tags;
    std::vector<unsigned> from;
    for (auto &t : before.tags) {
        tags.push_back(load(t));
        from.push_back(t.version);
    }
    std::optional<Tag1> v1;
    if (before.v1)
        v1 = load(*before.v1);
    std::string what;
    if (onlyVersion && r.coin()) {
        if (tags.empty())
            return;
        for (std::size_t i = 0; i < tags.size(); ++i) {
            tags[i].version = r.pick({ 2u, 3u, 4u });
            m.info.id3v2Tags()[i]->setVersion(static_cast<std::uint8_t>(tags[i].version), 0);
            what += strf("tag %zu 2.%u->2.%u ", i, from[i], tags[i].version);
        }
    } else {
        T::TagCreationSettings s;
        s.id3v1usage = onlyVersion ? T::TagUsage::KeepExisting : r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting, T::TagUsage::Never });
        s.id3v2usage = onlyVersion ? r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting }) : r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting, T::TagUsage::Never });
        s.id3v2MajorVersion = static_cast<std::uint8_t>(r.range(2, 4));
        auto treat = r.chance(70), init = !onlyVersion && r.coin(), transfer = !onlyVersion && r.coin(), join = !onlyVersion && r.coin(), keepVersion = !onlyVersion && r.coin();
        auto convenience = !onlyVersion && r.chance(20) ? r.range(1, 2) : 0;
        if (convenience == 1) {
            what = "id3v1ToId3v2 ";
            s.id3v1usage = T::TagUsage::Never, s.id3v2usage = T::TagUsage::Always, s.id3v2MajorVersion = 3;
        } else if (convenience == 2) {
            what = "id3v2ToId3v1 ";
            s.id3v1usage = T::TagUsage::Always, s.id3v2usage = T::TagUsage::Never;
        }
        if (convenience)
            treat = false, init = false, transfer = true, join = true, keepVersion = true;
        s.flags = T::TagCreationFlags::None;
        if (treat) s.flags |= T::TagCreationFlags::TreatUnknownFilesAsMp3Files;
        if (init) s.flags |= T::TagCreationFlags::Id3InitOnCreate;
        if (transfer) s.flags |= T::TagCreationFlags::Id3TransferValuesOnRemoval;
        if (join) s.flags |= T::TagCreationFlags::MergeMultipleSuccessiveId3v2Tags;
        if (keepVersion) s.flags |= T::TagCreationFlags::KeepExistingId3v2Version;
        what += strf("v1 %s v2 %s 2.%u%s%s%s%s%s ", usageName(s.id3v1usage), usageName(s.id3v2usage), (unsigned)s.id3v2MajorVersion, treat ? " treat" : "", init ? " init" : "", transfer ? " transfer" : "", join ? " merge" : "", keepVersion ? " keepversion" : "");
        auto flac = m.info.containerFormat() == T::ContainerFormat::Flac;
        auto supported = false;
        switch (m.info.containerFormat()) {
        case T::ContainerFormat::Adts:
        case T::ContainerFormat::Aiff:
        case T::ContainerFormat::MpegAudioFrames:
        case T::ContainerFormat::WavPack:
        case T::ContainerFormat::Flac:
            supported = true;
            break;
        default:;
        }
        auto expectDone = supported || treat || v1 || !tags.empty();
        if (convenience)
            expectDone = convenience == 1 ? v1.has_value() : !tags.empty();
        auto done = convenience == 1 ? m.info.id3v1ToId3v2() : convenience == 2 ? m.info.id3v2ToId3v1() : m.info.createAppropriateTags(s);
        if (convenience && !done && expectDone && !supported) // "does nothing if the format isn't known to support ID3 tags (unless there is one)"
            c.fail("return-convenience", what + "returned false");
        else if (done != expectDone)
            c.fail("return", what + strf("returned %d", done) + " for " + g.format);
        if (!c.failures.empty())
            return;
        // what is requested
        if (done) {
            if (!flac) {
                if (s.id3v1usage == T::TagUsage::Always && !v1) {
                    v1.emplace();
                    if (init)
                        for (auto &t : tags)
                            fill(*v1, t, true);
                }
                if (s.id3v2usage == T::TagUsage::Always && tags.empty()) {
                    Tag2 t;
                    t.version = s.id3v2MajorVersion;
                    if (init && v1)
                        fill(t, *v1);
                    tags.push_back(t);
                    from.push_back(t.version);
                }
            }
            if (join)
                merge(tags);
            if (s.id3v1usage == T::TagUsage::Never && v1) {
                if (transfer && !tags.empty())
                    fill(tags[0], *v1);
                v1.reset();
            }
            if (s.id3v2usage == T::TagUsage::Never) {
                if (transfer && v1)
                    for (auto &t : tags)
                        fill(*v1, t, false);
                tags.clear();
            } else if (!keepVersion)
                for (auto &t : tags)
                    t.version = s.id3v2MajorVersion;
            if (flac && !m.info.vorbisComment())
                c.fail("vorbis-comment", what + "no Vorbis comment");
        }
        c.cover(strf("%s %s init%d transfer%d", usageName(s.id3v1usage), usageName(s.id3v2usage), init, transfer));
    }
    c.note(g.desc + " " + cfg.toString() + ": " + what);
    // assigned
    if (m.info.hasId3v1Tag() != v1.has_value())
        c.fail("v1-presence", what + (v1 ? "ID3v1 tag missing" : "ID3v1 tag still present"));
    if (m.info.id3v2Tags().size() != tags.size())
        c.failNow("v2-presence", what + strf("%zu ID3v2 tags instead of %zu", m.info.id3v2Tags().size(), tags.size()));
    for (std::size_t i = 0; i < tags.size(); ++i)
        if (m.info.id3v2Tags()[i]->majorVersion() != tags[i].version)
            c.fail("v2-version", what + strf("version is 2.%u instead of 2.%u", (unsigned)m.info.id3v2Tags()[i]->majorVersion(), tags[i].version));
    emptyDirExcept(c.dir, "f.bin");
    auto ap = m.apply();
    c.count(std::string("apply-") + outcomeName(ap.outcome));
    if (ap.outcome != Outcome::Ok)
        c.failNow("apply", what + ap.what + ap.diagText());
    auto bytes = readFile(cfg.savePath.empty() ? path : cfg.savePath);
    c.artifact("after.bin", bytes);
    raw::Info after;
    try {
        after = raw::inspect(bytes, keepJunk);
    } catch (const std::exception &e) {
        c.failNow("malformed-output", what + e.what());
    }
    compareRaw(c, before, after, what);
    if (after.v1.has_value() != v1.has_value())
        c.fail("v1-written", what + (v1 ? "ID3v1 tag not written" : "ID3v1 tag not removed"));
    if (after.tags.size() != tags.size())
        c.failNow("v2-written", what + strf("%zu ID3v2 tags written instead of %zu", after.tags.size(), tags.size()));
    for (std::size_t i = 0; i < tags.size(); ++i) {
        if (after.tags[i].version != tags[i].version)
            c.fail("version-written", what + strf("version 2.%u written instead of 2.%u", after.tags[i].version, tags[i].version));
        checkTag2(c, tags[i], from[i], after.tags[i], ap, what + strf("tag %zu: ", i));
        c.cover(strf("2.%u-2.%u", from[i], tags[i].version));
    }
    if (v1 && after.v1)
        checkTag1(c, *v1, *after.v1, what);
    c.mix(bytes);
    c.nontrivial = true;
}
std::string tagsText(const std::vector<mkv::TagEl> &tags)
{
    std::string s;
    for (auto &t : tags)
        s += t.text() + "\n";
    return s;
}
// tags for the requested targets
void caseTargets(Ctx &c)
{
    auto &r = c.rng;
    mkv::GOptions o;
    o.maxClusters = 2;
    o.maxBlocks = 2;
    o.foreign = false;
    auto g = mkv::generate(r, o);
    auto path = c.path("f.mkv");
    writeFile(path, g.file);
    c.artifact("input.mkv", g.file);
    auto before = mkv::inspect(g.file);
    auto cfg = randomCfg(r);
    Media m(path);
    applyCfg(m.info, cfg);
    auto res = m.parse();
    auto *container = dynamic_cast<T::MatroskaContainer *>(m.info.container());
    if (res.outcome != Outcome::Ok || !container)
        c.failNow("parse", res.what);
    auto tags = mkvTagView(before);
    if (container->tagCount() != tags.size())
        c.failNow("tags", "tags not found");
    auto existing = tags.size();
    T::TagCreationSettings s;
    s.id3v1usage = r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting, T::TagUsage::Never });
    s.id3v2usage = r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting, T::TagUsage::Never });
    std::string what;
    std::vector<mkv::TagEl> wanted;
    auto isEmpty = [](const mkv::TagEl &x) { return !x.hasLevel && x.tracks.empty() && x.chapters.empty() && x.attachments.empty() && x.editions.empty(); };
    auto equal = [](const mkv::TagEl &x, const mkv::TagEl &y) { return x.level == y.level && x.tracks == y.tracks && x.chapters == y.chapters && x.attachments == y.attachments && x.editions == y.editions; };
    for (auto n = r.below(5); n; --n) {
        mkv::TagEl x;
        if (!tags.empty() && r.chance(40)) {
            auto &t = r.pick(tags);
            x.level = t.level, x.hasLevel = true, x.tracks = t.tracks, x.chapters = t.chapters, x.editions = t.editions, x.attachments = t.attachments;
        } else if (!wanted.empty() && r.chance(20))
            x = r.pick(wanted);
        else if (r.chance(90)) {
            if (r.chance(80))
                x.hasLevel = true, x.level = r.pick({ 10u, 30u, 50u, 60u });
            if (r.chance(40))
                x.tracks = { 1 + r.below(3) };
            if (r.chance(20))
                x.chapters = { 1 + r.below(3) };
            if (r.chance(10))
                x.editions = { 1 + r.below(3) };
            if (r.chance(10))
                x.attachments = { 1 + r.below(3) };
        }
        T::TagTarget target(x.hasLevel ? x.level : 0, x.tracks, x.chapters, x.editions, x.attachments);
        wanted.push_back(x);
        s.requiredTargets.push_back(target);
        what += x.text() + "; ";
    }
    auto required = !wanted.empty() && (wanted.size() > 1 || !isEmpty(wanted[0]));
    if (required && tags.empty()) {
        auto x = wanted[0];
        tags.push_back(x);
    }
    if (required) {
        for (auto &x : wanted)
            if (std::none_of(tags.begin(), tags.end(), [&](auto &t) { return equal(t, x); }) && !(isEmpty(x) && !tags.empty()))
                tags.push_back(x);
    } else if (tags.empty())
        tags.emplace_back();
    c.note(g.desc + " " + cfg.toString() + ": " + what);
    if (!m.info.createAppropriateTags(s))
        c.fail("return", what + "returned false for Matroska");
    if (container->tagCount() != tags.size())
        c.failNow("target-count", what + strf("%zu tags instead of %zu", container->tagCount(), tags.size()));
    for (std::size_t i = 0; i < tags.size(); ++i) {
        auto &t = container->tag(i)->target();
        auto &w = tags[i];
        if (t.level() != w.level || t.tracks() != w.tracks || t.chapters() != w.chapters || t.editions() != w.editions || t.attachments() != w.attachments)
            c.fail("target-assigned", what + strf("target of tag %zu", i));
        if (i < existing)
            continue;
        auto title = strf("title %zu", i);
        container->tag(i)->setValue(T::KnownField::Title, utf8Value(title));
        mkv::SimpleTag f;
        f.name = "TITLE";
        f.str = title;
        tags[i].fields = { f };
    }
    emptyDirExcept(c.dir, "f.mkv");
    auto ap = m.apply();
    if (ap.outcome != Outcome::Ok)
        c.failNow("apply", what + ap.what + ap.diagText());
    auto bytes = readFile(cfg.savePath.empty() ? path : cfg.savePath);
    c.artifact("after.mkv", bytes);
    mkv::Info after;
    try {
        after = mkv::inspect(bytes);
    } catch (const std::exception &e) {
        c.failNow("malformed-output", what + e.what());
    }
    auto got = mkvTagView(after);
    for (auto *v : { &tags, &got })
        v->erase(std::remove_if(v->begin(), v->end(), [](auto &x) { return x.fields.empty(); }), v->end());
    for (auto *v : { &tags, &got })
        for (auto &t : *v)
            for (auto &f : t.fields) // not specified whether assigned values are flagged as default
                if (f.str && f.str->substr(0, 6) == "title ")
                    f.def = true;
    auto a = tagsText(tags), b = tagsText(got);
    if (a != b)
        c.fail("targets-written", what + firstDiff(a, b));
    c.count("targets-compared", got.size());
    c.cover(strf("targets %zu existing %zu", std::min<std::size_t>(wanted.size(), 4), std::min<std::size_t>(existing, 3)));
    c.mix(bytes);
    c.nontrivial = true;
}
void caseC21(Ctx &c)
{
    if (c.rng.chance(12))
        return caseTargets(c);
    caseRaw(c);
}
PropReg reg("C21", caseC21);
}
}
