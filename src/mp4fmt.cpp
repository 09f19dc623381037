#include "mp4fmt.h"
#include "lib.h"
#include <algorithm>
#include <set>

namespace tp::mp4 {

Bytes atom(std::string_view type, std::string_view payload, bool wide)
{
    W w;
    if (wide)
        w.be32(1).s(type).be64(16 + payload.size());
    else
        w.be32(8 + payload.size()).s(type);
    w.s(payload);
    return w.b;
}
const Atom *Atom::child(std::string_view t) const
{
    for (const auto &k : kids)
        if (k.type == t)
            return &k;
    return nullptr;
}
std::vector<const Atom *> Atom::children(std::string_view t) const
{
    std::vector<const Atom *> r;
    for (const auto &k : kids)
        if (k.type == t)
            r.push_back(&k);
    return r;
}
const Atom *Atom::path(std::initializer_list<std::string_view> p) const
{
    const Atom *a = this;
    for (auto t : p) {
        a = a->child(t);
        if (!a)
            return nullptr;
    }
    return a;
}

static bool isContainer(const Bytes &t, const Bytes &parent)
{
    static const std::set<Bytes> c = { "moov", "trak", "mdia", "minf", "stbl", "edts", "udta", "meta", "moof", "traf", "mvex", "mfra", "ilst" };
    return c.count(t) || parent == "ilst";
}

static std::vector<Atom> parseRange(std::string_view f, std::uint64_t from, std::uint64_t to, const Bytes &parent)
{
    std::vector<Atom> r;
    std::uint64_t pos = from;
    while (pos < to) {
        if (parent == "udta" && to - pos == 4 && rbe(f, pos, 4) == 0)
            break; // QuickTime terminator
        if (to - pos < 8)
            throw Malformed(strf("atom header at %llu does not fit its parent %s", (unsigned long long)pos, parent.c_str()));
        Atom a;
        a.off = pos;
        a.size = rbe(f, pos, 4);
        a.type = Bytes(f.substr(pos + 4, 4));
        if (a.size == 1) {
            if (to - pos < 16)
                throw Malformed("64-bit atom header truncated");
            a.size = rbe(f, pos + 8, 8);
            a.hdr = 16;
        } else if (a.size == 0) {
            if (!parent.empty())
                throw Malformed("nested atom with size 0");
            a.size = to - pos;
        }
        if (a.size < a.hdr || a.size > to - pos)
            throw Malformed(strf("atom %s at %llu (size %llu) exceeds parent %s ending at %llu", quote(a.type).c_str(), (unsigned long long)pos,
                (unsigned long long)a.size, parent.c_str(), (unsigned long long)to));
        if (isContainer(a.type, parent)) {
            a.extra = a.type == "meta" ? 4 : 0;
            if (a.dataSize() < a.extra)
                throw Malformed("meta atom too small");
            a.kids = parseRange(f, a.dataOff() + a.extra, a.end(), parent == "ilst" ? "ilst-item" : a.type);
        }
        pos = a.end();
        r.push_back(std::move(a));
    }
    return r;
}
std::vector<Atom> parse(std::string_view file)
{
    return parseRange(file, 0, file.size(), Bytes());
}

static void resolveTrack(std::string_view f, const Atom &stbl, TrackInfo &t)
{
    const auto *stsz = stbl.child("stsz"), *stz2 = stbl.child("stz2"), *stsc = stbl.child("stsc"), *stco = stbl.child("stco"), *co64 = stbl.child("co64");
    if (!stco && !co64)
        return;
    if ((!stsz && !stz2) || !stsc)
        throw Malformed("sample tables incomplete");
    std::vector<std::uint64_t> sizes;
    if (stsz) {
        auto p = stsz->payload(f);
        auto uni = rbe(p, 4, 4), n = rbe(p, 8, 4);
        for (std::uint64_t i = 0; i < n; ++i)
            sizes.push_back(uni ? uni : rbe(p, 12 + i * 4, 4));
    } else {
        auto p = stz2->payload(f);
        auto fs = rbe(p, 7, 1), n = rbe(p, 8, 4);
        for (std::uint64_t i = 0; i < n; ++i) {
            if (fs == 4) {
                auto b = rbe(p, 12 + i / 2, 1);
                sizes.push_back(i % 2 ? (b & 15) : (b >> 4));
            } else
                sizes.push_back(rbe(p, 12 + i * (fs / 8), static_cast<int>(fs / 8)));
        }
    }
    std::vector<std::uint64_t> offs;
    {
        auto p = (stco ? stco : co64)->payload(f);
        auto n = rbe(p, 4, 4);
        int w = stco ? 4 : 8;
        if (p.size() != 8 + n * static_cast<std::uint64_t>(w))
            throw Malformed("chunk offset table size does not fit entry count");
        for (std::uint64_t i = 0; i < n; ++i)
            offs.push_back(rbe(p, 8 + i * static_cast<std::uint64_t>(w), w));
    }
    auto p = stsc->payload(f);
    auto n = rbe(p, 4, 4);
    std::vector<std::pair<std::uint64_t, std::uint64_t>> runs;
    for (std::uint64_t i = 0; i < n; ++i)
        runs.emplace_back(rbe(p, 8 + i * 12, 4), rbe(p, 12 + i * 12, 4));
    std::size_t s = 0, run = 0;
    for (std::size_t c = 1; c <= offs.size(); ++c) {
        while (run + 1 < runs.size() && runs[run + 1].first <= c)
            ++run;
        if (runs.empty() || runs[0].first > c)
            throw Malformed("chunk without sample-to-chunk entry");
        auto pos = offs[c - 1];
        for (std::uint64_t k = 0; k < runs[run].second; ++k) {
            if (s >= sizes.size())
                throw Malformed("more samples in chunks than sizes");
            if (pos + sizes[s] > f.size())
                throw Malformed(strf("sample %zu of track %u at %llu+%llu lies beyond the file end %zu", s, t.id, (unsigned long long)pos, (unsigned long long)sizes[s], f.size()));
            t.samples.emplace_back(f.substr(pos, sizes[s]));
            pos += sizes[s];
            ++s;
        }
    }
    if (s != sizes.size())
        throw Malformed("fewer samples in chunks than sizes");
}

static bool isFree(const Bytes &t)
{
    return t == "free" || t == "skip" || t == "wide";
}

static void readItems(std::string_view f, const Atom &ilst, Info &r)
{
    r.hasIlst = true;
    for (const auto &k : ilst.kids) {
        if (isFree(k.type))
            continue;
        MetaItem it;
        it.id = k.type;
        it.raw = Bytes(k.whole(f));
        for (const auto &d : k.kids) {
            auto p = d.payload(f);
            if (d.type == "data") {
                if (p.size() < 8)
                    throw Malformed("data atom too small");
                DataAtom a;
                a.type = static_cast<std::uint32_t>(rbe(p, 0, 4));
                a.locale = static_cast<std::uint32_t>(rbe(p, 4, 4));
                a.data = Bytes(p.substr(8));
                it.data.push_back(std::move(a));
            } else if (d.type == "mean" && p.size() >= 4) {
                it.mean = Bytes(p.substr(4));
            } else if (d.type == "name" && p.size() >= 4) {
                it.name = Bytes(p.substr(4));
            } else {
                it.other.emplace_back(d.whole(f));
            }
        }
        r.items.push_back(std::move(it));
    }
}

static void readMeta(std::string_view f, const Atom &meta, Info &r)
{
    for (const auto &k : meta.kids) {
        if (k.type == "ilst")
            readItems(f, k, r);
        else if (k.type != "hdlr" && !isFree(k.type))
            r.otherMeta.emplace_back(k.whole(f));
    }
}

Info inspect(std::string_view f)
{
    Info r;
    r.atoms = parse(f);
    std::map<std::uint32_t, std::size_t> byId;
    std::map<std::uint32_t, std::pair<std::uint64_t, std::uint64_t>> trex; // default size, duration
    const Atom *moov = nullptr;
    for (const auto &a : r.atoms) {
        if (a.type == "moov") {
            if (moov)
                throw Malformed("two moov atoms");
            moov = &a;
        }
    }
    bool firstM = true;
    for (const auto &a : r.atoms) {
        if (!isFree(a.type))
            r.topOrder.push_back(a.type);
        if (isFree(a.type))
            r.freeBytes += a.size;
        else if (a.type == "mdat") {
            r.mdats.emplace_back(a.payload(f));
            if (firstM) {
                r.firstMdat = a.off;
                firstM = false;
            }
            r.lastMdatEnd = a.end();
        } else if (a.type == "moof") {
            r.fragmented = true;
        } else if (a.type != "moov" && a.type != "mfra" && a.type != "sidx")
            r.otherTop.emplace_back(a.whole(f));
    }
    if (!moov)
        throw Malformed("no moov atom");
    r.moovOff = moov->off;
    r.moovSize = moov->size;
    for (const auto &k : moov->kids) {
        if (k.type == "mvhd") {
            r.mvhd = Bytes(k.payload(f));
        } else if (k.type == "trak") {
            TrackInfo t;
            auto *tkhd = k.child("tkhd"), *mdia = k.child("mdia");
            if (!tkhd || !mdia)
                throw Malformed("trak without tkhd or mdia");
            auto p = tkhd->payload(f);
            bool v1 = rbe(p, 0, 1) == 1;
            t.tkhdFlags = static_cast<std::uint32_t>(rbe(p, 1, 3));
            std::size_t o = 4;
            int w = v1 ? 8 : 4;
            t.creation = rbe(p, o, w), o += static_cast<size_t>(w);
            t.modification = rbe(p, o, w), o += static_cast<size_t>(w);
            t.id = static_cast<std::uint32_t>(rbe(p, o, 4)), o += 8;
            t.tkhdDuration = rbe(p, o, w), o += static_cast<size_t>(w);
            t.tkhdTail = Bytes(p.substr(std::min(o + 8, p.size())));
            if (!v1 && t.tkhdDuration == 0xFFFFFFFF)
                t.tkhdDuration = ~0ull;
            for (const auto &c : k.kids)
                if (c.type != "tkhd" && c.type != "mdia" && !isFree(c.type))
                    t.otherTrak.emplace_back(c.whole(f));
            auto *mdhd = mdia->child("mdhd"), *hdlr = mdia->child("hdlr"), *minf = mdia->child("minf");
            if (!mdhd || !hdlr || !minf)
                throw Malformed("mdia without mdhd, hdlr or minf");
            p = mdhd->payload(f);
            v1 = rbe(p, 0, 1) == 1;
            w = v1 ? 8 : 4;
            o = 4;
            t.mcreation = rbe(p, o, w), o += static_cast<size_t>(w);
            t.mmodification = rbe(p, o, w), o += static_cast<size_t>(w);
            t.timescale = static_cast<std::uint32_t>(rbe(p, o, 4)), o += 4;
            t.mdhdDuration = rbe(p, o, w), o += static_cast<size_t>(w);
            if (!v1 && t.mdhdDuration == 0xFFFFFFFF)
                t.mdhdDuration = ~0ull;
            t.lang = static_cast<std::uint16_t>(rbe(p, o, 2));
            if (p.size() != o + 4)
                throw Malformed("mdhd has wrong size");
            p = hdlr->payload(f);
            if (p.size() < 24)
                throw Malformed("hdlr too small");
            t.handler = Bytes(p.substr(8, 4));
            t.name = Bytes(p.substr(24));
            if (auto z = t.name.find('\0'); z != Bytes::npos)
                t.name.resize(z);
            for (const auto &c : mdia->kids)
                if (c.type != "mdhd" && c.type != "hdlr" && c.type != "minf" && !isFree(c.type))
                    t.otherMdia.emplace_back(c.whole(f));
            for (const auto &c : minf->kids)
                if (c.type != "stbl" && !isFree(c.type))
                    t.otherMinf.emplace_back(c.whole(f));
            if (auto *stbl = minf->child("stbl")) {
                for (const auto &c : stbl->kids)
                    if (c.type != "stco" && c.type != "co64" && !isFree(c.type))
                        t.otherStbl.emplace_back(c.whole(f));
                resolveTrack(f, *stbl, t);
            }
            if (byId.count(t.id))
                throw Malformed("two tracks with the same ID");
            byId[t.id] = r.tracks.size();
            r.tracks.push_back(std::move(t));
        } else if (k.type == "udta") {
            for (const auto &c : k.kids) {
                if (c.type == "meta")
                    readMeta(f, c, r);
                else if (!isFree(c.type))
                    r.otherUdta.emplace_back(c.whole(f));
            }
        } else if (k.type == "meta") {
            r.metaInMoov = true;
            readMeta(f, k, r);
        } else if (k.type == "mvex") {
            for (const auto *x : k.children("trex")) {
                auto p = x->payload(f);
                trex[static_cast<std::uint32_t>(rbe(p, 4, 4))] = { rbe(p, 16, 4), rbe(p, 12, 4) };
            }
            r.otherMoov.emplace_back(k.whole(f));
        } else if (!isFree(k.type)) {
            r.otherMoov.emplace_back(k.whole(f));
        }
    }
    // fragments
    for (const auto &a : r.atoms) {
        if (a.type != "moof")
            continue;
        std::uint64_t prevEnd = a.off; // per spec: base of first traf is the moof, later ones the end of previous data
        bool firstTraf = true;
        for (const auto *traf : a.children("traf")) {
            auto *tfhd = traf->child("tfhd");
            if (!tfhd)
                throw Malformed("traf without tfhd");
            auto p = tfhd->payload(f);
            auto fl = rbe(p, 1, 3);
            auto id = static_cast<std::uint32_t>(rbe(p, 4, 4));
            std::size_t o = 8;
            std::uint64_t base = (fl & 0x20000) ? a.off : (firstTraf ? a.off : prevEnd);
            std::uint64_t defSize = trex.count(id) ? trex[id].first : 0;
            if (fl & 1)
                base = rbe(p, o, 8), o += 8;
            if (fl & 2)
                o += 4;
            if (fl & 8)
                o += 4;
            if (fl & 0x10)
                defSize = rbe(p, o, 4), o += 4;
            if (!byId.count(id))
                throw Malformed("traf refers to unknown track");
            auto &t = r.tracks[byId[id]];
            std::uint64_t pos = base;
            for (const auto *trun : traf->children("trun")) {
                auto q = trun->payload(f);
                auto tf = rbe(q, 1, 3);
                auto n = rbe(q, 4, 4);
                std::size_t u = 8;
                if (tf & 1)
                    pos = base + static_cast<std::uint64_t>(static_cast<std::int64_t>(static_cast<std::int32_t>(rbe(q, u, 4)))), u += 4;
                if (tf & 4)
                    u += 4;
                for (std::uint64_t i = 0; i < n; ++i) {
                    std::uint64_t sz = defSize;
                    if (tf & 0x100)
                        u += 4;
                    if (tf & 0x200)
                        sz = rbe(q, u, 4), u += 4;
                    if (tf & 0x400)
                        u += 4;
                    if (tf & 0x800)
                        u += 4;
                    if (pos + sz > f.size() || pos < 8)
                        throw Malformed(strf("fragment sample of track %u at %llu lies beyond the file", id, (unsigned long long)pos));
                    t.fragSamples.emplace_back(f.substr(pos, sz));
                    pos += sz;
                }
            }
            prevEnd = pos;
            firstTraf = false;
        }
    }
    return r;
}

// ---------------------------------------------------------------- generator

static Bytes full(std::string_view type, int version, unsigned flags, std::string_view payload)
{
    W w;
    w.u8(static_cast<unsigned>(version)).be24(flags).s(payload);
    return atom(type, w.b);
}
static unsigned packLang(const std::string &l)
{
    return ((static_cast<unsigned>(l[0]) - 0x60u) << 10) | ((static_cast<unsigned>(l[1]) - 0x60u) << 5) | (static_cast<unsigned>(l[2]) - 0x60u);
}

Bytes dataAtom(std::uint32_t type, std::string_view data)
{
    W w;
    w.be32(type).be32(0).s(data);
    return atom("data", w.b);
}
Bytes textItem(std::string_view id, std::string_view text)
{
    return atom(id, dataAtom(1, text));
}

static Bytes hdlr(std::string_view type, std::string_view name)
{
    W w;
    w.be32(0).s(type).zero(12).s(name).u8(0);
    return full("hdlr", 0, 0, w.b);
}

static Bytes sampleEntry(Rng &r, GTrack &t)
{
    W w;
    w.zero(6).be16(1);
    if (t.kind == 'v') {
        t.width = static_cast<unsigned>(r.range(1, 4000));
        t.height = static_cast<unsigned>(r.range(1, 3000));
        t.format = r.pick({ "avc1", "mp4v", "hvc1", "av01" });
        w.zero(16).be16(t.width).be16(t.height).be32(0x480000).be32(0x480000).be32(0).be16(1);
        Bytes comp(32, '\0');
        comp[0] = 4;
        comp.replace(1, 4, "test");
        w.s(comp).be16(24).be16(0xffff);
        if (t.format == "avc1") {
            W c;
            c.u8(1).u8(100).u8(0).u8(30).u8(0xff).u8(0xe1);
            Bytes sps("\x67\x64\x00\x1e\xac\xd9\x40\xa0\x2f\xf9\x70\x11\x00\x00\x03\x00\x01\x00\x00\x03\x00\x32\x0f\x16\x2d\x96", 26);
            c.be16(sps.size()).s(sps).u8(1);
            Bytes pps("\x68\xeb\xe3\xcb\x22\xc0", 6);
            c.be16(pps.size()).s(pps);
            c.u8(0xfd).u8(0xf8).u8(0xf8).u8(0);
            w.s(atom("avcC", c.b));
        }
        if (r.coin())
            w.s(atom("btrt", W().be32(1000).be32(5000).be32(4000).b));
        return atom(t.format, w.b);
    }
    if (t.kind == 'a') {
        static const unsigned rates[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
        auto ri = static_cast<unsigned>(r.below(13));
        t.rate = rates[ri];
        t.channels = static_cast<unsigned>(r.range(1, 2));
        t.format = r.pick({ "mp4a", "mp4a", "mp4a", "ac-3", "alac", "sowt" });
        if (t.format != "mp4a" && t.rate > 65535)
            t.rate = 48000;
        w.zero(8).be16(t.channels).be16(t.bits).be16(0).be16(0).be32((t.rate <= 65535 ? t.rate : 0u) << 16);
        if (t.format == "mp4a") {
            unsigned cfg = (2u << 11) | (ri << 7) | (t.channels << 3);
            W dsi;
            dsi.u8(5).u8(2).be16(cfg);
            W dc;
            dc.u8(0x40).u8(0x15).be24(6144).be32(128000).be32(128000).s(dsi.b);
            W es;
            es.be16(0).u8(0).u8(4).u8(dc.b.size()).s(dc.b).u8(6).u8(1).u8(2);
            W e;
            e.be32(0).u8(3).u8(es.b.size()).s(es.b);
            w.s(atom("esds", e.b));
        }
        return atom(t.format, w.b);
    }
    t.format = "text";
    w.zero(20);
    w.zero(30);
    return atom("text", w.b);
}

static Bytes foreignAtom(Rng &r, std::size_t max = 60)
{
    static const char *types[] = { "uuid", "zzzz", "XtRa", "abcd", "\xa9xyz", "Loci" };
    auto type = r.pick(types);
    auto p = r.payload(r.size(max));
    if (!strcmp(type, "uuid"))
        p = r.payload(16) + p;
    return atom(type, p);
}

static Bytes mvhd(Rng &r, Gen &g, std::uint32_t nextTrack)
{
    bool v1 = r.chance(30);
    W w;
    int n = v1 ? 8 : 4;
    w.be(g.creation, n).be(g.creation + 5, n).be32(g.timescale).be(g.duration, n).be32(0x10000).be16(0x100).zero(10);
    w.be32(0x10000).zero(12).be32(0x10000).zero(12).be32(0x40000000).zero(24).be32(nextTrack);
    return full("mvhd", v1 ? 1 : 0, 0, w.b);
}

static Bytes dataAtomL(std::uint32_t type, std::uint32_t locale, std::string_view data)
{
    return atom("data", W().be32(type).be32(locale).s(data).b);
}
static Bytes existingIlst(Rng &r)
{
    std::vector<Bytes> items;
    static const char *ids[] = { "\xa9nam", "\xa9" "ART", "\xa9" "alb", "\xa9" "cmt", "\xa9too", "\xa9" "day", "desc", "aART", "cprt", "\xa9grp", "\xa9wrt", "\xa9lyr", "ldes", "\xa9" "dir" };
    std::set<std::string> used;
    auto n = r.below(6);
    auto text = [&](unsigned i) { return "old " + std::to_string(r.below(100000)) + (r.chance(20) ? randomText(r, 20) : Bytes()) + std::to_string(i); };
    auto locale = [&] { return r.chance(85) ? 0u : static_cast<std::uint32_t>(r.next()); };
    for (unsigned i = 0; i < n; ++i) {
        Bytes id = r.pick(ids);
        if (!used.insert(id).second)
            continue;
        if (r.chance(15)) {
            Bytes d;
            for (auto k = r.range(1, 3); k; --k)
                d += r.chance(60) ? dataAtomL(1, locale(), text(i)) : dataAtomL(2, locale(), toUtf16(text(i), true));
            items.push_back(atom(id, d));
        } else if (r.chance(10) && id != "\xa9" "day")
            items.push_back(textItem(id, text(i))), items.push_back(textItem(id, text(i)));
        else
            items.push_back(atom(id, dataAtomL(1, locale(), id == "\xa9" "day" ? Bytes("2010-05-06") : text(i))));
    }
    if (r.chance(30))
        items.push_back(atom("trkn", dataAtom(0, W().be16(0).be16(r.range(1, 20)).be16(20).be16(0).b)));
    if (r.chance(10))
        items.push_back(atom("disk", dataAtom(0, W().be16(0).be16(r.range(1, 20)).be16(r.below(3)).b)));
    if (r.chance(20)) {
        Bytes d;
        for (auto k = r.chance(30) ? r.range(2, 3) : 1; k; --k) {
            auto t = r.pick({ 13u, 14u, 13u, 27u, 12u, 0u });
            d += dataAtomL(t, locale(), r.payload(r.range(10, 3000)));
        }
        items.push_back(atom("covr", d));
    }
    if (r.chance(15))
        items.push_back(atom("gnre", dataAtom(0, W().be16(r.range(1, 192)).b)));
    else if (r.chance(20))
        items.push_back(textItem("\xa9gen", "Genre" + std::to_string(r.below(9))));
    for (auto *id : { "tmpo", "cpil", "pgap", "stik", "rtng", "plID", "cnID", "zzz1" })
        if (r.chance(8)) {
            auto one = !strcmp(id, "stik") || !strcmp(id, "rtng");
            auto bytes = one ? 1 : !strcmp(id, "plID") ? 8 : r.pick({ 1, 2, 3, 4, 8 });
            auto v = one ? r.pick({ 0u, 1u, 2u, 5u, 6u, 9u, 10u, 21u }) : bytes == 1 ? r.below(2) : r.next() >> (64 - bytes * 8 + r.below(static_cast<std::uint64_t>(bytes) * 8));
            items.push_back(atom(id, dataAtomL(r.chance(70) ? 21 : 22, 0, W().be(v, bytes).b)));
        }
    if (r.chance(8))
        items.push_back(atom("zzz2", dataAtomL(r.pick({ 0u, 15u, 17u, 23u, 24u, 28u, 99u }), locale(), r.bytes(1 + r.below(40)))));
    for (auto k = r.chance(30) ? r.range(1, 4) : 0; k; --k) {
        Bytes d;
        for (auto z = r.chance(15) ? 2 : 1; z; --z)
            d += r.chance(70) ? dataAtomL(1, locale(), " 00000B2E " + std::to_string(r.below(1000))) : dataAtomL(0, 0, r.bytes(1 + r.below(30)));
        items.push_back(atom("----", full("mean", 0, 0, r.pick({ "com.apple.iTunes", "com.apple.iTunes", "org.x", "abc" })) + full("name", 0, 0, r.pick({ "iTunNORM", "FOO", "LABEL", "cdec", "MusicBrainz Track Id", "x" })) + d));
    }
    for (std::size_t i = items.size(); i > 1; --i)
        std::swap(items[i - 1], items[r.below(i)]);
    W w;
    for (auto &i : items)
        w.s(i);
    return atom("ilst", w.b);
}

Gen generate(Rng &r, const GOptions &opt)
{
    Gen g;
    g.fragmented = opt.forceFragmented || (opt.allowFragmented && r.chance(25));
    g.timescale = r.pick({ 600u, 1000u, 90000u, 48000u, 1u });
    g.creation = 3000000000u + r.below(700000000);
    int nTracks = opt.tracks >= 0 ? opt.tracks : static_cast<int>(r.range(1, 3));
    std::uint32_t id = static_cast<std::uint32_t>(r.range(1, 4));
    double maxDur = 0;
    for (int i = 0; i < nTracks; ++i) {
        GTrack t;
        t.kind = i == 0 ? (r.coin() ? 'v' : 'a') : r.pick({ 'a', 'v', 't' });
        t.id = id;
        id += static_cast<std::uint32_t>(r.range(1, 3));
        t.timescale = r.pick({ 1000u, 48000u, 44100u, 90000u, 25u });
        t.lang = r.pick({ "eng", "ger", "und", "jpn", "fra" });
        if (r.coin())
            t.name = r.pick({ "Track name", "SoundHandler", "\xc3\x84rger", "x" });
        t.enabled = r.chance(80);
        t.creation = g.creation + r.below(1000);
        t.modification = t.creation + r.below(1000);
        auto n = r.range(1, opt.big ? 200 : 24);
        bool uniform = r.chance(15);
        const auto maxSample = r.chance(10) ? r.pick({ 14u, 200u }) : opt.big ? 3000u : 200u;
        auto uni = r.range(1, 50);
        for (unsigned k = 0; k < n; ++k) {
            Sample s;
            s.data = r.payload(uniform ? std::min<std::uint64_t>(uni, maxSample) : r.size(maxSample));
            if (s.data.empty())
                s.data = "e";
            s.duration = r.range(1, 1000);
            t.duration += s.duration;
            t.totalSize += s.data.size();
            t.samples.push_back(std::move(s));
        }
        for (std::size_t done = 0; done < t.samples.size();) {
            auto c = std::min<std::uint64_t>(r.range(1, 5), t.samples.size() - done);
            t.chunks.push_back(static_cast<std::uint32_t>(c));
            done += c;
        }
        t.co64 = r.chance(30);
        maxDur = std::max(maxDur, static_cast<double>(t.duration) / t.timescale);
        g.tracks.push_back(std::move(t));
    }
    g.duration = static_cast<std::uint64_t>(maxDur * g.timescale);

    // interleave chunks over mdats
    struct Chunk {
        std::size_t track, first, n;
        std::uint64_t off = 0; // relative to mdat payload / absolute later
        std::size_t mdat = 0;
    };
    std::vector<Chunk> chunks;
    {
        std::vector<std::size_t> nextChunk(g.tracks.size()), nextSample(g.tracks.size());
        for (;;) {
            std::vector<std::size_t> avail;
            for (std::size_t i = 0; i < g.tracks.size(); ++i)
                if (nextChunk[i] < g.tracks[i].chunks.size())
                    avail.push_back(i);
            if (avail.empty())
                break;
            auto i = avail[r.below(avail.size())];
            auto n = g.tracks[i].chunks[nextChunk[i]];
            chunks.push_back({ i, nextSample[i], n });
            nextChunk[i]++;
            nextSample[i] += n;
        }
    }
    auto nMdat = g.fragmented ? 1 : (r.chance(60) ? 1 : r.range(2, 4));
    std::vector<Bytes> mdat(nMdat);
    bool junkBetween = r.chance(20);
    if (!g.fragmented) {
        for (std::size_t c = 0; c < chunks.size(); ++c) {
            auto m = std::min<std::size_t>(nMdat - 1, c * nMdat / chunks.size());
            chunks[c].mdat = m;
            if (junkBetween && r.chance(20))
                mdat[m] += r.payload(r.range(1, 30));
            chunks[c].off = mdat[m].size();
            for (std::size_t k = 0; k < chunks[c].n; ++k)
                mdat[m] += g.tracks[chunks[c].track].samples[chunks[c].first + k].data;
        }
    }

    // fixed random parts of the moov atom
    std::vector<Bytes> stsd, trakForeign, udtaTrak, minfHdr, mdiaForeign, minfForeign, stblForeign;
    std::vector<unsigned> versions, mversions, tflags;
    std::vector<Bytes> elst, tref;
    for (auto &t : g.tracks) {
        stsd.push_back(full("stsd", 0, 0, W().be32(1).s(sampleEntry(r, t)).b));
        trakForeign.push_back(opt.foreign && r.chance(20) ? foreignAtom(r) : Bytes());
        mdiaForeign.push_back(opt.foreign && r.chance(15) ? (r.coin() ? full("elng", 0, 0, Bytes("en-US\0", 6)) : foreignAtom(r)) : Bytes());
        minfForeign.push_back(opt.foreign && r.chance(10) ? foreignAtom(r) : Bytes());
        stblForeign.push_back(opt.foreign && r.chance(10) ? (r.coin() ? full("sgpd", 1, 0, r.payload(20)) : foreignAtom(r)) : Bytes());
        udtaTrak.push_back(opt.foreign && r.chance(20) ? atom("udta", atom("name", "trackname") + (r.coin() ? foreignAtom(r) : Bytes())) : Bytes());
        versions.push_back(r.chance(30));
        mversions.push_back(r.chance(30));
        tflags.push_back((t.enabled ? 1u : 0u) | static_cast<unsigned>(r.below(8)) << 1);
        elst.push_back(r.chance(30) ? atom("edts", full("elst", 0, 0, W().be32(1).be32(t.duration).be32(0).be32(0x10000).b)) : Bytes());
        tref.push_back(r.chance(10) ? atom("tref", atom("chap", W().be32(1).b)) : Bytes());
    }
    Bytes movieForeign = opt.foreign && r.chance(25) ? foreignAtom(r) : Bytes();
    Bytes iods = r.chance(20) ? full("iods", 0, 0, r.payload(13)) : Bytes();
    Bytes udta;
    bool moovMeta = false;
    if (opt.existingTag && r.chance(60)) {
        W m;
        m.be32(0).s(hdlr("mdir", "")).s(existingIlst(r));
        if (r.chance(30))
            m.s(atom("free", Bytes(r.size(200), '\0')));
        W u;
        if (opt.foreign && r.chance(40))
            u.s(foreignAtom(r));
        u.s(atom("meta", m.b));
        if (opt.foreign && r.chance(30))
            u.s(atom("chpl", r.payload(20)));
        udta = atom("udta", u.b);
    } else if (opt.foreign && r.chance(15)) {
        udta = atom("udta", foreignAtom(r));
    }
    (void)moovMeta;
    Bytes mv = mvhd(r, g, id);
    bool mehd = r.coin();
    std::vector<unsigned> defSizes;
    for (auto &t : g.tracks) {
        bool uni = true;
        for (auto &s : t.samples)
            uni = uni && s.data.size() == t.samples[0].data.size();
        defSizes.push_back(uni && r.coin() ? static_cast<unsigned>(t.samples[0].data.size()) : 0);
    }
    Bytes trackTables;
    bool useStz2 = r.chance(15);
    const auto stz2Wish = r.below(4);
    auto makeMoov = [&](bool withSamples) {
        W moov;
        moov.s(mv).s(iods);
        for (std::size_t i = 0; i < g.tracks.size(); ++i) {
            auto &t = g.tracks[i];
            W tk;
            int n = versions[i] ? 8 : 4;
            tk.be(t.creation, n).be(t.modification, n).be32(t.id).be32(0).be(static_cast<std::uint64_t>(static_cast<double>(t.duration) / t.timescale * g.timescale), n).zero(8).be16(i).be16(t.kind == 'a' ? 1 : 0).be16(t.kind == 'a' ? 0x100 : 0).be16(0);
            tk.be32(0x10000).zero(12).be32(0x10000).zero(12).be32(0x40000000).be32(t.width << 16).be32(t.height << 16);
            W md;
            n = mversions[i] ? 8 : 4;
            md.be(t.creation + 1, n).be(t.modification + 1, n).be32(t.timescale).be(t.duration, n).be16(packLang(t.lang)).be16(0);
            W stbl;
            stbl.s(stsd[i]);
            auto ns = withSamples ? t.samples.size() : 0;
            W stts;
            stts.be32(ns);
            for (std::size_t k = 0; k < ns; ++k)
                stts.be32(1).be32(t.samples[k].duration);
            stbl.s(full("stts", 0, 0, stts.b));
            if (t.kind == 'v' && ns)
                stbl.s(full("stss", 0, 0, W().be32(1).be32(1).b));
            W stsc;
            {
                std::vector<std::pair<std::uint32_t, std::uint32_t>> runs;
                if (withSamples)
                    for (std::size_t c = 0; c < t.chunks.size(); ++c)
                        if (runs.empty() || runs.back().second != t.chunks[c])
                            runs.emplace_back(c + 1, t.chunks[c]);
                stsc.be32(runs.size());
                for (auto &x : runs)
                    stsc.be32(x.first).be32(x.second).be32(1);
            }
            stbl.s(full("stsc", 0, 0, stsc.b));
            bool uniform = ns > 0, small = ns > 0;
            for (std::size_t k = 0; k < ns; ++k) {
                uniform = uniform && t.samples[k].data.size() == t.samples[0].data.size();
                small = small && t.samples[k].data.size() < 65536;
            }
            W sz;
            if (useStz2 && small) {
                // the narrowest field able to hold the sizes, or a wider one
                std::size_t most = 0;
                for (auto &x : t.samples)
                    most = std::max(most, x.data.size());
                const auto bits = most < 16 && stz2Wish != 1 ? 4 : most < 256 && stz2Wish != 2 ? 8 : 16;
                sz.be24(0).u8(bits).be32(ns);
                for (std::size_t k = 0; k < ns; ++k)
                    if (bits == 4) {
                        sz.u8(t.samples[k].data.size() << 4 | (k + 1 < ns ? t.samples[k + 1].data.size() : 0));
                        ++k;
                    } else if (bits == 8)
                        sz.u8(t.samples[k].data.size());
                    else
                        sz.be16(t.samples[k].data.size());
                stbl.s(full("stz2", 0, 0, sz.b));
            } else {
                sz.be32(uniform ? t.samples[0].data.size() : 0).be32(ns);
                if (!uniform)
                    for (std::size_t k = 0; k < ns; ++k)
                        sz.be32(t.samples[k].data.size());
                stbl.s(full("stsz", 0, 0, sz.b));
            }
            W co;
            std::size_t nc = 0;
            for (auto &c : chunks)
                if (withSamples && c.track == i) {
                    co.be(c.off, t.co64 ? 8 : 4);
                    ++nc;
                }
            stbl.s(stblForeign[i]);
            stbl.s(full(t.co64 ? "co64" : "stco", 0, 0, W().be32(nc).s(co.b).b));
            W minf;
            if (t.kind == 'v')
                minf.s(full("vmhd", 0, 1, Bytes(8, '\0')));
            else if (t.kind == 'a')
                minf.s(full("smhd", 0, 0, Bytes(4, '\0')));
            else
                minf.s(full("nmhd", 0, 0, ""));
            minf.s(minfForeign[i]);
            minf.s(atom("dinf", full("dref", 0, 0, W().be32(1).s(full("url ", 0, 1, "")).b)));
            minf.s(atom("stbl", stbl.b));
            W mdia;
            mdia.s(full("mdhd", mversions[i], 0, md.b)).s(hdlr(t.kind == 'v' ? "vide" : t.kind == 'a' ? "soun" : "text", t.name)).s(mdiaForeign[i]).s(atom("minf", minf.b));
            W trak;
            trak.s(full("tkhd", versions[i], tflags[i], tk.b)).s(elst[i]).s(tref[i]).s(atom("mdia", mdia.b)).s(trakForeign[i]).s(udtaTrak[i]);
            moov.s(atom("trak", trak.b));
        }
        if (g.fragmented) {
            W mvex;
            if (mehd)
                mvex.s(full("mehd", 0, 0, W().be32(g.duration).b));
            for (std::size_t i = 0; i < g.tracks.size(); ++i)
                mvex.s(full("trex", 0, 0, W().be32(g.tracks[i].id).be32(1).be32(10).be32(defSizes[i]).be32(0).b));
            moov.s(atom("mvex", mvex.b));
        }
        moov.s(movieForeign).s(udta);
        return atom("moov", moov.b);
    };

    g.majorBrand = r.pick({ "isom", "mp42", "M4A ", "iso5" });
    Bytes ftyp = atom("ftyp", W().s(g.majorBrand).be32(512).s("isomiso2avc1mp41").b);
    auto freeAtom = [&](unsigned pc) { return r.chance(pc) ? atom(r.chance(80) ? "free" : "skip", Bytes(r.size(opt.big ? 3000 : 300), '\0')) : Bytes(); };
    auto foreignTop = [&](unsigned pc) { return opt.foreign && r.chance(pc) ? foreignAtom(r, 200) : Bytes(); };
    if (g.fragmented) {
        W f;
        f.s(ftyp);
        if (r.chance(20))
            f.s(freeAtom(100));
        f.s(makeMoov(false));
        f.s(freeAtom(30)).s(foreignTop(15));
        std::vector<std::size_t> next(g.tracks.size());
        std::uint32_t seq = 1;
        int mode = static_cast<int>(r.below(3)); // 0: default-base-is-moof, 1: absolute base offset = moof, 2: absolute base offset = mdat payload
        for (;;) {
            bool any = false;
            struct Part {
                std::size_t track, first, n;
            };
            std::vector<Part> parts;
            for (std::size_t i = 0; i < g.tracks.size(); ++i) {
                auto left = g.tracks[i].samples.size() - next[i];
                if (!left)
                    continue;
                any = true;
                auto n = std::min<std::uint64_t>(left, r.range(1, 8));
                parts.push_back({ i, next[i], n });
                next[i] += n;
            }
            if (!any)
                break;
            if (r.chance(10))
                f.s(foreignTop(50));
            auto moofOff = f.b.size();
            bool widem = r.chance(10);
            auto make = [&](std::uint64_t moofSize, std::uint64_t &total) {
                W moof;
                moof.s(full("mfhd", 0, 0, W().be32(seq).b));
                std::uint64_t pos = 0;
                for (auto &p : parts) {
                    auto &t = g.tracks[p.track];
                    bool def = defSizes[p.track] != 0;
                    W tfhd;
                    tfhd.be32(t.id);
                    if (mode)
                        tfhd.be64(mode == 1 ? moofOff : moofOff + moofSize + (widem ? 16 : 8));
                    W trun;
                    trun.be32(p.n);
                    trun.be32((mode == 2 ? 0 : moofSize + (widem ? 16 : 8)) + pos);
                    for (std::size_t k = 0; k < p.n; ++k) {
                        trun.be32(t.samples[p.first + k].duration);
                        if (!def)
                            trun.be32(t.samples[p.first + k].data.size());
                        pos += t.samples[p.first + k].data.size();
                    }
                    W traf;
                    traf.s(full("tfhd", 0, mode ? 1 : 0x20000, tfhd.b)).s(full("tfdt", 0, 0, W().be32(0).b)).s(full("trun", 0, 0x101u | (def ? 0u : 0x200u), trun.b));
                    moof.s(atom("traf", traf.b));
                }
                total = pos;
                return atom("moof", moof.b);
            };
            std::uint64_t total = 0;
            auto sz = make(0, total).size();
            f.s(make(sz, total));
            Bytes md;
            for (auto &p : parts)
                for (std::size_t k = 0; k < p.n; ++k)
                    md += g.tracks[p.track].samples[p.first + k].data;
            f.s(atom("mdat", md, widem));
            ++seq;
        }
        if (r.chance(20))
            f.s(foreignTop(100));
        g.file = f.b;
        g.desc = strf("mp4 fragmented mode %d, %zu tracks, %u fragments", mode, g.tracks.size(), seq - 1);
        return g;
    }
    // plain layout: sequence of pieces, moov somewhere
    bool moovFirst = r.coin();
    bool wide = r.chance(15);
    bool lastOpen = r.chance(8);
    std::vector<std::pair<char, Bytes>> pieces; // 'x' raw, 'm' moov, '0'+n mdat
    pieces.emplace_back('x', ftyp);
    if (r.chance(10))
        pieces.emplace_back('x', full("pdin", 0, 0, W().be32(1000).be32(10).b));
    pieces.emplace_back('x', foreignTop(15));
    pieces.emplace_back('x', freeAtom(20));
    if (moovFirst) {
        pieces.emplace_back('m', Bytes());
        pieces.emplace_back('x', freeAtom(50));
        pieces.emplace_back('x', foreignTop(15));
    }
    for (unsigned m = 0; m < nMdat; ++m) {
        if (m) {
            pieces.emplace_back('x', freeAtom(30));
            pieces.emplace_back('x', foreignTop(20));
        } else if (r.chance(20))
            pieces.emplace_back('x', atom("wide", ""));
        pieces.emplace_back(static_cast<char>('0' + m), Bytes());
        if (!moovFirst && nMdat > 1 && m == 0 && r.chance(25)) {
            pieces.emplace_back('m', Bytes()); // between media data atoms
            moovFirst = true;
        }
    }
    if (!moovFirst) {
        pieces.emplace_back('x', freeAtom(20));
        pieces.emplace_back('m', Bytes());
    } else if (r.chance(20))
        pieces.emplace_back('x', freeAtom(100));
    pieces.emplace_back('x', foreignTop(15));
    while (!pieces.empty() && pieces.back().first == 'x' && pieces.back().second.empty())
        pieces.pop_back();
    auto moovSize = makeMoov(true).size();
    std::uint64_t pos = 0;
    std::vector<std::uint64_t> mdatOff(nMdat);
    for (std::size_t i = 0; i < pieces.size(); ++i) {
        auto &p = pieces[i];
        if (p.first == 'x')
            pos += p.second.size();
        else if (p.first == 'm')
            pos += moovSize;
        else {
            auto m = static_cast<std::size_t>(p.first - '0');
            mdatOff[m] = pos + (wide ? 16 : 8);
            pos = mdatOff[m] + mdat[m].size();
        }
    }
    for (auto &c : chunks)
        c.off += mdatOff[c.mdat];
    W f;
    for (std::size_t i = 0; i < pieces.size(); ++i) {
        auto &p = pieces[i];
        if (p.first == 'x')
            f.s(p.second);
        else if (p.first == 'm')
            f.s(makeMoov(true));
        else {
            auto a = atom("mdat", mdat[static_cast<std::size_t>(p.first - '0')], wide);
            if (lastOpen && i + 1 == pieces.size() && !wide)
                wbe(a, 0, 0, 4);
            f.s(a);
        }
    }
    g.file = f.b;
    std::string order;
    for (auto &p : pieces)
        if (p.first != 'x' || !p.second.empty())
            order += p.first;
    g.desc = strf("mp4 plain, %zu tracks, layout %s%s%s", g.tracks.size(), order.c_str(), wide ? " 64-bit mdat" : "", lastOpen ? " open end" : "");
    return g;
}

} // namespace tp::mp4
