#include "id3fmt.h"
#include "lib.h"
#include <algorithm>
#include <zlib.h>
namespace tp::id3 {
static Bytes unsyncEncode(std::string_view d)
{
    Bytes r;
    for (std::size_t i = 0; i < d.size(); ++i) {
        r += d[i];
        if (static_cast<unsigned char>(d[i]) == 0xFF && (i + 1 == d.size() || static_cast<unsigned char>(d[i + 1]) >= 0xE0 || d[i + 1] == 0))
            r += '\0';
    }
    return r;
}
static Bytes unsyncDecode(std::string_view d)
{
    Bytes r;
    for (std::size_t i = 0; i < d.size(); ++i) {
        r += d[i];
        if (static_cast<unsigned char>(d[i]) == 0xFF && i + 1 < d.size() && d[i + 1] == 0)
            ++i;
    }
    return r;
}
static Bytes synchsafe(std::uint64_t v)
{
    Bytes r(4, '\0');
    for (int i = 0; i < 4; ++i)
        r[static_cast<std::size_t>(i)] = static_cast<char>((v >> (7 * (3 - i))) & 0x7F);
    return r;
}
static std::uint64_t readSynchsafe(std::string_view d, std::size_t off)
{
    std::uint64_t v = 0;
    for (int i = 0; i < 4; ++i) {
        auto c = static_cast<unsigned char>(d.at(off + static_cast<std::size_t>(i)));
        if (c & 0x80)
            throw Malformed("ID3v2 size is not synchsafe");
        v = v << 7 | c;
    }
    return v;
}
static Bytes deflated(std::string_view d)
{
    auto n = compressBound(d.size());
    Bytes r(n, '\0');
    compress(reinterpret_cast<Bytef *>(r.data()), &n, reinterpret_cast<const Bytef *>(d.data()), d.size());
    r.resize(n);
    return r;
}
static Bytes inflated(std::string_view d, std::size_t size)
{
    if (size > (64u << 20))
        throw Malformed("decompressed size of frame is implausible");
    Bytes r(size + 1, '\0');
    uLongf n = r.size();
    if (uncompress(reinterpret_cast<Bytef *>(r.data()), &n, reinterpret_cast<const Bytef *>(d.data()), d.size()) != Z_OK || n != size)
        throw Malformed("frame cannot be decompressed to the denoted size");
    r.resize(size);
    return r;
}
static Bytes makeFrame(const Frame &f, unsigned version)
{
    W w;
    if (version < 3) {
        w.s(f.id).be24(f.data.size()).s(f.data);
        return w.b;
    }
    Bytes body = f.compressed ? deflated(f.data) : f.data;
    W extra;
    unsigned flags = 0;
    if (version == 3) {
        flags = (f.discardTag ? 0x8000u : 0) | (f.discardFile ? 0x4000u : 0) | (f.readOnly ? 0x2000u : 0) | (f.compressed ? 0x80u : 0) | (f.encrypted ? 0x40u : 0) | (f.group ? 0x20u : 0);
        if (f.compressed)
            extra.be32(f.data.size());
        if (f.encrypted)
            extra.u8(0x81);
        if (f.group)
            extra.u8(*f.group);
    } else {
        flags = (f.discardTag ? 0x4000u : 0) | (f.discardFile ? 0x2000u : 0) | (f.readOnly ? 0x1000u : 0) | (f.group ? 0x40u : 0) | (f.compressed ? 0x8u : 0) | (f.encrypted ? 0x4u : 0) | (f.unsync ? 2u : 0) | (f.dli || f.compressed ? 1u : 0);
        if (f.group)
            extra.u8(*f.group);
        if (f.encrypted)
            extra.u8(0x81);
        if (f.dli || f.compressed)
            extra.s(synchsafe(f.data.size()));
    }
    if (version == 4 && f.unsync)
        body = unsyncEncode(body);
    body = extra.b + body;
    w.s(f.id);
    if (version == 3)
        w.be32(body.size());
    else
        w.s(synchsafe(body.size()));
    w.be16(flags).s(body);
    return w.b;
}
Bytes makeTag(const Tag &t)
{
    W b;
    if (t.extHeader && t.version == 3)
        b.be32(6).be16(0).be32(t.padding);
    else if (t.extHeader && t.version == 4)
        b.s(synchsafe(7)).u8(1).u8(0x40).u8(0);
    for (auto &f : t.frames)
        b.s(makeFrame(f, t.version));
    b.zero(t.padding);
    auto body = t.unsync && t.version < 4 ? unsyncEncode(b.b) : b.b;
    unsigned flags = (t.unsync ? 0x80u : 0) | (t.extHeader && t.version >= 3 ? 0x40u : 0) | (t.experimental && t.version >= 3 ? 0x20u : 0) | (t.footer && t.version == 4 ? 0x10u : 0);
    W w;
    w.s("ID3").u8(t.version).u8(t.revision).u8(flags).s(synchsafe(body.size())).s(body);
    if (t.footer && t.version == 4)
        w.s("3DI").u8(t.version).u8(t.revision).u8(flags).s(synchsafe(body.size()));
    return w.b;
}
Tag parseTag(std::string_view file, std::size_t off)
{
    Tag t;
    if (file.size() < off + 10 || file.substr(off, 3) != "ID3")
        throw Malformed("no ID3v2 tag");
    t.off = off;
    t.version = static_cast<unsigned char>(file[off + 3]);
    t.revision = static_cast<unsigned char>(file[off + 4]);
    unsigned flags = static_cast<unsigned char>(file[off + 5]);
    auto size = readSynchsafe(file, off + 6);
    if (t.version < 2 || t.version > 4)
        throw Malformed("ID3v2 version");
    if (flags & (t.version == 2 ? 0x7Fu : t.version == 3 ? 0x1Fu : 0x0Fu))
        throw Malformed(strf("ID3v2 flags %02x not defined", flags));
    if (size > file.size() - off - 10)
        throw Malformed("ID3v2 tag exceeds file");
    t.size = 10 + size;
    t.unsync = flags & 0x80;
    t.extHeader = flags & 0x40;
    t.experimental = flags & 0x20;
    t.footer = flags & 0x10;
    Bytes body(file.substr(off + 10, size));
    if (t.unsync && t.version < 4)
        body = unsyncDecode(body);
    std::size_t p = 0;
    if (t.extHeader) {
        auto n = t.version == 3 ? rbe(body, 0, 4) + 4 : readSynchsafe(body, 0);
        if (n > body.size())
            throw Malformed("ID3v2 extended header exceeds tag");
        p = n;
    }
    const std::size_t hs = t.version < 3 ? 6 : 10;
    while (p < body.size()) {
        if (!body[p]) {
            for (auto q = p; q < body.size(); ++q)
                if (body[q])
                    throw Malformed(strf("ID3v2 padding is not zero at tag offset %zu", q));
            t.padding = body.size() - p;
            break;
        }
        if (body.size() - p < hs)
            throw Malformed("ID3v2 frame header truncated");
        Frame f;
        std::uint64_t n;
        unsigned fl = 0;
        if (t.version < 3) {
            f.id = body.substr(p, 3);
            n = rbe(body, p + 3, 3);
        } else {
            f.id = body.substr(p, 4);
            n = t.version == 3 ? rbe(body, p + 4, 4) : readSynchsafe(body, p + 4);
            fl = static_cast<unsigned>(rbe(body, p + 8, 2));
        }
        for (auto c : f.id)
            if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')))
                throw Malformed("ID3v2 frame ID invalid");
        if (n > body.size() - p - hs)
            throw Malformed("ID3v2 frame " + f.id + " exceeds tag");
        if (!n)
            throw Malformed("ID3v2 frame " + f.id + " is empty");
        Bytes d = body.substr(p + hs, n);
        p += hs + n;
        if (fl & (t.version == 3 ? 0x1F1Fu : 0x8FB0u))
            throw Malformed(strf("ID3v2 frame flags %04x not defined for version 2.%u", fl, t.version));
        std::size_t e = 0, plain = 0;
        bool hasSize = false;
        if (t.version == 3) {
            f.discardTag = fl & 0x8000, f.discardFile = fl & 0x4000, f.readOnly = fl & 0x2000, f.compressed = fl & 0x80, f.encrypted = fl & 0x40;
            if (f.compressed)
                plain = rbe(d, e, 4), e += 4, hasSize = true;
            if (f.encrypted)
                e += 1;
            if (fl & 0x20)
                f.group = static_cast<std::uint8_t>(rbe(d, e, 1)), e += 1;
        } else if (t.version == 4) {
            f.discardTag = fl & 0x4000, f.discardFile = fl & 0x2000, f.readOnly = fl & 0x1000, f.compressed = fl & 8, f.encrypted = fl & 4, f.unsync = fl & 2, f.dli = fl & 1;
            if (f.unsync)
                d = unsyncDecode(d);
            if (fl & 0x40)
                f.group = static_cast<std::uint8_t>(rbe(d, e, 1)), e += 1;
            if (f.encrypted)
                e += 1;
            if (f.dli)
                plain = readSynchsafe(d, e), e += 4, hasSize = true;
            if (f.compressed && !f.dli)
                throw Malformed("compressed ID3v2.4 frame lacks data length indicator");
        }
        if (e > d.size())
            throw Malformed("ID3v2 frame " + f.id + " lacks data for its flags");
        d.erase(0, e);
        if (f.compressed)
            d = inflated(d, plain);
        else if (hasSize && plain != d.size())
            throw Malformed("ID3v2 data length indicator is wrong");
        f.data = d;
        t.frames.push_back(std::move(f));
    }
    if (t.footer) {
        if (file.size() < off + t.size + 10 || file.substr(off + t.size, 3) != "3DI")
            throw Malformed("ID3v2 footer missing");
        t.size += 10;
    }
    return t;
}
Bytes text(unsigned enc, std::string_view utf8, bool terminate)
{
    switch (enc) {
    case 0:
        return utf8ToLatin1(utf8) + (terminate ? Bytes(1, '\0') : Bytes());
    case 1:
        return "\xFF\xFE" + toUtf16(utf8, false) + (terminate ? Bytes(2, '\0') : Bytes());
    case 5: // big endian with BOM (written with encoding byte 1)
        return "\xFE\xFF" + toUtf16(utf8, true) + (terminate ? Bytes(2, '\0') : Bytes());
    case 2:
        return toUtf16(utf8, true) + (terminate ? Bytes(2, '\0') : Bytes());
    default:
        return Bytes(utf8) + (terminate ? Bytes(1, '\0') : Bytes());
    }
}
static Bytes utf16ToUtf8(std::string_view d, bool be)
{
    std::vector<std::uint32_t> cps;
    for (std::size_t i = 0; i + 1 < d.size(); i += 2) {
        auto u = static_cast<std::uint32_t>(be ? rbe(d, i, 2) : rle(d, i, 2));
        if (u >= 0xD800 && u < 0xDC00 && i + 3 < d.size()) {
            auto v = static_cast<std::uint32_t>(be ? rbe(d, i + 2, 2) : rle(d, i + 2, 2));
            if (v >= 0xDC00 && v < 0xE000) {
                u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00);
                i += 2;
            }
        }
        cps.push_back(u);
    }
    return fromCodePoints(cps);
}
// takes one string off `d` (up to the terminator), returned as UTF-8
static Bytes takeString(std::string_view &d, unsigned enc, bool &be)
{
    if (enc == 1 || enc == 2) {
        if (enc == 2)
            be = true;
        if (d.size() >= 2 && d.substr(0, 2) == "\xFF\xFE")
            be = false, d.remove_prefix(2);
        else if (d.size() >= 2 && d.substr(0, 2) == "\xFE\xFF")
            be = true, d.remove_prefix(2);
        std::size_t n = 0;
        while (n + 1 < d.size() && (d[n] || d[n + 1]))
            n += 2;
        auto r = utf16ToUtf8(d.substr(0, n), be);
        d.remove_prefix(std::min(d.size(), n + 2));
        return r;
    }
    auto n = std::min(d.find('\0'), d.size());
    Bytes r(d.substr(0, n));
    d.remove_prefix(std::min(d.size(), n + 1));
    if (enc == 0) {
        std::vector<std::uint32_t> cps;
        for (auto c : r)
            cps.push_back(static_cast<unsigned char>(c));
        r = fromCodePoints(cps);
    }
    return r;
}
static const std::pair<const char *, const char *> idMap[] = { { "TAL", "TALB" }, { "TP1", "TPE1" }, { "COM", "COMM" }, { "TYE", "TYER" }, { "TOR", "TORY" }, { "TMT", "TMED" }, { "TRD", "TRDA" }, { "TDA", "TDAT" }, { "TIM", "TIME" },
    { "TCO", "TCON" }, { "TRK", "TRCK" }, { "TPA", "TPOS" }, { "TEN", "TENC" }, { "TBP", "TBPM" }, { "PIC", "APIC" }, { "TXT", "TEXT" }, { "TLE", "TLEN" }, { "TLA", "TLAN" }, { "TSS", "TSSE" }, { "ULT", "USLT" }, { "SLT", "SYLT" },
    { "TP2", "TPE2" }, { "TT1", "TIT1" }, { "TT2", "TIT2" }, { "TT3", "TIT3" }, { "TPB", "TPUB" }, { "UFI", "UFID" }, { "TCM", "TCOM" }, { "CNT", "PCNT" }, { "POP", "POPM" }, { "TP4", "TPE4" }, { "TCR", "TCOP" }, { "TRC", "TSRC" },
    { "TKE", "TKEY" }, { "TXX", "TXXX" }, { "WCM", "WCOM" }, { "WCP", "WCOP" }, { "WAF", "WOAF" }, { "WAS", "WOAS" }, { "WPB", "WPUB" }, { "WAR", "WOAR" }, { "WXX", "WXXX" } };
Bytes longId(const Bytes &id)
{
    for (auto &[s, l] : idMap)
        if (id == s)
            return l;
    return id;
}
static Bytes stripZeros(const Bytes &s)
{
    std::size_t i = 0;
    while (i + 1 < s.size() && s[i] == '0')
        ++i;
    return s.substr(i);
}
static bool digits(const Bytes &s)
{
    return !s.empty() && s.find_first_not_of("0123456789") == Bytes::npos;
}
Bytes canonFrame(const Frame &f, unsigned version)
{
    auto id = version < 3 ? longId(f.id) : f.id;
    std::string_view d = f.data;
    auto isText = id[0] == 'T' && id != "TXXX";
    bool be = false;
    if (isText) {
        unsigned enc = static_cast<unsigned char>(d[0]);
        d.remove_prefix(1);
        Bytes r;
        while (!d.empty()) {
            auto s = takeString(d, enc, be);
            if (s.empty())
                continue;
            if (id == "TCON") {
                auto t = s;
                if (t.size() > 2 && t.front() == '(' && t.back() == ')')
                    t = t.substr(1, t.size() - 2);
                if (digits(t))
                    s = "#" + stripZeros(t);
            } else if (id == "TRCK" || id == "TPOS") {
                auto slash = s.find('/');
                auto a = s.substr(0, slash), b = slash == Bytes::npos ? Bytes() : s.substr(slash + 1);
                if ((a.empty() || digits(a)) && (b.empty() || digits(b))) { // zero means not set
                    s = (a.empty() || stripZeros(a) == "0" ? Bytes() : stripZeros(a)) + (b.empty() || stripZeros(b) == "0" ? Bytes() : "/" + stripZeros(b));
                    if (s.empty())
                        continue;
                }
            } else if (id == "TLEN" && digits(s))
                s = stripZeros(s);
            r += "[" + s + "]";
        }
        return r;
    }
    if (id[0] == 'W' && id != "WXXX")
        return "[" + takeString(d, 0, be) + "]";
    if (id == "COMM" || id == "USLT") {
        if (d.size() < 4)
            return "?" + Bytes(d);
        unsigned enc = static_cast<unsigned char>(d[0]);
        Bytes lang(d.substr(1, 3));
        if (!lang[0] || lang == "und" || lang == "XXX")
            lang.clear(); // undefined
        d.remove_prefix(4);
        auto desc = takeString(d, enc, be);
        return "(" + lang + ")(" + desc + ")[" + takeString(d, enc, be) + "]";
    }
    if (id == "APIC") {
        unsigned enc = static_cast<unsigned char>(d[0]);
        d.remove_prefix(1);
        Bytes mime;
        if (version < 3) {
            Bytes fmt(d.substr(0, 3));
            d.remove_prefix(3);
            mime = fmt == "JPG" ? "image/jpeg" : fmt == "PNG" ? "image/png" : fmt == "GIF" ? "image/gif" : fmt;
        } else
            mime = takeString(d, 0, be);
        if (d.empty())
            return "?";
        auto type = static_cast<unsigned char>(d[0]);
        d.remove_prefix(1);
        auto desc = takeString(d, enc, be);
        return "(" + mime + strf(")(%u)(", type) + desc + ")[" + Bytes(d) + "]";
    }
    if (id == "PCNT") {
        std::uint64_t v = 0;
        for (auto c : d)
            v = v << 8 | static_cast<unsigned char>(c);
        return strf("%llu", (unsigned long long)v);
    }
    if (id == "POPM") {
        auto user = takeString(d, 9, be);
        if (d.empty())
            return "?";
        auto rating = static_cast<unsigned char>(d[0]);
        std::uint64_t v = 0;
        for (auto c : d.substr(1))
            v = v << 8 | static_cast<unsigned char>(c);
        return user + strf("|%u|%llu", rating, (unsigned long long)v);
    }
    return "<" + Bytes(d) + ">";
}
std::vector<std::pair<Bytes, Bytes>> canonTag(const Tag &t)
{
    std::vector<std::pair<Bytes, Bytes>> r;
    for (auto &f : t.frames) {
        auto id = t.version < 3 ? longId(f.id) : f.id;
        auto c = canonFrame(f, t.version);
        if (c.empty() || c == "[]")
            continue;
        // flags which are part of a frame's meaning
        if (t.version >= 3) {
            if (f.discardTag) c += " {discard-tag}";
            if (f.discardFile) c += " {discard-file}";
            if (f.readOnly) c += " {read-only}";
            if (f.group) c += strf(" {group %u}", *f.group);
            if (f.encrypted) c += " {encrypted}";
        }
        r.emplace_back(id, c);
    }
    std::stable_sort(r.begin(), r.end(), [](auto &a, auto &b) { return a.first < b.first; });
    return r;
}
// --- ID3v1
Bytes makeV1(const V1 &t)
{
    Bytes r = "TAG";
    auto put = [&](const Bytes &s, std::size_t n) {
        auto x = s.substr(0, n);
        x.resize(n, '\0');
        r += x;
    };
    put(t.title, 30);
    put(t.artist, 30);
    put(t.album, 30);
    put(t.year, 4);
    if (t.v11) {
        put(t.comment, 28);
        r += '\0';
        r += static_cast<char>(t.track);
    } else
        put(t.comment, 30);
    r += static_cast<char>(t.genre);
    return r;
}
V1 parseV1(std::string_view d)
{
    if (d.size() != 128 || d.substr(0, 3) != "TAG")
        throw Malformed("no ID3v1 tag");
    V1 t;
    auto get = [&](std::size_t off, std::size_t n) {
        Bytes s(d.substr(off, n));
        while (!s.empty() && (s.back() == '\0' || s.back() == ' '))
            s.pop_back();
        return s;
    };
    t.title = get(3, 30);
    t.artist = get(33, 30);
    t.album = get(63, 30);
    t.year = get(93, 4);
    t.v11 = !d[125];
    t.comment = get(97, t.v11 ? 28 : 30);
    t.track = t.v11 ? static_cast<unsigned char>(d[126]) : 0;
    t.genre = static_cast<unsigned char>(d[127]);
    return t;
}
Bytes makeApe(Rng &r, bool header)
{
    W items;
    auto n = r.below(4);
    for (unsigned i = 0; i < n; ++i) {
        auto v = r.payload(r.below(60));
        items.le32(v.size()).le32(0).s(strf("Key%u", i)).u8(0).s(v);
    }
    if (items.b.size() + (header ? 64 : 32) == 131)
        items.s("x"); // "TAG" within "APETAGEX" must not be mistaken for an ID3v1 tag
    auto head = [&](bool isHeader) {
        W w;
        w.s("APETAGEX").le32(2000).le32(items.b.size() + 32).le32(n).le32((header ? 0x80000000u : 0) | (isHeader ? 0x20000000u : 0)).zero(8);
        return w.b;
    };
    return (header ? head(true) : Bytes()) + items.b + head(false);
}
// --- random content
static Bytes shortIdOf(const Bytes &id)
{
    for (auto &[s, l] : idMap)
        if (id == l)
            return s;
    return {};
}
Tag randomTag(Rng &r, const TOptions &o)
{
    Tag t;
    t.version = o.version ? o.version : static_cast<unsigned>(r.range(2, 4));
    t.experimental = t.version >= 3 && o.fancy && r.chance(5);
    t.extHeader = t.version >= 3 && o.fancy && r.chance(15);
    t.unsync = t.version < 4 && o.fancy && r.chance(20);
    t.footer = false;
    t.padding = r.chance(60) ? r.size(600) : 0;
    auto v22 = t.version < 3;
    auto encFor = [&](std::string_view utf8) {
        for (;;) {
            unsigned e = t.version == 4 ? r.pick({ 0u, 1u, 2u, 3u, 3u, 5u }) : r.pick({ 0u, 1u, 5u });
            if (e == 0 && !isLatin1(utf8))
                continue;
            return e;
        }
    };
    auto encByte = [](unsigned e) { return static_cast<char>(e == 5 ? 1 : e); };
    std::set<Bytes> used;
    auto add = [&](const Bytes &longName, Bytes data, bool repeatable) {
        auto id = v22 ? shortIdOf(longName) : longName;
        if (id.empty() || data.empty() || (!repeatable && !used.insert(id).second))
            return;
        Frame f;
        f.id = id;
        f.data = std::move(data);
        if (!v22 && o.fancy) {
            f.discardTag = r.chance(4), f.discardFile = r.chance(4), f.readOnly = r.chance(4);
            f.compressed = r.chance(10);
            if (r.chance(8))
                f.group = static_cast<std::uint8_t>(r.below(255));
            if (t.version == 4) {
                f.unsync = r.chance(15);
                f.dli = r.chance(15) || f.compressed;
            }
        }
        t.frames.push_back(std::move(f));
    };
    auto n = r.below(o.maxFrames + 1);
    static const char *textIds[] = { "TIT2", "TPE1", "TALB", "TIT1", "TIT3", "TCOM", "TEXT", "TENC", "TPUB", "TPE2", "TPE4", "TCOP", "TSRC", "TKEY", "TLAN", "TSSE", "TMED", "TOWN", "TOFN", "TBPM", "TFLT", "TPE3" };
    for (unsigned i = 0; i < n; ++i) {
        switch (r.below(12)) {
        case 0: case 1: case 2: case 3: {
            Bytes id = r.pick(textIds);
            unsigned k = o.multi && t.version == 4 && r.chance(25) ? static_cast<unsigned>(r.range(2, 4)) : 1;
            std::vector<Bytes> strings;
            Bytes all;
            for (unsigned j = 0; j < k; ++j) {
                auto s = randomText(r, o.maxText);
                if (s.empty())
                    s = "x";
                strings.push_back(s);
                all += s;
            }
            auto e = encFor(all);
            Bytes d(1, encByte(e));
            auto term = r.coin();
            for (unsigned j = 0; j < k; ++j)
                d += text(e, strings[j], j + 1 < k || term);
            add(id, d, false);
            break;
        }
        case 4: {
            Bytes s = r.pick({ "TRCK", "TPOS" }), v = strf("%u", (unsigned)r.range(0, 300));
            if (r.coin())
                v += strf("/%u", (unsigned)r.range(1, 300));
            auto e = encFor(v);
            add(s, Bytes(1, encByte(e)) + text(e, v, r.coin()), false);
            break;
        }
        case 5: {
            Bytes v = r.pick({ 0, 1, 2 }) == 0 ? strf("(%u)", (unsigned)r.below(192)) : r.coin() ? strf("%u", (unsigned)r.below(192)) : Bytes("Genre X");
            auto e = encFor(v);
            add("TCON", Bytes(1, encByte(e)) + text(e, v, r.coin()), false);
            break;
        }
        case 6:
            if (o.dates) {
                if (t.version == 4) {
                    Bytes v = strf("%04u-%02u-%02u", (unsigned)r.range(1900, 2100), (unsigned)r.range(1, 12), (unsigned)r.range(1, 28));
                    if (r.coin())
                        v += strf("T%02u:%02u:%02u", (unsigned)r.below(24), (unsigned)r.below(60), (unsigned)r.below(60));
                    else if (r.coin())
                        v.resize(r.pick({ 4u, 7u }));
                    add(r.pick({ "TDRC", "TDRL", "TDTG", "TDEN" }), Bytes(1, '\3') + v, false);
                } else {
                    add("TYER", Bytes(1, '\0') + strf("%04u", (unsigned)r.range(1900, 2100)), false);
                    if (r.coin()) {
                        add("TDAT", Bytes(1, '\0') + strf("%02u%02u", (unsigned)r.range(1, 28), (unsigned)r.range(1, 12)), false);
                        if (r.coin())
                            add("TIME", Bytes(1, '\0') + strf("%02u%02u", (unsigned)r.below(24), (unsigned)r.below(60)), false);
                    }
                }
            }
            break;
        case 7: {
            auto id = r.pick({ "COMM", "USLT" });
            auto desc = r.coin() ? Bytes() : randomText(r, 40), s = randomText(r, o.maxText * 2);
            if (s.empty())
                s = "c";
            auto e = encFor(desc + s);
            Bytes lang = r.pick({ "eng", "deu", "fra", "jpn", "und", "xyz" });
            if (r.chance(15))
                lang = Bytes(3, '\0');
            auto repeat = r.chance(40);
            add(id, Bytes(1, encByte(e)) + lang + text(e, desc, true) + text(e, s, r.chance(30)), repeat);
            break;
        }
        case 8:
            if (o.pictures) {
                auto desc = r.coin() ? Bytes() : randomText(r, 30);
                auto e = encFor(desc);
                Bytes d(1, encByte(e));
                if (v22)
                    d += r.pick({ "JPG", "PNG" });
                else
                    d += r.pick({ "image/jpeg", "image/png", "image/gif", "-->" }) + Bytes(1, '\0');
                d += static_cast<char>(r.below(21));
                d += text(e, desc, true);
                d += r.bytes(1 + r.size(1500));
                add("APIC", d, r.chance(60));
            }
            break;
        case 9:
            if (r.coin())
                add("PCNT", r.coin() ? W().be32(r.next() & 0xffffffff).b : W().be(r.next() & 0xffffffffffff, 6).b, false);
            else
                add("POPM", "user" + strf("%u", (unsigned)r.below(9)) + Bytes(1, '\0') + static_cast<char>(r.next()) + W().be32(r.next() & 0xffffff).b, r.coin());
            break;
        case 10:
            if (o.unknown) {
                if (v22) {
                    Frame f;
                    f.id = r.pick({ "CRA", "ETC", "RVA", "UFI", "GEO", "XYZ", "MCI" });
                    f.data = r.bytes(1 + r.size(200));
                    t.frames.push_back(f);
                } else if (r.coin())
                    add(r.pick({ "PRIV", "GEOB", "UFID", "XABC", "MCDI", "ETCO", "CHAP" }), r.bytes(1 + r.size(300)), true);
                else
                    add("TXXX", Bytes(1, '\0') + "desc" + strf("%u", (unsigned)r.below(99)) + Bytes(1, '\0') + randomText(r, 50, 0), true);
            }
            break;
        default:
            if (r.coin())
                add(r.pick({ "WOAR", "WPUB", "WCOM", "WOAF", "WCOP" }), "http://example.org/" + randomText(r, 20, 0) + (r.coin() ? Bytes(1, '\0') : Bytes()), false);
            else
                add("TLEN", Bytes(1, '\0') + strf("%u", (unsigned)r.below(10000000)), false);
        }
    }
    // a compressed frame of version 2.4 counts as modified data with its real size
    t.footer = t.version == 4 && o.fancy && !t.padding && r.chance(20);
    return t;
}
V1 randomV1(Rng &r)
{
    V1 t;
    auto s = [&](std::size_t n) {
        Bytes x;
        auto len = r.chance(20) ? n : r.below(n + 1);
        for (std::size_t i = 0; i < len; ++i)
            x += static_cast<char>(r.chance(10) ? r.range(0xA1, 0xFF) : r.range(0x21, 0x7e));
        if (x.substr(0, 3) == "\xEF\xBB\xBF")
            x[0] = 'x';
        return x;
    };
    t.title = s(30), t.artist = s(30), t.album = s(30);
    t.year = r.chance(20) ? Bytes() : strf("%u", (unsigned)r.range(1900, 2100));
    t.v11 = r.chance(75);
    t.comment = s(t.v11 ? 28 : 30);
    t.track = t.v11 ? static_cast<unsigned>(r.below(256)) : 0;
    if (!t.v11 && t.comment.size() < 29)
        t.v11 = true;
    t.genre = static_cast<unsigned>(r.below(256));
    return t;
}
} // namespace tp::id3
