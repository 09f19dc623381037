#include "vorbisfmt.h"
#include "lib.h"
#include <algorithm>
namespace tp::vorbis {
Bytes makePicture(const Picture &p)
{
    W w;
    w.be32(p.type).be32(p.mime.size()).s(p.mime).be32(p.desc.size()).s(p.desc).be32(p.width).be32(p.height).be32(p.depth).be32(p.colors).be32(p.data.size()).s(p.data);
    return w.b;
}
Picture parsePicture(std::string_view d)
{
    Picture p;
    std::size_t o = 0;
    auto u = [&] {
        if (o + 4 > d.size())
            throw Malformed("picture truncated");
        o += 4;
        return static_cast<std::uint32_t>(rbe(d, o - 4, 4));
    };
    auto s = [&] {
        auto n = u();
        if (n > d.size() - o)
            throw Malformed("picture string exceeds block");
        o += n;
        return Bytes(d.substr(o - n, n));
    };
    p.type = u();
    p.mime = s();
    p.desc = s();
    p.width = u();
    p.height = u();
    p.depth = u();
    p.colors = u();
    p.data = s();
    if (o != d.size())
        throw Malformed(strf("picture followed by %zu bytes", d.size() - o));
    return p;
}
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
Bytes base64(std::string_view d)
{
    Bytes r;
    for (std::size_t i = 0; i < d.size(); i += 3) {
        std::uint32_t v = 0;
        int n = 0;
        for (; n < 3 && i + static_cast<std::size_t>(n) < d.size(); ++n)
            v |= static_cast<std::uint32_t>(static_cast<unsigned char>(d[i + static_cast<std::size_t>(n)])) << (16 - 8 * n);
        r += b64[v >> 18];
        r += b64[(v >> 12) & 63];
        r += n > 1 ? b64[(v >> 6) & 63] : '=';
        r += n > 2 ? b64[v & 63] : '=';
    }
    return r;
}
Bytes unbase64(std::string_view d)
{
    if (d.size() % 4)
        throw Malformed("base64 size");
    Bytes r;
    for (std::size_t i = 0; i < d.size(); i += 4) {
        std::uint32_t v = 0;
        int pad = 0;
        for (int k = 0; k < 4; ++k) {
            auto c = d[i + static_cast<std::size_t>(k)];
            if (c == '=' && i + 4 == d.size() && k >= 2) {
                ++pad;
                v <<= 6;
                continue;
            }
            auto *p = c ? std::strchr(b64, c) : nullptr;
            if (!p || pad)
                throw Malformed("base64 character");
            v = (v << 6) | static_cast<std::uint32_t>(p - b64);
        }
        r += static_cast<char>(v >> 16);
        if (pad < 2)
            r += static_cast<char>(v >> 8);
        if (pad < 1)
            r += static_cast<char>(v);
    }
    return r;
}
Bytes Comment::text() const
{
    Bytes t = "vendor=" + quote(vendor) + "\n";
    for (auto &f : fields)
        t += f.first + "=" + quote(f.second, 80) + "\n";
    return t;
}
Bytes makeComment(const Comment &c, bool framing)
{
    W w;
    w.le32(c.vendor.size()).s(c.vendor).le32(c.fields.size());
    for (auto &f : c.fields)
        w.le32(f.first.size() + 1 + f.second.size()).s(f.first).s("=").s(f.second);
    if (framing)
        w.u8(1);
    w.s(c.rest);
    return w.b;
}
Comment parseComment(std::string_view d, bool framing)
{
    Comment c;
    std::size_t o = 0;
    auto u = [&] {
        if (o + 4 > d.size())
            throw Malformed("vorbis comment truncated");
        o += 4;
        return static_cast<std::uint32_t>(rle(d, o - 4, 4));
    };
    auto s = [&] {
        auto n = u();
        if (n > d.size() - o)
            throw Malformed("vorbis comment entry exceeds the comment");
        o += n;
        return Bytes(d.substr(o - n, n));
    };
    c.vendor = s();
    auto n = u();
    for (std::uint32_t i = 0; i < n; ++i) {
        auto e = s();
        auto p = e.find('=');
        if (p == Bytes::npos)
            throw Malformed("vorbis comment entry without =");
        c.fields.emplace_back(e.substr(0, p), e.substr(p + 1));
    }
    if (framing) {
        if (o >= d.size() || !(d[o] & 1))
            throw Malformed("vorbis comment without framing bit");
        ++o;
    }
    c.rest = Bytes(d.substr(o));
    return c;
}
Picture randomPicture(Rng &r, std::size_t maxSize)
{
    Picture p;
    p.type = r.chance(50) ? 3 : static_cast<std::uint32_t>(r.below(21));
    p.mime = r.pick({ "image/png", "image/jpeg", "image/gif", "image/bmp" });
    if (r.chance(60))
        p.desc = randomText(r, 30);
    if (r.coin()) {
        p.width = static_cast<std::uint32_t>(r.below(5000));
        p.height = static_cast<std::uint32_t>(r.below(5000));
        p.depth = r.pick({ 8u, 24u, 32u });
        p.colors = r.chance(20) ? 256 : 0;
    }
    p.data = r.bytes(1 + r.size(maxSize));
    return p;
}
Bytes upper(Bytes s)
{
    for (auto &c : s)
        if (c >= 'a' && c <= 'z')
            c = static_cast<char>(c - 32);
    return s;
}
Comment randomComment(Rng &r, const COptions &o)
{
    static const char *const names[] = { "TITLE", "ALBUM", "ARTIST", "COMMENT", "GENRE", "COMPOSER", "ENCODER", "DESCRIPTION", "LYRICS", "ALBUMARTIST", "COPYRIGHT", "ISRC", "PERFORMER", "CONDUCTOR", "LICENSE", "LABEL", "PUBLISHER",
        "BPM", "LANGUAGE", "REPLAYGAIN_TRACK_GAIN", "MY FIELD", "MUSICBRAINZ_TRACKID", "R128_TRACK_GAIN", "X}Y~", "WEBSITE" };
    Comment c;
    c.vendor = r.chance(85) ? Bytes(r.pick({ "Xiph.Org libVorbis I 20200704", "libopus 1.3.1", "reference libFLAC 1.3.3 20190804", "Lavf58.29.100", "x" })) : randomText(r, 40);
    for (auto n = r.below(o.maxFields + 1); n; --n) {
        Bytes name = r.pick(names);
        if (o.weird && r.chance(15))
            for (auto &ch : name)
                if (ch >= 'A' && ch <= 'Z' && r.coin())
                    ch = static_cast<char>(ch + 32);
        Bytes v = randomText(r, 1 + r.size(o.maxValue));
        if (v.empty())
            v = "v";
        if (o.weird && r.chance(10))
            v += "=" + randomText(r, 5);
        c.fields.emplace_back(name, v);
        if (o.weird && r.chance(20))
            c.fields.emplace_back(upper(name), randomText(r, 10) + "2");
    }
    auto add = [&](const char *n, Bytes v) { c.fields.emplace_back(n, std::move(v)); };
    if (r.chance(30))
        add("DATE", r.pick({ "2004", "1999-12-31", "2010-02" }));
    if (r.chance(30))
        add("TRACKNUMBER", r.pick({ "3", "7/12", "1", "120/130" }));
    if (r.chance(20))
        add("DISCNUMBER", r.pick({ "1/2", "2" }));
    if (o.weird && r.chance(15))
        add("RATING", std::to_string(r.range(1, 100)));
    if (o.pictures)
        for (auto n = r.chance(35) ? 1 + r.below(3) : 0; n; --n)
            add("METADATA_BLOCK_PICTURE", base64(makePicture(randomPicture(r))));
    std::size_t i = c.fields.size();
    while (i > 1) {
        auto j = r.below(i--);
        std::swap(c.fields[i], c.fields[j]);
    }
    return c;
}
std::vector<std::pair<Bytes, std::vector<Bytes>>> grouped(const Comment &c)
{
    std::map<Bytes, std::vector<Bytes>> m;
    for (auto &f : c.fields)
        m[upper(f.first)].push_back(f.second);
    return { m.begin(), m.end() };
}
} // namespace tp::vorbis
