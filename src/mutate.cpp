#include "mutate.h"
#include <algorithm>
namespace tp {
namespace {
std::uint64_t be(std::string_view s, std::size_t o, std::size_t n)
{
    std::uint64_t v = 0;
    for (std::size_t i = 0; i < n; ++i)
        v = v << 8 | (o + i < s.size() ? static_cast<std::uint8_t>(s[o + i]) : 0);
    return v;
}
std::uint64_t le(std::string_view s, std::size_t o, std::size_t n)
{
    std::uint64_t v = 0;
    for (std::size_t i = n; i; --i)
        v = v << 8 | (o + i - 1 < s.size() ? static_cast<std::uint8_t>(s[o + i - 1]) : 0);
    return v;
}
bool mp4Container(std::string_view t)
{
    static const std::set<std::string_view> c = { "moov", "trak", "mdia", "minf", "stbl", "udta", "ilst", "moof", "traf", "mvex", "edts", "dinf", "stsd", "dref", "mp4a", "mp4v", "avc1", "av01", "wave", "----", "meta", "esds" };
    return c.count(t) || t.front() == '\xa9' || t == "covr" || t == "trkn" || t == "disk";
}
void walkMp4(std::string_view f, std::size_t o, std::size_t end, std::size_t depth, std::vector<Node> &out)
{
    for (unsigned n = 0; o + 8 <= end && n < 2000 && out.size() < 5000; ++n) {
        Node x;
        x.off = x.sizeOff = o;
        x.sizeLen = 4;
        x.hdr = 8;
        x.depth = depth;
        auto size = be(f, o, 4);
        if (size == 1) {
            size = be(f, o + 8, 8);
            x.hdr = 16;
            x.sizeOff = o + 8;
            x.sizeLen = 8;
        } else if (!size)
            size = end - o;
        if (size < 8 || size > end - o)
            break;
        x.end = o + size;
        out.push_back(x);
        auto t = f.substr(o + 4, 4);
        if (depth < 12 && mp4Container(t)) {
            std::size_t skip = t == "meta" || t == "esds" ? 4 : t == "stsd" || t == "dref" ? 8 : t == "mp4a" ? 28 : t == "mp4v" || t == "avc1" || t == "av01" ? 78 : 0;
            walkMp4(f, o + x.hdr + skip, x.end, depth + 1, out);
        }
        o = x.end;
    }
}
bool ebmlMaster(std::uint64_t id)
{
    static const std::set<std::uint64_t> c = { 0x1A45DFA3, 0x18538067, 0x114D9B74, 0x4DBB, 0x1549A966, 0x1F43B675, 0xA0, 0x75A1, 0xA6, 0x1654AE6B, 0xAE, 0xE0, 0xE1, 0x6D80, 0x6240, 0x5034, 0x5035, 0x1C53BB6B, 0xBB, 0xB7, 0xDB, 0x1941A469, 0x61A7, 0x1043A770, 0x45B9, 0xB6, 0x80, 0x8F, 0x6944, 0x1254C367, 0x7373, 0x63C0, 0x67C8, 0x55B0, 0x55D0 };
    return c.count(id);
}
void walkEbml(std::string_view f, std::size_t o, std::size_t end, std::size_t depth, std::vector<Node> &out)
{
    for (unsigned n = 0; o + 2 <= end && n < 3000 && out.size() < 6000; ++n) {
        auto b = static_cast<std::uint8_t>(f[o]);
        std::size_t il = b & 0x80 ? 1 : b & 0x40 ? 2 : b & 0x20 ? 3 : b & 0x10 ? 4 : 0;
        if (!il || o + il >= end)
            break;
        auto id = be(f, o, il);
        auto sb = static_cast<std::uint8_t>(f[o + il]);
        std::size_t sl = 1;
        while (sl < 9 && !(sb & (0x80 >> (sl - 1))))
            ++sl;
        if (sl > 8 || o + il + sl > end)
            break;
        auto mask = (std::uint64_t(1) << (7 * sl)) - 1, size = be(f, o + il, sl) & mask;
        Node x;
        x.off = o;
        x.hdr = il + sl;
        x.depth = depth;
        x.sizeOff = o + il;
        x.sizeLen = sl;
        x.ebml = true;
        x.bias = x.hdr;
        x.end = size == mask || size > end - o - x.hdr ? end : o + x.hdr + size;
        out.push_back(x);
        if (depth < 12 && ebmlMaster(id))
            walkEbml(f, o + x.hdr, x.end, depth + 1, out);
        o = x.end;
    }
}
void walkOgg(std::string_view f, std::vector<Node> &out)
{
    for (std::size_t o = 0; out.size() < 5000 && (o = f.find("OggS", o)) != std::string_view::npos && o + 27 <= f.size();) {
        Node x;
        x.off = o;
        auto n = static_cast<std::uint8_t>(f[o + 26]);
        x.hdr = 27 + n;
        std::size_t s = 0;
        for (unsigned i = 0; i < n && o + 27 + i < f.size(); ++i)
            s += static_cast<std::uint8_t>(f[o + 27 + i]);
        x.end = std::min(f.size(), o + x.hdr + s);
        x.sizeOff = o + 26;
        x.sizeLen = 1;
        out.push_back(x);
        o = std::max(x.end, o + 1);
    }
}
void walkRaw(std::string_view f, std::vector<Node> &out)
{
    std::size_t o = 0;
    while (f.substr(o, 3) == "ID3" && o + 10 <= f.size()) {
        auto v = static_cast<std::uint8_t>(f[o + 3]);
        auto ss = [&](std::size_t p) { return (f[p] & 127) << 21 | (f[p + 1] & 127) << 14 | (f[p + 2] & 127) << 7 | (f[p + 3] & 127); };
        Node x;
        x.off = o;
        x.hdr = x.bias = 10;
        x.sizeOff = o + 6;
        x.sizeLen = 4;
        x.syncsafe = true;
        x.end = std::min(f.size(), o + 10 + static_cast<std::size_t>(ss(o + 6)));
        out.push_back(x);
        auto p = o + 10;
        std::size_t fh = v < 3 ? 6 : 10;
        while (p + fh <= x.end && f[p]) {
            Node y;
            y.off = p;
            y.hdr = y.bias = fh;
            y.depth = 1;
            y.sizeOff = v < 3 ? p + 3 : p + 4;
            y.sizeLen = v < 3 ? 3 : 4;
            y.syncsafe = v == 4;
            auto s = v == 4 ? static_cast<std::uint64_t>(ss(p + 4)) : be(f, y.sizeOff, y.sizeLen);
            if (s > x.end - p - fh)
                break;
            y.end = p + fh + s;
            out.push_back(y);
            p = y.end;
        }
        o = x.end;
        if (o == x.off)
            break;
    }
    if (auto q = f.find("fLaC", o); q != std::string_view::npos && q < o + 4096) {
        auto p = q + 4;
        for (unsigned n = 0; p + 4 <= f.size() && n < 200; ++n) {
            Node y;
            y.off = p;
            y.hdr = y.bias = 4;
            y.depth = 1;
            y.sizeOff = p + 1;
            y.sizeLen = 3;
            y.end = p + 4 + be(f, p + 1, 3);
            if (y.end > f.size())
                break;
            out.push_back(y);
            if (f[p] & 0x80)
                break;
            p = y.end;
        }
    } else if (o + 12 < f.size() && f.substr(o, 4) == "RIFF") {
        auto p = o + 12;
        for (unsigned n = 0; p + 8 <= f.size() && n < 200; ++n) {
            Node y;
            y.off = p;
            y.hdr = y.bias = 8;
            y.depth = 1;
            y.sizeOff = p + 4;
            y.sizeLen = 4;
            y.le = true;
            y.end = std::min<std::size_t>(f.size(), p + 8 + le(f, p + 4, 4));
            out.push_back(y);
            p = y.end;
        }
    } else if (o + 16 <= f.size()) {
        Node y;
        y.off = o;
        y.hdr = 4;
        y.end = std::min(f.size(), o + 64);
        out.push_back(y);
    }
    if (f.size() >= 128 && f.substr(f.size() - 128, 3) == "TAG") {
        Node y;
        y.off = f.size() - 128;
        y.hdr = 3;
        y.end = f.size();
        out.push_back(y);
    }
}
void put(Bytes &f, std::size_t o, std::size_t n, std::uint64_t v, bool little)
{
    for (std::size_t i = 0; i < n && o + i < f.size(); ++i)
        f[o + i] = static_cast<char>(v >> 8 * (little ? i : n - 1 - i));
}
std::uint64_t interesting(Rng &r, std::size_t n, std::uint64_t old, std::size_t fileSize)
{
    auto top = n >= 8 ? ~std::uint64_t(0) : (std::uint64_t(1) << 8 * n) - 1;
    switch (r.below(12)) {
    case 0: return 0;
    case 1: return r.below(17);
    case 2: return top - r.below(17);
    case 3: return (top >> 1) + r.below(5) - 2;
    case 4: return old + r.below(33) - 16;
    case 5: return old ^ (std::uint64_t(1) << r.below(8 * n));
    case 6: return fileSize + r.below(33) - 16;
    case 7: return std::uint64_t(1) << r.below(8 * n);
    case 8: return r.next();
    case 9: return old * r.range(2, 9);
    case 10: return r.below(256);
    default: return r.below(70000);
    }
}
void setSize(Bytes &f, const Node &n, std::uint64_t v)
{
    if (n.ebml) {
        put(f, n.sizeOff, n.sizeLen, v | std::uint64_t(1) << (7 * n.sizeLen), false);
    } else if (n.syncsafe) {
        for (std::size_t i = 0; i < 4; ++i)
            if (n.sizeOff + i < f.size())
                f[n.sizeOff + i] = static_cast<char>(v >> (21 - 7 * i) & 127);
    } else
        put(f, n.sizeOff, n.sizeLen, v, n.le);
}
std::uint32_t oggCrc(std::string_view d)
{
    std::uint32_t c = 0;
    for (auto ch : d) {
        c ^= static_cast<std::uint32_t>(static_cast<std::uint8_t>(ch)) << 24;
        for (int i = 0; i < 8; ++i)
            c = c & 0x80000000u ? c << 1 ^ 0x04C11DB7u : c << 1;
    }
    return c;
}
}
std::vector<Node> nodesOf(std::string_view f)
{
    std::vector<Node> out;
    if (f.size() < 16)
        return out;
    if (f.substr(4, 4) == "ftyp" || f.substr(4, 4) == "moov" || f.substr(4, 4) == "mdat" || f.substr(4, 4) == "free" || f.substr(4, 4) == "wide")
        walkMp4(f, 0, f.size(), 0, out);
    else if (be(f, 0, 4) == 0x1A45DFA3)
        walkEbml(f, 0, f.size(), 0, out);
    else if (f.substr(0, 4) == "OggS")
        walkOgg(f, out);
    else
        walkRaw(f, out);
    return out;
}
std::string mutate(Rng &r, Bytes &f, unsigned max)
{
    std::string d;
    auto n = r.range(1, max);
    for (unsigned i = 0; i < n && !f.empty(); ++i) {
        auto nodes = nodesOf(f);
        auto blind = nodes.empty() || r.chance(20);
        if (blind) {
            auto o = r.below(f.size());
            switch (r.below(7)) {
            case 0:
                f.resize(o);
                d += strf("truncate@%zu ", o);
                break;
            case 1:
                f[o] = static_cast<char>(r.next());
                d += strf("byte@%zu ", o);
                break;
            case 2:
                f.insert(o, r.chance(50) ? Bytes(r.size(300), '\0') : r.bytes(r.size(300)));
                d += strf("insert@%zu ", o);
                break;
            case 3:
                f.erase(o, r.size(300));
                d += strf("erase@%zu ", o);
                break;
            case 4: {
                auto w = std::size_t(1) << r.below(4);
                put(f, o, w, interesting(r, w, be(f, o, w), f.size()), r.coin());
                d += strf("value@%zu ", o);
                break;
            }
            case 5: {
                auto len = r.size(400);
                auto src = f.substr(r.below(f.size()), len);
                if (r.coin())
                    f.insert(o, src);
                else
                    f.replace(o, std::min(src.size(), f.size() - o), src);
                d += strf("copy@%zu ", o);
                break;
            }
            default:
                f.append(r.bytes(r.size(200)));
                d += "append ";
            }
            continue;
        }
        // elements at all depths are equally likely
        auto depth = r.pick(nodes).depth;
        if (r.coin()) {
            std::size_t m = 0;
            for (auto &x : nodes)
                m = std::max(m, x.depth);
            depth = r.below(m + 1);
        }
        std::vector<Node> same;
        for (auto &x : nodes)
            if (x.depth == depth)
                same.push_back(x);
        auto x = same.empty() ? r.pick(nodes) : r.pick(same);
        auto fixParents = [&](std::int64_t delta) {
            for (auto &p : nodes)
                if (p.off < x.off && p.end >= x.end && p.sizeLen && p.depth < x.depth)
                    setSize(f, p, static_cast<std::uint64_t>(static_cast<std::int64_t>(p.end - p.off - p.bias) + delta));
        };
        auto fix = r.chance(60);
        switch (r.below(10)) {
        case 0: // size
            if (x.sizeLen) {
                setSize(f, x, interesting(r, x.sizeLen, x.end - x.off - x.bias, f.size()));
                d += strf("size@%zu ", x.off);
            }
            break;
        case 1: // header byte
            f[x.off + r.below(std::max<std::size_t>(1, std::min(x.hdr, f.size() - x.off)))] = static_cast<char>(r.next());
            d += strf("header@%zu ", x.off);
            break;
        case 2: { // identifier of another element
            auto &y = r.pick(nodes);
            auto l = x.ebml ? x.sizeOff - x.off : std::size_t(4);
            auto yl = y.ebml ? y.sizeOff - y.off : std::size_t(4);
            auto idOff = x.ebml || x.bias ? x.off : x.off + 4, yOff = y.ebml || y.bias ? y.off : y.off + 4;
            if (yOff + yl <= f.size() && (l == yl || !x.ebml))
                f.replace(idOff, std::min(l, f.size() - std::min(idOff, f.size())), f.substr(yOff, yl));
            d += strf("id@%zu ", x.off);
            break;
        }
        case 3: { // remove
            auto len = x.end - x.off;
            if (fix)
                fixParents(-static_cast<std::int64_t>(len));
            f.erase(x.off, len);
            d += strf("remove@%zu%s ", x.off, fix ? "+" : "");
            break;
        }
        case 4: { // duplicate or move into another place
            auto &y = r.pick(nodes);
            auto data = f.substr(y.off, std::min<std::size_t>(y.end - y.off, 20000));
            if (fix)
                fixParents(static_cast<std::int64_t>(data.size()));
            f.insert(x.off, data);
            d += strf("duplicate@%zu->%zu%s ", y.off, x.off, fix ? "+" : "");
            break;
        }
        case 5: { // cut content
            auto len = x.end - x.off - std::min(x.hdr, x.end - x.off);
            auto cut = r.coin() ? r.below(len + 1) : std::min<std::size_t>(len, r.below(9));
            if (fix) {
                fixParents(-static_cast<std::int64_t>(cut));
                if (x.sizeLen)
                    setSize(f, x, x.end - x.off - x.bias - cut);
            }
            f.erase(x.end - cut, cut);
            d += strf("cut@%zu%s ", x.off, fix ? "+" : "");
            break;
        }
        default: { // value within the content, mostly near its start
            auto len = x.end - std::min(x.end, x.off + x.hdr);
            if (!len)
                break;
            auto o = x.off + x.hdr + (r.chance(75) ? r.below(std::min<std::size_t>(len, 48)) : r.below(len));
            auto w = x.ebml && len <= 8 && r.coin() ? len : std::size_t(1) << r.below(4);
            if (w > 1 && r.coin())
                o -= (o - x.off - x.hdr) % w;
            put(f, o, w, interesting(r, w, be(f, o, w), f.size()), r.chance(30));
            d += strf("content@%zu+%zu ", x.off, o - x.off);
        }
        }
        if (f.substr(0, 4) == "OggS" && r.chance(70))
            for (auto &p : nodesOf(f)) {
                put(f, p.off + 22, 4, 0, true);
                put(f, p.off + 22, 4, oggCrc(std::string_view(f).substr(p.off, p.end - p.off)), true);
            }
    }
    return d;
}
}
