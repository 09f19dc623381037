#include "oggfmt.h"
#include "lib.h"
#include <algorithm>
namespace tp::ogg {
static std::uint32_t table[256];
static bool init = [] {
    for (std::uint32_t i = 0; i < 256; ++i) {
        std::uint32_t c = i << 24;
        for (int k = 0; k < 8; ++k)
            c = c & 0x80000000u ? (c << 1) ^ 0x04C11DB7u : c << 1;
        table[i] = c;
    }
    return true;
}();
std::uint32_t crc(std::string_view d)
{
    std::uint32_t c = 0;
    for (auto ch : d)
        c = (c << 8) ^ table[((c >> 24) ^ static_cast<unsigned char>(ch)) & 0xFF];
    return c;
}
const Stream *Info::stream(std::uint32_t serial) const
{
    for (auto &s : streams)
        if (s.serial == serial)
            return &s;
    return nullptr;
}
static std::string codecOf(std::string_view p)
{
    if (p.substr(0, 7) == "\x01vorbis")
        return "vorbis";
    if (p.substr(0, 8) == "OpusHead")
        return "opus";
    if (p.substr(0, 5) == "\x7F" "FLAC")
        return "flac";
    if (p.substr(0, 5) == "Speex")
        return "speex";
    if (p.substr(0, 7) == "\x80theora")
        return "theora";
    return "?";
}
Info inspect(std::string_view f)
{
    Info in;
    std::map<std::uint32_t, std::size_t> idx;
    struct St {
        Bytes pending;
        bool open = false, freshPending = false;
        std::size_t firstPage = 0;
        std::uint32_t nextSeq = 0;
    };
    std::vector<St> st;
    for (std::uint64_t o = 0; o < f.size();) {
        if (f.substr(o, 4) != "OggS")
            throw Malformed(strf("no Ogg page at %llu", (unsigned long long)o));
        if (o + 27 > f.size())
            throw Malformed("page header truncated");
        Page p;
        p.off = o;
        if (f[o + 4])
            throw Malformed("page version");
        p.flags = static_cast<unsigned char>(f[o + 5]);
        p.granule = static_cast<std::int64_t>(rle(f, o + 6, 8));
        p.serial = static_cast<std::uint32_t>(rle(f, o + 14, 4));
        p.seq = static_cast<std::uint32_t>(rle(f, o + 18, 4));
        auto n = static_cast<unsigned char>(f[o + 26]);
        if (o + 27 + n > f.size())
            throw Malformed("lacing truncated");
        std::size_t ds = 0;
        for (unsigned i = 0; i < n; ++i) {
            p.lacing.push_back(static_cast<std::uint8_t>(f[o + 27 + i]));
            ds += p.lacing.back();
        }
        p.size = 27u + n + ds;
        if (o + p.size > f.size())
            throw Malformed(strf("page at %llu truncated", (unsigned long long)o));
        Bytes raw(f.substr(o, p.size));
        auto denoted = static_cast<std::uint32_t>(rle(f, o + 22, 4));
        raw[22] = raw[23] = raw[24] = raw[25] = 0;
        p.crcOk = crc(raw) == denoted;
        auto where = strf("page %zu (serial %u) at %llu: ", in.pages.size(), p.serial, (unsigned long long)o);
        if (!p.crcOk)
            in.problems.push_back("crc " + where + "wrong checksum");
        if (p.flags & ~7u)
            in.problems.push_back("flags " + where + strf("undefined flags %x", p.flags));
        bool isNew = !idx.count(p.serial);
        if (isNew) {
            idx[p.serial] = in.streams.size();
            in.streams.emplace_back();
            in.streams.back().serial = p.serial;
            st.emplace_back();
        }
        auto &s = in.streams[idx[p.serial]];
        auto &t = st[idx[p.serial]];
        if (isNew != !!(p.flags & 2))
            in.problems.push_back("bos " + where + (isNew ? "first page without BOS flag" : "BOS flag on a further page"));
        if (s.eos)
            in.problems.push_back("eos " + where + "page after the one with the EOS flag");
        if (p.seq != t.nextSeq)
            in.problems.push_back("sequence " + where + strf("sequence number %u, expected %u", p.seq, t.nextSeq));
        t.nextSeq = p.seq + 1;
        s.eos = p.flags & 4;
        ++s.pages;
        if (!p.lacing.empty()) {
            if (t.open != !!(p.flags & 1))
                in.problems.push_back("continued " + where + (t.open ? "continues a packet but is not flagged so" : "flagged as continued but no packet is open"));
        } else if ((p.flags & 1) && !t.open)
            in.problems.push_back("continued " + where + "empty page flagged as continued");
        std::size_t d = o + 27 + n;
        bool finished = false;
        std::size_t lastFinished = 0;
        for (unsigned i = 0; i < n; ++i) {
            if (!t.open) {
                t.open = true;
                t.pending.clear();
                t.firstPage = in.pages.size();
                t.freshPending = i == 0;
            }
            t.pending += f.substr(d, p.lacing[i]);
            d += p.lacing[i];
            if (p.lacing[i] < 255) {
                Packet k;
                k.data = std::move(t.pending);
                k.firstPage = t.firstPage;
                k.lastPage = in.pages.size();
                k.freshPage = t.freshPending;
                s.packets.push_back(std::move(k));
                t.open = false;
                finished = true;
                lastFinished = s.packets.size() - 1;
            }
        }
        if (finished) {
            s.packets[lastFinished].granule = p.granule;
            if (p.granule == -1)
                in.problems.push_back("granule " + where + "packets finish but the granule position is -1");
            else
                s.lastGranule = p.granule;
        } else if (p.granule != -1 && n)
            in.problems.push_back("granule " + where + strf("no packet finishes but the granule position is %lld", (long long)p.granule));
        else if (p.granule != -1)
            s.lastGranule = p.granule;
        o += p.size;
        in.pages.push_back(std::move(p));
    }
    for (std::size_t i = 0; i < in.streams.size(); ++i) {
        auto &s = in.streams[i];
        if (st[i].open)
            in.problems.push_back(strf("open stream %u ends within a packet", s.serial));
        if (!s.eos)
            in.problems.push_back(strf("noeos stream %u has no EOS flag on its last page", s.serial));
        if (s.packets.empty())
            continue;
        s.codec = codecOf(s.packets[0].data);
        if (s.packets.size() < 2)
            continue;
        std::string_view c = s.packets[1].data;
        std::string_view body;
        bool framing = false;
        if (s.codec == "vorbis" && c.substr(0, 7) == "\x03vorbis") {
            body = c.substr(7);
            framing = true;
        } else if (s.codec == "opus" && c.substr(0, 8) == "OpusTags")
            body = c.substr(8);
        else if (s.codec == "flac" && c.size() >= 4 && (c[0] & 0x7F) == 4) {
            if (rbe(c, 1, 3) != c.size() - 4)
                in.problems.push_back(strf("flac size of comment block is %llu, packet has %zu", (unsigned long long)rbe(c, 1, 3), c.size() - 4));
            s.flacLast = c[0] & 0x80;
            body = c.substr(4);
        } else
            continue;
        s.comment = 1;
        s.tag = vorbis::parseComment(body, framing);
        s.padding = s.tag->rest.size();
    }
    return in;
}

// --- generator
static Bytes pageBytes(const Page &p, std::string_view data)
{
    W w;
    w.s("OggS").u8(0).u8(p.flags).le64(static_cast<std::uint64_t>(p.granule)).le32(p.serial).le32(p.seq).le32(0).u8(p.lacing.size());
    for (auto l : p.lacing)
        w.u8(l);
    w.s(data);
    auto c = crc(w.b);
    for (int i = 0; i < 4; ++i)
        w.b[22 + static_cast<std::size_t>(i)] = static_cast<char>(c >> (8 * i));
    return w.b;
}
struct PPacket {
    Bytes data;
    std::int64_t granule = 0;
    bool newPage = false; // must start a page
};
static std::vector<Bytes> paginate(Rng &r, std::uint32_t serial, const std::vector<PPacket> &packets, bool nil, std::size_t &headerPages, std::size_t headers)
{
    std::vector<Bytes> out;
    Page cur;
    cur.serial = serial;
    Bytes data;
    std::int64_t gran = -1;
    bool cont = false;
    std::uint32_t seq = 0;
    auto limit = [&] { return static_cast<std::size_t>(r.chance(30) ? 255 : 1 + r.below(60)); };
    auto lim = limit();
    auto flush = [&](bool continued) {
        cur.granule = gran;
        cur.seq = seq++;
        cur.flags = (cont ? 1u : 0u) | (out.empty() ? 2u : 0u);
        out.push_back(pageBytes(cur, data));
        cur.lacing.clear();
        data.clear();
        gran = -1;
        cont = continued;
        lim = limit();
        if (nil && !continued && r.chance(3)) {
            Page e;
            e.serial = serial;
            e.granule = -1;
            e.seq = seq++;
            out.push_back(pageBytes(e, {}));
        }
    };
    headerPages = 0;
    for (std::size_t i = 0; i < packets.size(); ++i) {
        auto &p = packets[i];
        if ((p.newPage || r.chance(15)) && !cur.lacing.empty())
            flush(false);
        if (i == headers)
            headerPages = out.size() + (cur.lacing.empty() ? 0 : 1);
        std::size_t o = 0;
        for (;;) {
            if (cur.lacing.size() >= lim)
                flush(o > 0);
            auto n = std::min<std::size_t>(255, p.data.size() - o);
            cur.lacing.push_back(static_cast<std::uint8_t>(n));
            data += p.data.substr(o, n);
            o += n;
            if (n < 255)
                break;
        }
        gran = p.granule;
    }
    if (!cur.lacing.empty())
        flush(false);
    if (headers >= packets.size())
        headerPages = out.size();
    return out;
}
static void setFlags(Bytes &page, unsigned add)
{
    page[5] = static_cast<char>(page[5] | static_cast<char>(add));
    page[22] = page[23] = page[24] = page[25] = 0;
    auto c = crc(page);
    for (int i = 0; i < 4; ++i)
        page[22 + static_cast<std::size_t>(i)] = static_cast<char>(c >> (8 * i));
}
Gen generate(Rng &r, const GOptions &o)
{
    Gen g;
    auto groups = o.chained && o.codec.empty() && r.chance(15) ? 2u : 1u;
    std::set<std::uint32_t> serials;
    for (unsigned gi = 0; gi < groups; ++gi) {
        auto ns = o.multi && o.codec.empty() && r.chance(35) ? 2 + r.below(2) : 1;
        std::vector<std::vector<Bytes>> pages;
        std::vector<std::size_t> headerPages;
        for (unsigned si = 0; si < ns; ++si) {
            GStream s;
            do
                s.serial = r.chance(10) ? static_cast<std::uint32_t>(r.below(4)) : static_cast<std::uint32_t>(r.next());
            while (!serials.insert(s.serial).second);
            if (!o.codec.empty())
                s.codec = o.codec;
            else {
                auto k = r.below(100);
                s.codec = k < 40 ? "vorbis" : k < 65 ? "opus" : k < 80 ? "flac" : !o.unknown ? "vorbis" : k < 87 ? "theora" : k < 94 ? "speex" : "?";
            }
            s.channels = 1 + static_cast<unsigned>(r.below(r.chance(80) ? 2 : 8));
            s.rate = s.codec == "opus" && r.chance(70) ? 48000 : r.pick({ 8000u, 22050u, 44100u, 48000u, 96000u });
            s.bits = r.pick({ 8u, 16u, 24u });
            vorbis::COptions co;
            co.pictures = o.pictures;
            if (r.chance(10))
                co.maxValue = 70000;
            s.comment = vorbis::randomComment(r, co);
            s.hasComment = s.codec == "vorbis" || s.codec == "opus" || s.codec == "flac";
            if (o.noComment && s.hasComment && s.codec != "flac" && r.chance(4))
                s.hasComment = false;
            std::vector<PPacket> ps;
            std::size_t headers = 0;
            bool share = o.sharePages && r.chance(70);
            std::size_t padTo = 0;
            if (r.chance(15))
                padTo = 255 * (1 + r.below(260)); // makes the comment packet end at a multiple of 255
            auto fit = [&](Bytes c, std::size_t at, bool allowRest) {
                (void)at;
                if (allowRest && padTo && c.size() < padTo)
                    c.append(padTo - c.size(), '\0');
                else if (allowRest && r.chance(15))
                    c.append(r.below(600), '\0');
                return c;
            };
            if (s.codec == "vorbis") {
                W id;
                id.s("\x01vorbis").le32(0).u8(s.channels).le32(s.rate).le32(0).le32(r.pick({ 0u, 128000u, 192000u })).le32(0).u8(0xB8).u8(1);
                ps.push_back({ id.b, 0, true });
                if (s.hasComment)
                    ps.push_back({ fit("\x03vorbis" + vorbis::makeComment(s.comment, true), 0, true), 0, true });
                ps.push_back({ "\x05vorbis" + r.bytes(20 + r.size(r.chance(20) ? 70000 : 3000)), 0, !share || !s.hasComment });
            } else if (s.codec == "opus") {
                s.preSkip = static_cast<unsigned>(r.below(4000));
                W id;
                id.s("OpusHead").u8(1).u8(s.channels).le16(s.preSkip).le32(s.rate).le16(0).u8(0);
                ps.push_back({ id.b, 0, true });
                if (s.hasComment)
                    ps.push_back({ fit("OpusTags" + vorbis::makeComment(s.comment, false), 0, true), 0, true });
            } else if (s.codec == "flac") {
                s.samples = 1 + r.below(10000000);
                auto extra = r.below(3);
                W id;
                id.s("\x7F" "FLAC").u8(1).u8(0).be16(1 + extra).s("fLaC").u8(0).be24(34);
                id.be16(4096).be16(4096).be24(0).be24(0).be((static_cast<std::uint64_t>(s.rate) << 44) | (static_cast<std::uint64_t>(s.channels - 1) << 41) | (static_cast<std::uint64_t>(s.bits - 1) << 36) | s.samples, 8).s(r.bytes(16));
                ps.push_back({ id.b, 0, true });
                auto c = fit(vorbis::makeComment(s.comment, false), 0, false);
                W cb;
                cb.u8(4 | (extra ? 0 : 0x80)).be24(c.size()).s(c);
                ps.push_back({ cb.b, 0, true });
                for (unsigned i = 0; i < extra; ++i) {
                    auto d = r.bytes(4 + r.size(500));
                    W b;
                    b.u8(r.pick({ 2u, 3u, 1u, 60u }) | (i + 1 == extra ? 0x80 : 0)).be24(d.size()).s(d);
                    ps.push_back({ b.b, 0, !share });
                }
            } else if (s.codec == "theora") {
                ps.push_back({ "\x80theora" + r.bytes(35), 0, true });
                ps.push_back({ "\x81theora" + vorbis::makeComment(s.comment, false), 0, true });
                ps.push_back({ "\x82theora" + r.bytes(100 + r.size(2000)), 0, !share });
            } else if (s.codec == "speex") {
                ps.push_back({ "Speex   1.2" + r.bytes(69), 0, true });
                ps.push_back({ vorbis::makeComment(s.comment, false), 0, true });
            } else {
                ps.push_back({ "\x93" "CODEC" + r.payload(10 + r.below(60)), 0, true });
            }
            headers = ps.size();
            std::int64_t gr = 0;
            auto np = r.size(o.maxPackets);
            for (unsigned i = 0; i < np; ++i) {
                std::size_t n = r.chance(25) ? 255 * r.below(5) : r.size(o.bigPackets && r.chance(5) ? 150000 : 1200);
                if (!n && !o.zeroPackets)
                    n = 1;
                gr += static_cast<std::int64_t>(r.below(3000));
                auto d = r.payload(n);
                if (s.codec == "vorbis" && n)
                    d[0] = static_cast<char>(d[0] & ~1);
                if (s.codec == "flac" && n)
                    d[0] = static_cast<char>(0xFF);
                ps.push_back({ d, gr, i == 0 });
            }
            if (s.codec != "flac")
                s.samples = static_cast<std::uint64_t>(gr);
            std::size_t hp = 0;
            auto pg = paginate(r, s.serial, ps, o.nil && r.chance(20), hp, headers);
            if (o.nil && r.chance(8)) {
                Page e;
                e.serial = s.serial;
                e.granule = gr;
                e.seq = static_cast<std::uint32_t>(pg.size());
                pg.push_back(pageBytes(e, {}));
            }
            setFlags(pg.back(), 4);
            g.desc += strf("%s[%u ch %u hz %zu packets %zu pages%s] ", s.codec.c_str(), s.channels, s.rate, ps.size(), pg.size(), s.hasComment ? "" : " nocomment");
            pages.push_back(std::move(pg));
            headerPages.push_back(hp);
            g.streams.push_back(std::move(s));
        }
        // multiplex: first pages first, then header pages, then the rest
        std::vector<std::size_t> pos(pages.size(), 0);
        auto emit = [&](std::size_t i) {
            auto &p = pages[i][pos[i]++];
            auto n = 27u + static_cast<unsigned char>(p[26]);
            g.structural.emplace_back(g.file.size(), g.file.size() + n);
            if (pos[i] <= headerPages[i])
                g.structural.emplace_back(g.file.size() + n, g.file.size() + std::min<std::size_t>(p.size(), n + 200));
            g.file += p;
        };
        for (std::size_t i = 0; i < pages.size(); ++i)
            emit(i);
        for (int stage = 0; stage < 2; ++stage)
            for (;;) {
                std::vector<std::size_t> ready;
                for (std::size_t i = 0; i < pages.size(); ++i)
                    if (pos[i] < (stage ? pages[i].size() : headerPages[i]))
                        ready.push_back(i);
                if (ready.empty())
                    break;
                emit(r.pick(ready));
            }
    }
    if (groups > 1)
        g.desc += "chained ";
    return g;
}
} // namespace tp::ogg
