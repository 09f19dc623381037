#include "rawfmt.h"
#include "lib.h"
namespace tp::raw {
std::uint64_t Info::padding() const
{
    auto r = flacPadding;
    for (auto &t : tags)
        r += t.padding;
    return r;
}
Info inspect(std::string_view file, bool keepJunk)
{
    Info i;
    std::size_t p = 0, end = file.size();
    while (file.size() - p >= 10 && file.substr(p, 3) == "ID3") {
        i.tags.push_back(id3::parseTag(file, p));
        p += i.tags.back().size;
    }
    auto z = p;
    while (z < file.size() && !file[z])
        ++z;
    if (!keepJunk && z > p + 3) {
        i.junk = z - p;
        p = z;
    }
    if (end - p >= 128 && file.substr(end - 128, 3) == "TAG") {
        i.v1 = id3::parseV1(file.substr(end - 128));
        end -= 128;
    }
    if (end - p >= 32 && file.substr(end - 32, 8) == "APETAGEX") {
        auto n = rle(file, end - 20, 4);
        if (rle(file, end - 12, 4) & 0x80000000u)
            n += 32;
        if (n <= end - p) {
            i.ape = Bytes(file.substr(end - n, n));
            end -= n;
        }
    }
    if (file.substr(p, 4) == "fLaC") {
        i.flac = true;
        auto q = p + 4;
        for (bool last = false; !last;) {
            if (q + 4 > end)
                throw Malformed("FLAC metadata block header beyond end of file");
            last = file[q] & 0x80;
            Block b;
            b.type = static_cast<unsigned char>(file[q]) & 0x7F;
            auto n = rbe(file, q + 1, 3);
            if (b.type == 127)
                throw Malformed("FLAC metadata block of invalid type");
            if (n > end - q - 4)
                throw Malformed("FLAC metadata block exceeds file");
            b.data = Bytes(file.substr(q + 4, n));
            q += 4 + n;
            if (i.blocks.empty() && (b.type != 0 || n != 34))
                i.problems.push_back("streaminfo first block is not STREAMINFO");
            switch (b.type) {
            case 1:
                i.flacPadding += 4 + n;
                if (b.data.find_first_not_of('\0') != Bytes::npos)
                    i.problems.push_back("padding-bytes FLAC padding is not zero");
                break;
            case 4:
                if (i.comment)
                    i.problems.push_back("comments more than one Vorbis comment");
                i.comment = vorbis::parseComment(b.data, false);
                if (!i.comment->rest.empty())
                    i.problems.push_back("comment-rest data behind Vorbis comment");
                break;
            case 6:
                i.pictures.push_back(vorbis::parsePicture(b.data));
                break;
            default:
                i.foreign.push_back(b);
            }
            i.blocks.push_back(std::move(b));
        }
        p = q;
    }
    i.streamOff = p;
    i.streamEnd = end;
    i.stream = Bytes(file.substr(p, end - p));
    return i;
}
static Bytes mpegFrames(Rng &r, Gen &g, std::size_t maxSize)
{
    static const unsigned br1[] = { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 };
    static const unsigned br2[] = { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 };
    bool v1 = r.chance(75);
    unsigned bi = static_cast<unsigned>(r.range(1, 14)), si = static_cast<unsigned>(r.below(3)), mode = static_cast<unsigned>(r.below(4));
    static const unsigned rates[] = { 44100, 48000, 32000 };
    g.rate = rates[si] / (v1 ? 1 : 2);
    g.kbps = v1 ? br1[bi] : br2[bi];
    g.channels = mode == 3 ? 1 : 2;
    Bytes out;
    auto n = r.range(1, 60);
    auto spf = v1 ? 1152u : 576u;
    auto vbr = r.chance(20);
    std::size_t xing = 0;
    for (unsigned i = 0; i < n && (out.size() < maxSize || i < 1); ++i) {
        bool pad = r.coin();
        auto len = (v1 ? 144000u : 72000u) * g.kbps / g.rate + pad;
        Bytes f = W().u8(0xFF).u8(v1 ? 0xFB : 0xF3).u8(bi << 4 | si << 2 | (pad ? 2 : 0)).u8(mode << 6).b;
        if (i == 0 && vbr && len > 60) {
            auto side = v1 ? (mode == 3 ? 17u : 32u) : (mode == 3 ? 9u : 17u);
            f += Bytes(side, '\0') + "Xing";
            xing = f.size();
            f += W().be32(3).be32(0).be32(0).b;
        }
        if (f.size() < len)
            f += r.payload(len - f.size());
        out += f;
        g.samples += spf;
    }
    if (xing)
        out.replace(xing + 4, 8, W().be32(g.samples / spf - 1).be32(out.size()).b);
    g.seconds = static_cast<double>(g.samples) / g.rate;
    return out;
}
static Bytes adtsFrames(Rng &r, Gen &g, std::size_t maxSize)
{
    Bytes out;
    auto n = r.range(1, 40);
    static const unsigned rates[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
    unsigned si = static_cast<unsigned>(r.below(13)), ch = static_cast<unsigned>(r.range(1, 7));
    g.rate = rates[si];
    g.channels = ch == 7 ? 8 : ch;
    for (unsigned i = 0; i < n && (out.size() < maxSize || i < 1); ++i) {
        auto len = static_cast<unsigned>(r.range(20, 600));
        std::uint64_t h = 0xFFF1;
        h = h << 2 | 1; // LC
        h = h << 4 | si;
        h = h << 1;
        h = h << 3 | ch;
        h = h << 4;
        h = h << 13 | len;
        h = h << 11 | 0x7FF;
        h = h << 2;
        out += W().be(h, 7).b + r.payload(len - 7);
        g.samples += 1024;
    }
    g.seconds = static_cast<double>(g.samples) / g.rate;
    return out;
}
static Bytes wav(Rng &r, Gen &g)
{
    g.channels = static_cast<unsigned>(r.range(1, 6));
    g.rate = r.pick({ 8000u, 44100u, 48000u, 96000u });
    g.bits = r.pick({ 8u, 16u, 24u });
    g.samples = r.below(3000);
    auto align = g.channels * g.bits / 8;
    auto data = r.payload(g.samples * align);
    W fmt;
    fmt.le16(1).le16(g.channels).le32(g.rate).le32(g.rate * align).le16(align).le16(g.bits);
    W w;
    w.s("WAVEfmt ").le32(fmt.b.size()).s(fmt.b);
    if (r.coin())
        w.s("LIST").le32(10).s("INFOabcdef");
    w.s("data").le32(data.size()).s(data);
    if (data.size() % 2)
        w.u8(0);
    if (r.chance(30))
        w.s("junk").le32(6).s("abcdef");
    g.seconds = static_cast<double>(g.samples) / g.rate;
    return "RIFF" + W().le32(w.b.size()).b + w.b;
}
static Bytes ivf(Rng &r, Gen &g)
{
    W w;
    auto n = r.range(0, 20);
    unsigned den = r.pick({ 25u, 30u, 24000u }), num = den == 24000 ? 1001 : 1;
    w.s("DKIF").le16(0).le16(32).s(r.pick({ "VP80", "VP90", "AV01" })).le16(r.range(16, 4000)).le16(r.range(16, 4000)).le32(den).le32(num).le32(n).le32(0);
    for (unsigned i = 0; i < n; ++i) {
        auto d = r.payload(r.range(1, 300));
        w.le32(d.size()).le64(i).s(d);
    }
    g.seconds = static_cast<double>(n) * num / den;
    return w.b;
}
static Bytes flac(Rng &r, Gen &g, std::string &d)
{
    g.rate = r.pick({ 8000u, 44100u, 48000u, 96000u, 192000u });
    g.channels = static_cast<unsigned>(r.range(1, 8));
    g.bits = r.pick({ 8u, 16u, 20u, 24u });
    g.samples = r.below(10'000'000);
    g.seconds = static_cast<double>(g.samples) / g.rate;
    W si;
    si.be16(4096).be16(4096).be24(r.below(9999)).be24(r.below(9999)).be(static_cast<std::uint64_t>(g.rate) << 44 | static_cast<std::uint64_t>(g.channels - 1) << 41 | static_cast<std::uint64_t>(g.bits - 1) << 36 | g.samples, 8).s(r.bytes(16));
    std::vector<Block> b;
    auto n = r.below(5);
    for (unsigned i = 0; i < n; ++i)
        switch (r.below(6)) {
        case 0: b.push_back({ 2, "appl" + r.bytes(r.below(200)) }); break;
        case 1: b.push_back({ 3, r.bytes(18 * r.range(0, 10)) }); break;
        case 2: b.push_back({ 5, r.bytes(r.range(1, 400)) }); break;
        case 3: b.push_back({ 1, Bytes(r.size(800), '\0') }); break;
        case 4: b.push_back({ static_cast<unsigned>(r.range(7, 126)), r.bytes(r.below(200)) }); break;
        default: {
            auto p = vorbis::randomPicture(r);
            p.width = p.height = p.depth = p.colors = 0;
            b.push_back({ 6, vorbis::makePicture(p) });
        }
        }
    if (r.chance(75)) {
        vorbis::COptions co;
        co.pictures = r.chance(20);
        b.insert(b.begin() + static_cast<std::ptrdiff_t>(r.below(b.size() + 1)), { 4, vorbis::makeComment(vorbis::randomComment(r, co), false) });
    }
    b.insert(b.begin(), { 0, si.b });
    Bytes out = "fLaC";
    for (std::size_t i = 0; i < b.size(); ++i) {
        out += static_cast<char>(b[i].type | (i + 1 == b.size() ? 0x80 : 0));
        out += W().be24(b[i].data.size()).s(b[i].data).b;
        d += strf("%u,", b[i].type);
    }
    auto frames = r.below(6);
    for (unsigned i = 0; i < frames; ++i)
        out += "\xFF\xF8" + r.payload(r.range(10, 900));
    return out;
}
Gen generate(Rng &r, const GOptions &o)
{
    Gen g;
    g.format = !o.format.empty() ? o.format : r.pick({ "mp3", "mp3", "mp3", "flac", "flac", "adts", "wav", "ivf", "aiff", "wavpack", "unknown" });
    if (!o.unknownFormats && o.format.empty() && (g.format == "unknown" || g.format == "wav" || g.format == "ivf"))
        g.format = "mp3";
    Bytes stream;
    std::string d = g.format + " ";
    if (g.format == "mp3")
        stream = mpegFrames(r, g, o.maxStream);
    else if (g.format == "adts")
        stream = adtsFrames(r, g, o.maxStream);
    else if (g.format == "wav")
        stream = wav(r, g);
    else if (g.format == "ivf")
        stream = ivf(r, g);
    else if (g.format == "flac")
        stream = flac(r, g, d);
    else if (g.format == "aiff") {
        auto p = r.payload(r.range(20, 2000));
        stream = "FORM" + W().be32(p.size() + 4).s("AIFF").s(p).b;
    } else if (g.format == "wavpack")
        stream = "wvpk" + r.payload(r.range(40, 4000));
    else
    {
        stream = r.chance(40) ? Bytes(r.below(20), '\0') : Bytes();
        for (auto n = r.range(0x900, 6000); n; --n) // longer than the part searched for signatures (which would otherwise also cover an ID3v1 tag)
            stream += static_cast<char>('a' + r.below(8)); // nothing which looks like the signature of a known format
    }
    // tags
    if (o.v2 && r.chance(g.format == "flac" ? 25 : 60)) {
        auto n = o.multi && r.chance(12) ? 2 : 1;
        for (int i = 0; i < n; ++i) {
            auto to = o.tag;
            to.fancy = to.fancy && o.fancy;
            auto t = id3::randomTag(r, to);
            if (t.frames.empty() && r.coin())
                continue;
            if (t.frames.empty() && !t.padding)
                t.padding = 10;
            d += strf("v2.%u(%zu frames%s%s%s) ", t.version, t.frames.size(), t.unsync ? " unsync" : "", t.extHeader ? " ext" : "", t.footer ? " footer" : "");
            g.file += id3::makeTag(t);
        }
    }
    if (o.junk && !g.file.empty() && r.chance(10) && g.format != "unknown") {
        g.file += Bytes(r.range(4, 900), '\0');
        d += "junk ";
    }
    g.file += stream;
    if (o.ape && r.chance(15)) {
        g.file += id3::makeApe(r, r.coin());
        d += "ape ";
    }
    if (o.v1 && r.chance(35)) {
        g.file += id3::makeV1(id3::randomV1(r));
        d += "v1 ";
    }
    g.desc = d + strf("%zu bytes ", g.file.size());
    return g;
}
} // namespace tp::raw
