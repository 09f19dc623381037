#include "mkvfmt.h"
#include "lib.h"
#include <algorithm>
#include <bit>
#include <set>
#include <zlib.h>

namespace tp::mkv {

enum : std::uint32_t {
    EBML = 0x1A45DFA3, Void = 0xEC, Crc = 0xBF, Segment = 0x18538067, SeekHead = 0x114D9B74, Seek = 0x4DBB, SeekID = 0x53AB, SeekPosition = 0x53AC,
    SegInfo = 0x1549A966, Tracks = 0x1654AE6B, TrackEntry = 0xAE, Video = 0xE0, Audio = 0xE1, Encodings = 0x6D80, Encoding = 0x6240, Compression = 0x5034,
    ClusterId = 0x1F43B675, Timestamp = 0xE7, SimpleBlock = 0xA3, BlockGroup = 0xA0, BlockId = 0xA1, Position = 0xA7, PrevSize = 0xAB,
    Cues = 0x1C53BB6B, CuePoint = 0xBB, CueTime = 0xB3, CueTrackPositions = 0xB7, CueTrack = 0xF7, CueClusterPosition = 0xF1, CueRelativePosition = 0xF0, CueDuration = 0xB2,
    CueBlockNumber = 0x5378, CueCodecState = 0xEA, CueReference = 0xDB, CueRefTime = 0x96, CueRefCluster = 0x97,
    Tags = 0x1254C367, Tag = 0x7373, Targets = 0x63C0, SimpleTagId = 0x67C8, Attachments = 0x1941A469, AttachedFile = 0x61A7, Chapters = 0x1043A770, EditionEntry = 0x45B9,
    ChapterAtom = 0xB6, ChapterTrack = 0x8F, ChapterDisplay = 0x80
};
static const std::set<std::uint32_t> masters = { EBML, Segment, SeekHead, Seek, SegInfo, Tracks, TrackEntry, Video, Audio, Encodings, Encoding, Compression, ClusterId, BlockGroup, Cues, CuePoint,
    CueTrackPositions, CueReference, Tags, Tag, Targets, SimpleTagId, Attachments, AttachedFile, Chapters, EditionEntry, ChapterAtom, ChapterTrack, ChapterDisplay };
static const std::set<std::uint32_t> level1 = { SeekHead, SegInfo, Tracks, ClusterId, Cues, Tags, Attachments, Chapters };
const char *idName(std::uint32_t id)
{
    switch (id) {
    case SeekHead: return "SeekHead";
    case SegInfo: return "Info";
    case Tracks: return "Tracks";
    case ClusterId: return "Cluster";
    case Cues: return "Cues";
    case Tags: return "Tags";
    case Attachments: return "Attachments";
    case Chapters: return "Chapters";
    case Void: return "Void";
    case Crc: return "CRC";
    }
    return "?";
}
const El *El::child(std::uint32_t i) const
{
    for (auto &k : kids)
        if (k.id == i)
            return &k;
    return nullptr;
}
std::vector<const El *> El::children(std::uint32_t i) const
{
    std::vector<const El *> r;
    for (auto &k : kids)
        if (k.id == i)
            r.push_back(&k);
    return r;
}
std::uint64_t El::uint(std::string_view f) const
{
    if (size > 8)
        throw Malformed("integer element larger than 8 bytes");
    return rbe(f, dataOff(), static_cast<int>(size));
}
static El header(std::string_view f, std::uint64_t pos, std::uint64_t to)
{
    El e;
    e.off = pos;
    if (pos >= to)
        throw Malformed("element header beyond parent");
    unsigned c = static_cast<unsigned char>(f[pos]);
    int n = c >= 0x80 ? 1 : c >= 0x40 ? 2 : c >= 0x20 ? 3 : c >= 0x10 ? 4 : 0;
    if (!n || pos + n >= to)
        throw Malformed(strf("invalid element ID at %llu", (unsigned long long)pos));
    e.id = static_cast<std::uint32_t>(rbe(f, pos, n));
    unsigned s = static_cast<unsigned char>(f[pos + n]);
    int m = s ? std::countl_zero(static_cast<unsigned char>(s)) + 1 : 0;
    if (!m || m > 8 || pos + n + m > to)
        throw Malformed(strf("invalid size of element %x at %llu", e.id, (unsigned long long)pos));
    auto v = rbe(f, pos + n, m) & ((m == 8 ? (1ull << 56) : (1ull << (7 * m))) - 1);
    e.hdr = static_cast<std::uint64_t>(n + m);
    e.unknownSize = v == (1ull << (7 * m)) - 1;
    e.size = e.unknownSize ? to - pos - e.hdr : v;
    if (e.size > to - pos - e.hdr)
        throw Malformed(strf("element %x at %llu with size %llu exceeds its parent ending at %llu", e.id, (unsigned long long)pos, (unsigned long long)v, (unsigned long long)to));
    return e;
}
static std::vector<El> range(std::string_view f, std::uint64_t from, std::uint64_t to, std::uint32_t parent, bool parentUnknown, std::uint64_t *endOut)
{
    std::vector<El> r;
    auto pos = from;
    while (pos < to) {
        auto e = header(f, pos, to);
        if (parentUnknown && parent == ClusterId && (level1.count(e.id) || e.id == Segment))
            break;
        if (parentUnknown && parent == Segment && (e.id == Segment || e.id == EBML))
            break;
        if (e.unknownSize && e.id != Segment && e.id != ClusterId)
            throw Malformed("unknown size not allowed here");
        if (masters.count(e.id)) {
            std::uint64_t end = e.end();
            e.kids = range(f, e.dataOff(), e.end(), e.id, e.unknownSize, &end);
            e.size = end - e.dataOff();
        }
        pos = e.end();
        r.push_back(std::move(e));
    }
    if (endOut)
        *endOut = pos;
    return r;
}
std::vector<El> parse(std::string_view file)
{
    return range(file, 0, file.size(), 0, false, nullptr);
}
std::string SimpleTag::text(int depth) const
{
    auto s = std::string(static_cast<std::size_t>(depth * 2), ' ') + name + " lang=" + lang + " bcp=" + bcp + strf(" default=%d ", def) + (str ? "str=" + quote(*str, 4000) : std::string())
        + (bin ? "bin=" + hex(*bin, 4000) : std::string()) + "\n";
    for (auto &n : nested)
        s += n.text(depth + 1);
    return s;
}
std::string TagEl::text() const
{
    auto s = strf("Tag level=%llu type=%s", (unsigned long long)level, quote(type).c_str());
    auto list = [&](const char *n, const std::vector<std::uint64_t> &v) {
        for (auto u : v)
            s += strf(" %s=%llu", n, (unsigned long long)u);
    };
    list("track", tracks);
    list("edition", editions);
    list("chapter", chapters);
    list("attachment", attachments);
    s += "\n";
    for (auto &x : fields)
        s += x.text(1);
    return s;
}
std::string CueRef::text() const
{
    return strf("time %llu track %llu -> cluster %lld block %lld %s", (unsigned long long)time, (unsigned long long)track, cluster ? (long long)*cluster : -1ll,
               block ? (long long)*block : -1ll, hasRel ? "rel " : "")
        + rest;
}
static double rfloat(std::string_view f, const El &e)
{
    if (e.size == 4)
        return std::bit_cast<float>(static_cast<std::uint32_t>(e.uint(f)));
    if (e.size == 8)
        return std::bit_cast<double>(e.uint(f));
    return 0;
}
static SimpleTag readSimple(std::string_view f, const El &e)
{
    SimpleTag t;
    for (auto &k : e.kids) {
        switch (k.id) {
        case 0x45A3: t.name = k.data(f); break;
        case 0x447A: t.lang = k.data(f); break;
        case 0x447B: t.bcp = k.data(f); break;
        case 0x4484: t.def = k.uint(f); break;
        case 0x4487: t.str = std::string(k.data(f)); break;
        case 0x4485: t.bin = std::string(k.data(f)); break;
        case SimpleTagId: t.nested.push_back(readSimple(f, k)); break;
        }
    }
    return t;
}
static void readTrack(std::string_view f, const El &e, Track &t)
{
    for (auto &k : e.kids) {
        bool rebuilt = false;
        switch (k.id) {
        case 0xD7: t.number = k.uint(f); rebuilt = true; break;
        case 0x73C5: t.uid = k.uint(f); rebuilt = true; break;
        case 0x83: t.type = k.uint(f); break;
        case 0xB9: t.enabled = k.uint(f); rebuilt = true; break;
        case 0x88: t.def = k.uint(f); rebuilt = true; break;
        case 0x55AA: t.forced = k.uint(f); rebuilt = true; break;
        case 0x9C: t.lacing = k.uint(f); break;
        case 0x23E383: t.defaultDuration = k.uint(f); break;
        case 0x536E: t.name = k.data(f); rebuilt = true; break;
        case 0x22B59C: t.lang = k.data(f); t.hasLang = true; rebuilt = true; break;
        case 0x22B59D: t.bcp = k.data(f); rebuilt = true; break;
        case 0x86: t.codec = k.data(f); break;
        case 0x63A2: t.priv = k.data(f); break;
        case 0x258688: t.codecName = k.data(f); break;
        case Video:
            for (auto &v : k.kids)
                switch (v.id) {
                case 0xB0: t.pixelW = v.uint(f); break;
                case 0xBA: t.pixelH = v.uint(f); break;
                case 0x54B0: t.dispW = v.uint(f); break;
                case 0x54BA: t.dispH = v.uint(f); break;
                case 0x54AA: t.cropB = v.uint(f); break;
                case 0x54BB: t.cropT = v.uint(f); break;
                case 0x54CC: t.cropL = v.uint(f); break;
                case 0x54DD: t.cropR = v.uint(f); break;
                case 0x9A: t.interlaced = v.uint(f); break;
                case 0x2383E3: t.fps = rfloat(f, v); break;
                }
            break;
        case Audio:
            for (auto &v : k.kids)
                switch (v.id) {
                case 0xB5: t.rate = rfloat(f, v); break;
                case 0x78B5: t.outRate = rfloat(f, v); break;
                case 0x9F: t.channels = v.uint(f); break;
                case 0x6264: t.bits = v.uint(f); break;
                }
            break;
        }
        if (!rebuilt)
            t.other.emplace_back(k.whole(f));
    }
}
static void checkCrc(std::string_view f, const El &e, Info &in)
{
    for (std::size_t i = 0; i < e.kids.size(); ++i) {
        if (e.kids[i].id == Crc) {
            if (i)
                in.problems.push_back(strf("checksum of element %x is not its first child", e.id));
            else if (e.kids[i].size != 4)
                in.problems.push_back("checksum element has wrong size");
            else {
                auto rest = f.substr(e.kids[i].end(), e.end() - e.kids[i].end());
                auto want = crc32(0, reinterpret_cast<const Bytef *>(rest.data()), static_cast<uInt>(rest.size()));
                if (rle(f, e.kids[i].dataOff(), 4) != want)
                    in.problems.push_back(strf("checksum of element %s (%x) at %llu is wrong", idName(e.id), e.id, (unsigned long long)e.off));
            }
        }
        checkCrc(f, e.kids[i], in);
    }
}
static Block readBlock(std::string_view d, std::uint64_t ts)
{
    Block b;
    unsigned c = d.empty() ? 0 : static_cast<unsigned char>(d[0]);
    int n = c ? std::countl_zero(static_cast<unsigned char>(c)) + 1 : 9;
    if (d.size() < static_cast<std::size_t>(n) + 3)
        throw Malformed("block too small");
    b.track = rbe(d, 0, n) & ((1ull << (7 * n)) - 1);
    b.time = static_cast<std::int64_t>(ts) + static_cast<std::int16_t>(rbe(d, static_cast<std::size_t>(n), 2));
    b.flags = static_cast<unsigned>(rbe(d, static_cast<std::size_t>(n) + 2, 1));
    b.payload = d.substr(static_cast<std::size_t>(n) + 3);
    return b;
}
Info inspect(std::string_view f, std::size_t segmentIndex)
{
    Info in;
    in.els = parse(f);
    if (in.els.empty() || in.els[0].id != EBML)
        throw Malformed("no EBML header");
    for (auto &k : in.els[0].kids) {
        if (k.id == 0x4282)
            in.docType = k.data(f);
        else if (k.id == 0x4287)
            in.docTypeVersion = k.uint(f);
        else if (k.id == 0x4285)
            in.docTypeReadVersion = k.uint(f);
    }
    const El *seg = nullptr;
    for (auto &e : in.els)
        if (e.id == Segment) {
            if (in.segments++ == segmentIndex)
                seg = &e;
        } else if (e.id != EBML && e.id != Void)
            throw Malformed(strf("unexpected top-level element %x", e.id));
    if (!seg)
        throw Malformed("no segment");
    checkCrc(f, *seg, in);
    auto base = seg->dataOff();
    const El *prevVoid = nullptr, *cuesEl = nullptr;
    std::vector<const El *> clusterEls, cueEls;
    std::vector<std::vector<std::pair<std::uint64_t, std::size_t>>> blockPos; // per cluster: relative offset -> block index
    std::uint64_t prevClusterSize = 0;
    for (auto &e : seg->kids) {
        in.order.push_back(e.id);
        switch (e.id) {
        case Crc: in.segmentCrc = true; break;
        case Void: break;
        case SeekHead:
            for (auto *s : e.children(Seek)) {
                auto *i = s->child(SeekID), *p = s->child(SeekPosition);
                if (!i || !p) {
                    in.problems.push_back("incomplete seek entry");
                    continue;
                }
                auto id = static_cast<std::uint32_t>(i->uint(f));
                auto pos = p->uint(f);
                ++in.seekEntries;
                bool ok = false;
                for (auto &k : seg->kids)
                    if (k.off == base + pos && k.id == id)
                        ok = true;
                if (!ok)
                    in.problems.push_back(strf("seek entry for %s (%x) denotes offset %llu where no such element starts", idName(id), id, (unsigned long long)pos));
            }
            break;
        case SegInfo:
            for (auto &k : e.kids) {
                if (k.id == 0x7BA9)
                    in.title = std::string(k.data(f));
                else if (k.id == 0x4D80)
                    in.muxingApp = k.data(f);
                else if (k.id == 0x5741)
                    in.writingApp = k.data(f);
                else if (k.id != Void && k.id != Crc)
                    in.infoOther.emplace_back(k.whole(f));
                if (k.id == 0x2AD7B1)
                    in.timeScale = k.uint(f);
                else if (k.id == 0x4489)
                    in.duration = rfloat(f, k);
                else if (k.id == 0x4461)
                    in.date = static_cast<std::int64_t>(k.uint(f));
            }
            break;
        case Tracks:
            for (auto *t : e.children(TrackEntry)) {
                in.tracks.emplace_back();
                readTrack(f, *t, in.tracks.back());
            }
            break;
        case Chapters: in.chapters.emplace_back(e.whole(f)); break;
        case Attachments:
            in.attachmentsOff = in.attachmentsOff ? in.attachmentsOff : e.off;
            for (auto *a : e.children(AttachedFile)) {
                Attachment t;
                for (auto &k : a->kids)
                    switch (k.id) {
                    case 0x46AE: t.uid = k.uint(f); break;
                    case 0x466E: t.name = k.data(f); break;
                    case 0x4660: t.mime = k.data(f); break;
                    case 0x467E: t.desc = k.data(f); break;
                    case 0x465C: t.data = k.data(f); break;
                    case Void:
                    case Crc: break;
                    default: t.other.emplace_back(k.whole(f));
                    }
                in.attachments.push_back(std::move(t));
            }
            break;
        case Tags:
            in.tagsOff = in.tagsOff ? in.tagsOff : e.off;
            for (auto *t : e.children(Tag)) {
                TagEl x;
                if (auto *g = t->child(Targets))
                    for (auto &k : g->kids)
                        switch (k.id) {
                        case 0x68CA: x.level = k.uint(f); x.hasLevel = true; break;
                        case 0x63CA: x.type = k.data(f); break;
                        case 0x63C5: x.tracks.push_back(k.uint(f)); break;
                        case 0x63C9: x.editions.push_back(k.uint(f)); break;
                        case 0x63C4: x.chapters.push_back(k.uint(f)); break;
                        case 0x63C6: x.attachments.push_back(k.uint(f)); break;
                        }
                for (auto *s : t->children(SimpleTagId))
                    x.fields.push_back(readSimple(f, *s));
                in.tags.push_back(std::move(x));
            }
            break;
        case Cues:
            in.hasCues = true;
            in.cuesOff = in.cuesOff ? in.cuesOff : e.off;
            cuesEl = &e;
            cueEls.push_back(&e);
            break;
        case ClusterId: {
            if (!in.firstCluster) {
                in.firstCluster = e.off;
                if (prevVoid)
                    in.padding = prevVoid->hdr + prevVoid->size;
            }
            Cluster c;
            c.pos = e.off - base;
            blockPos.emplace_back();
            if (auto *t = e.child(Timestamp))
                c.ts = t->uint(f);
            for (auto &k : e.kids) {
                switch (k.id) {
                case Timestamp:
                case Void:
                case Crc: break;
                case Position:
                    if (k.uint(f) != c.pos)
                        in.problems.push_back(strf("position element of cluster %zu denotes %llu but the cluster is at %llu", in.clusters.size(), (unsigned long long)k.uint(f), (unsigned long long)c.pos));
                    break;
                case PrevSize:
                    if (k.uint(f) != prevClusterSize)
                        in.problems.push_back(strf("previous size of cluster %zu is %llu, should be %llu", in.clusters.size(), (unsigned long long)k.uint(f), (unsigned long long)prevClusterSize));
                    break;
                case SimpleBlock:
                    blockPos.back().emplace_back(k.off - e.dataOff(), c.blocks.size());
                    c.blocks.push_back(readBlock(k.data(f), c.ts));
                    break;
                case BlockGroup: {
                    auto *b = k.child(BlockId);
                    if (!b)
                        throw Malformed("block group without block");
                    blockPos.back().emplace_back(k.off - e.dataOff(), c.blocks.size());
                    c.blocks.push_back(readBlock(b->data(f), c.ts));
                    c.blocks.back().group = true;
                    for (auto &x : k.kids)
                        if (x.id != BlockId)
                            c.blocks.back().extra += x.whole(f);
                    break;
                }
                default: c.other.emplace_back(k.whole(f));
                }
            }
            prevClusterSize = e.hdr + e.size;
            in.clusters.push_back(std::move(c));
            break;
        }
        default: in.unknown.emplace_back(e.whole(f));
        }
        prevVoid = e.id == Void ? &e : nullptr;
    }
    auto clusterAt = [&](std::uint64_t pos) -> std::optional<std::size_t> {
        for (std::size_t i = 0; i < in.clusters.size(); ++i)
            if (in.clusters[i].pos == pos)
                return i;
        return std::nullopt;
    };
    (void)cuesEl;
    for (auto *ce : cueEls)
        for (auto *p : ce->children(CuePoint)) {
            std::uint64_t time = p->child(CueTime) ? p->child(CueTime)->uint(f) : 0;
            for (auto *tp : p->children(CueTrackPositions)) {
                CueRef c;
                c.time = time;
                std::uint64_t rel = 0;
                for (auto &k : tp->kids)
                    switch (k.id) {
                    case CueTrack: c.track = k.uint(f); break;
                    case CueClusterPosition:
                        if (!(c.cluster = clusterAt(k.uint(f))))
                            in.problems.push_back(strf("cue at time %llu denotes cluster position %llu where no cluster starts", (unsigned long long)time, (unsigned long long)k.uint(f)));
                        break;
                    case CueRelativePosition: c.hasRel = true; rel = k.uint(f); break;
                    case CueDuration:
                    case CueBlockNumber: c.rest += strf("%x=%llu ", k.id, (unsigned long long)k.uint(f)); break;
                    case CueCodecState: {
                        auto v = k.uint(f);
                        auto cl = clusterAt(v);
                        c.rest += v ? strf("codecstate=cluster%lld ", cl ? (long long)*cl : -1ll) : std::string("codecstate=0 ");
                        break;
                    }
                    case CueReference:
                        c.rest += "ref{";
                        for (auto &x : k.kids) {
                            if (x.id == CueRefTime)
                                c.rest += strf("time=%llu ", (unsigned long long)x.uint(f));
                            else if (x.id == CueRefCluster) {
                                auto cl = clusterAt(x.uint(f));
                                c.rest += strf("cluster=%lld ", cl ? (long long)*cl : -1ll);
                            } else
                                c.rest += strf("%x=%s ", x.id, hex(x.data(f)).c_str());
                        }
                        c.rest += "}";
                        break;
                    }
                if (c.hasRel && c.cluster) {
                    for (auto &[o, b] : blockPos[*c.cluster])
                        if (o == rel)
                            c.block = b;
                    if (!c.block)
                        in.problems.push_back(strf("cue at time %llu denotes relative position %llu in cluster %zu where no block starts", (unsigned long long)time, (unsigned long long)rel, *c.cluster));
                    else if (in.clusters[*c.cluster].blocks[*c.block].track != c.track)
                        in.problems.push_back("cue denotes a block of another track");
                }
                in.cues.push_back(std::move(c));
            }
        }
    return in;
}

// --- generator
static Bytes idBytes(std::uint32_t id)
{
    W w;
    w.be(id, id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1);
    return w.b;
}
static int sizeLength(std::uint64_t v)
{
    int n = 1;
    while (n < 8 && v >= (1ull << (7 * n)) - 1)
        ++n;
    return n;
}
Bytes el(std::uint32_t id, std::string_view data, int sizeLen)
{
    W w;
    w.s(idBytes(id));
    int n = std::max(sizeLen, sizeLength(data.size()));
    w.be(data.size() | (1ull << (7 * n)), n);
    w.s(data);
    return w.b;
}
Bytes uintEl(std::uint32_t id, std::uint64_t v, int width)
{
    int n = 1;
    while (n < 8 && v >> (8 * n))
        ++n;
    W w;
    w.be(v, std::max(n, width));
    return el(id, w.b);
}
static Bytes floatEl(std::uint32_t id, double v, bool dbl)
{
    W w;
    if (dbl)
        w.be64(std::bit_cast<std::uint64_t>(v));
    else
        w.be32(std::bit_cast<std::uint32_t>(static_cast<float>(v)));
    return el(id, w.b);
}
static Bytes crcEl(std::string_view rest)
{
    W w;
    w.le32(crc32(0, reinterpret_cast<const Bytef *>(rest.data()), static_cast<uInt>(rest.size())));
    return el(Crc, w.b);
}
static Bytes voidEl(std::uint64_t total)
{
    if (total < 2)
        total = 2;
    if (total < 66)
        return el(Void, Bytes(total - 2, '\0'));
    return el(Void, Bytes(total - 9, '\0'), 8);
}
static Bytes simpleTag(Rng &r, const SimpleTag &t)
{
    Bytes b = el(0x45A3, t.name);
    if (t.lang != "und" || r.coin())
        b += el(0x447A, t.lang);
    if (!t.bcp.empty())
        b += el(0x447B, t.bcp);
    if (!t.def || r.coin())
        b += uintEl(0x4484, t.def);
    if (t.str)
        b += el(0x4487, *t.str);
    if (t.bin)
        b += el(0x4485, *t.bin);
    for (auto &n : t.nested)
        b += simpleTag(r, n);
    return el(SimpleTagId, b, static_cast<int>(r.below(4)));
}
Bytes makeTags(Rng &r, const std::vector<TagEl> &tags)
{
    Bytes all;
    for (auto &t : tags) {
        Bytes g;
        if (t.hasLevel)
            g += uintEl(0x68CA, t.level);
        if (!t.type.empty())
            g += el(0x63CA, t.type);
        for (auto u : t.tracks)
            g += uintEl(0x63C5, u);
        for (auto u : t.editions)
            g += uintEl(0x63C9, u);
        for (auto u : t.chapters)
            g += uintEl(0x63C4, u);
        for (auto u : t.attachments)
            g += uintEl(0x63C6, u);
        Bytes b = el(Targets, g);
        for (auto &s : t.fields)
            b += simpleTag(r, s);
        all += el(Tag, b, static_cast<int>(r.below(5)));
    }
    return all;
}
static SimpleTag randomSimple(Rng &r, int depth, bool raw)
{
    static const char *names[] = { "TITLE", "ARTIST", "COMMENT", "DATE_RELEASED", "GENRE", "PART_NUMBER", "LYRICS", "CUSTOM_FIELD", "ENCODER", "URL", "BARCODE" };
    SimpleTag t;
    t.name = r.pick(names);
    if (r.chance(10))
        t.name = "MY_" + std::to_string(r.below(100));
    else if (r.chance(6))
        t.name = r.pick({ "title", "Artist", "genre", "Custom_field", "rating" });
    else if (r.chance(6))
        t.name = "RATING";
    else if (r.chance(4))
        t.name = "ORIGINAL";
    t.lang = r.pick({ "und", "eng", "ger", "jpn" });
    if (r.chance(20))
        t.bcp = r.pick({ "en-US", "de", "ja" });
    t.def = !r.chance(20);
    if (raw && r.chance(10))
        t.bin = r.bytes(r.below(40) + 1);
    else
        t.str = randomText(r, 40);
    if (t.str && t.str->empty())
        t.str = "x";
    if (t.str && (t.name == "RATING" || t.name == "rating") && !r.chance(20))
        t.str = r.pick({ "0", "5", "2.5", "3.75", "1", "4.250" });
    if (depth < 3)
        while (r.chance(t.name == "ORIGINAL" ? 60 : 15))
            t.nested.push_back(randomSimple(r, depth + 1, raw));
    if (!t.nested.empty() && (t.name == "ORIGINAL" || r.chance(10)))
        t.str.reset(), t.bin.reset();
    return t;
}

Gen generate(Rng &rng, const GOptions &o)
{
    Gen g;
    Rng &r = rng;
    bool plain = o.plain;
    bool webm = r.chance(20) && !plain;
    // --- static content
    auto slen = [&](Rng &q) { return o.weirdSizes && q.chance(30) ? static_cast<int>(1 + q.below(8)) : 0; };
    struct Tk {
        std::uint64_t number, uid;
        Bytes entry;
    };
    std::vector<Tk> tks;
    auto nt = o.tracks >= 0 ? static_cast<unsigned>(o.tracks) : static_cast<unsigned>(1 + r.below(3));
    std::set<std::uint64_t> uids;
    auto newUid = [&] {
        std::uint64_t u;
        do
            u = r.chance(30) ? 1 + r.below(200) : r.chance(50) ? r.next() >> 1 | 1 : r.next() >> (8 * r.below(8));
        while (!u || uids.count(u));
        uids.insert(u);
        return u;
    };
    for (unsigned i = 0; i < nt; ++i) {
        Tk t;
        t.number = r.chance(10) && !plain ? 200 + i : i + 1;
        t.uid = newUid();
        std::vector<Bytes> kids;
        kids.push_back(uintEl(0xD7, t.number));
        kids.push_back(uintEl(0x73C5, t.uid));
        auto kind = i == 0 ? r.pick({ 1, 2 }) : r.pick({ 1, 2, 2, 17 });
        kids.push_back(uintEl(0x83, static_cast<std::uint64_t>(kind)));
        if (r.chance(40))
            kids.push_back(uintEl(0xB9, r.chance(80)));
        if (r.chance(40))
            kids.push_back(uintEl(0x88, r.coin()));
        if (r.chance(40))
            kids.push_back(uintEl(0x55AA, r.coin()));
        if (r.chance(40))
            kids.push_back(uintEl(0x9C, r.coin()));
        if (r.chance(40)) {
            auto n = randomText(r, 40);
            if (!n.empty())
                kids.push_back(el(0x536E, n, slen(r)));
        }
        if (r.chance(60))
            kids.push_back(el(0x22B59C, r.pick({ "eng", "ger", "und", "jpn", "fre", "zxx" })));
        if (r.chance(20))
            kids.push_back(el(0x22B59D, r.pick({ "en-GB", "de-AT", "ja" })));
        Bytes priv;
        if (kind == 1) {
            kids.push_back(el(0x86, r.pick({ "V_VP8", "V_VP9", "V_AV1", "V_MPEG2", "V_THEORA", "V_XYZ" })));
            Bytes v;
            auto w = 16 + r.below(4000), h = 16 + r.below(3000);
            v += uintEl(0xB0, w) + uintEl(0xBA, h);
            if (r.chance(50))
                v += uintEl(0x54B0, 1 + r.below(4000)) + uintEl(0x54BA, 1 + r.below(3000));
            if (r.chance(20))
                v += uintEl(0x54AA, r.below(50)) + uintEl(0x54BB, r.below(50)) + uintEl(0x54CC, r.below(50)) + uintEl(0x54DD, r.below(50));
            if (r.chance(30))
                v += uintEl(0x9A, r.below(2));
            kids.push_back(el(Video, v, slen(r)));
            if (r.chance(60))
                kids.push_back(uintEl(0x23E383, r.pick({ 40000000u, 33366666u, 20000000u, 41708333u })));
        } else if (kind == 2) {
            kids.push_back(el(0x86, r.pick({ "A_VORBIS", "A_OPUS", "A_MPEG/L3", "A_AC3", "A_FLAC", "A_PCM/INT/LIT", "A_DTS", "A_EAC3" })));
            Bytes a;
            if (r.chance(90))
                a += floatEl(0xB5, r.pick({ 8000.0, 22050.0, 44100.0, 48000.0, 96000.0 }), r.coin());
            if (r.chance(20))
                a += floatEl(0x78B5, r.pick({ 44100.0, 48000.0 }), r.coin());
            if (r.chance(90))
                a += uintEl(0x9F, 1 + r.below(8));
            if (r.chance(50))
                a += uintEl(0x6264, r.pick({ 8u, 16u, 24u, 32u }));
            kids.push_back(el(Audio, a, slen(r)));
        } else
            kids.push_back(el(0x86, r.pick({ "S_TEXT/UTF8", "S_TEXT/ASS", "S_VOBSUB" })));
        if (r.chance(50))
            kids.push_back(el(0x63A2, r.payload(r.size(300)), slen(r)));
        if (r.chance(20))
            kids.push_back(el(0x258688, "Some codec"));
        if (r.chance(20))
            kids.push_back(uintEl(0x56AA, r.below(10000000)));
        if (o.foreign && r.chance(30))
            kids.push_back(el(0x41E4, r.payload(r.size(60)))); // BlockAdditionMapping, not known to the library
        if (o.foreign && r.chance(20))
            kids.push_back(el(Encodings, el(Encoding, uintEl(0x5031, 0) + uintEl(0x5032, 1) + uintEl(0x5033, 0) + el(Compression, uintEl(0x4254, 3) + el(0x4255, r.payload(4))))));
        if (o.foreign && r.chance(15))
            kids.push_back(voidEl(2 + r.below(30)));
        if (!plain)
            for (std::size_t k = kids.size() - 1; k > 2; --k)
                if (r.chance(20))
                    std::swap(kids[k], kids[2 + r.below(k - 1)]);
        Bytes e;
        for (auto &k : kids)
            e += k;
        t.entry = el(TrackEntry, e, slen(r));
        tks.push_back(std::move(t));
    }
    auto withCrc = [&](Bytes data, unsigned pct) { return o.crc && r.chance(pct) ? crcEl(data) + data : data; };
    Bytes info;
    std::uint64_t scale = r.chance(70) ? 1000000 : r.pick({ 100000u, 500000u, 1000u, 22675u });
    if (r.chance(80))
        info += uintEl(0x2AD7B1, scale);
    else
        scale = 1000000;
    if (r.chance(90))
        info += floatEl(0x4489, static_cast<double>(1 + r.below(10000000)) + 0.5 * r.coin(), r.coin());
    auto segTitle = randomText(r, 60);
    if (r.chance(60) && !segTitle.empty())
        info += el(0x7BA9, segTitle);
    info += el(0x4D80, "libmux " + std::to_string(r.below(100)));
    info += el(0x5741, r.chance(30) ? Bytes("w") : Bytes("writer application " + Bytes(r.below(60), 'w')));
    if (r.chance(50))
        info += uintEl(0x4461, r.below(800000000ull) * 1000000000ull, 8);
    if (r.chance(50))
        info += el(0x73A4, r.bytes(16));
    if (o.foreign && r.chance(20))
        info += el(0x7384, "segment.mkv");
    if (r.chance(10))
        info += voidEl(2 + r.below(40));
    Bytes infoEl = el(SegInfo, withCrc(info, 25), slen(r));
    Bytes tr;
    for (auto &t : tks)
        tr += t.entry;
    Bytes tracksEl = el(Tracks, withCrc(tr, 25), slen(r));
    // chapters
    std::vector<std::uint64_t> editionUids, chapterUids, attachUids;
    Bytes chaptersEl;
    if (o.chapters && r.chance(50)) {
        Bytes eds;
        auto ne = 1 + r.below(2);
        for (unsigned i = 0; i < ne; ++i) {
            Bytes e;
            auto eu = newUid();
            editionUids.push_back(eu);
            e += uintEl(0x45BC, eu);
            if (r.coin())
                e += uintEl(0x45BD, r.below(2));
            if (r.coin())
                e += uintEl(0x45DB, r.below(2));
            if (r.coin())
                e += uintEl(0x45DD, r.below(2));
            std::function<Bytes(int)> chap = [&](int depth) {
                Bytes c;
                auto cu = newUid();
                chapterUids.push_back(cu);
                c += uintEl(0x73C4, cu);
                auto st = r.below(1000000) * 1000000;
                c += uintEl(0x91, st);
                if (r.coin())
                    c += uintEl(0x92, st + r.below(1000000000));
                if (r.coin())
                    c += uintEl(0x98, r.below(2));
                if (r.coin())
                    c += uintEl(0x4598, r.below(2));
                for (unsigned k = 0, n = static_cast<unsigned>(r.below(3)); k < n; ++k) {
                    Bytes d = el(0x85, randomText(r, 30));
                    if (r.coin())
                        d += el(0x437C, r.pick({ "eng", "ger" }));
                    if (r.chance(20))
                        d += el(0x437D, "en-US");
                    if (r.chance(20))
                        d += el(0x437E, "us");
                    c += el(ChapterDisplay, d, slen(r));
                }
                if (depth < 2)
                    while (r.chance(20))
                        c += chap(depth + 1);
                return el(ChapterAtom, c, slen(r));
            };
            for (unsigned k = 0, n = static_cast<unsigned>(1 + r.below(4)); k < n; ++k)
                e += chap(0);
            eds += el(EditionEntry, e, slen(r));
        }
        chaptersEl = el(Chapters, withCrc(eds, 25), slen(r));
    }
    Bytes attachmentsEl;
    if (o.attachments && r.chance(40)) {
        Bytes as;
        for (unsigned i = 0, n = static_cast<unsigned>(1 + r.below(3)); i < n; ++i) {
            auto u = newUid();
            attachUids.push_back(u);
            Bytes a;
            if (r.chance(60))
                a += el(0x467E, randomText(r, 20));
            a += el(0x466E, "file" + std::to_string(i) + ".bin");
            a += el(0x4660, r.pick({ "image/png", "application/octet-stream", "font/ttf" }));
            a += el(0x465C, r.payload(r.chance(20) ? r.size(40000) : r.size(500)), slen(r));
            a += uintEl(0x46AE, u);
            if (o.foreign && r.chance(20))
                a += el(0x4675, r.payload(10));
            as += el(AttachedFile, a, slen(r));
        }
        attachmentsEl = el(Attachments, withCrc(as, 20), slen(r));
    }
    Bytes tagsEl;
    if (o.tags && r.chance(65)) {
        std::vector<TagEl> tags;
        for (unsigned i = 0, n = static_cast<unsigned>(1 + r.below(4)); i < n; ++i) {
            TagEl t;
            if (r.chance(70)) {
                t.hasLevel = true;
                t.level = r.pick({ 10u, 20u, 30u, 40u, 50u, 60u, 70u });
            }
            if (r.chance(30))
                t.type = r.pick({ "ALBUM", "MOVIE", "TRACK", "CHAPTER" });
            if (i && r.chance(30))
                t.tracks.push_back(r.pick(tks).uid);
            if (i && r.chance(20) && !editionUids.empty())
                t.editions.push_back(r.pick(editionUids));
            if (i && r.chance(20) && !chapterUids.empty())
                t.chapters.push_back(r.pick(chapterUids));
            if (i && r.chance(20) && !attachUids.empty())
                t.attachments.push_back(r.pick(attachUids));
            bool dup = false;
            for (auto &x : tags)
                dup |= x.level == t.level && x.type == t.type && x.tracks == t.tracks && x.editions == t.editions && x.chapters == t.chapters && x.attachments == t.attachments;
            if (dup)
                continue;
            for (unsigned k = 0, m = static_cast<unsigned>(1 + r.below(5)); k < m; ++k)
                t.fields.push_back(randomSimple(r, 0, o.rawTags));
            tags.push_back(std::move(t));
        }
        tagsEl = el(Tags, withCrc(makeTags(r, tags), 20), slen(r));
    }
    // --- clusters
    struct Cl {
        bool unknown = false, crc = false, position = false, prevSize = false;
        int sl = 0, posWidth = 0;
        std::uint64_t ts = 0;
        std::vector<std::pair<std::uint64_t, Bytes>> kids; // track (0: not a block), element
        int positionAt = 0;
    };
    std::vector<Cl> cls;
    auto nc = plain ? 1 + r.below(3) : (r.chance(4) ? 0 : 1 + r.below(o.maxClusters));
    bool anyUnknown = o.unknownSizes && r.chance(20);
    bool clCrc = o.crc && r.chance(20), clPos = r.chance(50), clPrev = r.chance(30);
    std::uint64_t ts = 0;
    for (unsigned i = 0; i < nc; ++i) {
        Cl c;
        c.unknown = anyUnknown;
        c.crc = clCrc && !c.unknown;
        c.position = clPos;
        c.posWidth = static_cast<int>(1 + r.below(5));
        c.prevSize = clPrev && i;
        c.sl = slen(r);
        c.ts = ts;
        auto nb = r.below(o.maxBlocks + 1);
        for (unsigned k = 0; k < nb; ++k) {
            auto &t = r.pick(tks);
            W b;
            if (t.number < 127)
                b.u8(0x80 | t.number);
            else
                b.be16(0x4000 | t.number);
            b.be16(static_cast<std::uint16_t>(static_cast<std::int16_t>(k * 20) - (r.chance(10) ? 30 : 0)));
            auto payload = r.payload(r.chance(10) ? r.size(9000) : 1 + r.size(300));
            if (r.chance(75)) {
                b.u8(r.pick({ 0x80u, 0x00u, 0x08u, 0x81u }));
                b.s(payload);
                c.kids.emplace_back(t.number, el(SimpleBlock, b.b, slen(r)));
            } else {
                b.u8(r.pick({ 0x00u, 0x08u }));
                b.s(payload);
                Bytes bg = el(BlockId, b.b);
                if (r.coin())
                    bg += uintEl(0x9B, r.below(1000));
                if (r.chance(30))
                    bg += uintEl(0xFB, 0xFFEC, 2);
                if (r.chance(20))
                    bg += el(0x75A1, el(0xA6, uintEl(0xEE, 1) + el(0xA5, r.payload(20))));
                if (r.chance(20))
                    bg += el(0x75A2, r.bytes(2));
                c.kids.emplace_back(t.number, el(BlockGroup, bg, slen(r)));
            }
            if (r.chance(5) && o.foreign)
                c.kids.emplace_back(0, voidEl(2 + r.below(80)));
            if (r.chance(3) && o.foreign)
                c.kids.emplace_back(0, el(0xAF, r.payload(12))); // EncryptedBlock
        }
        cls.push_back(std::move(c));
        ts += 100 + r.below(5000) + (r.chance(5) ? 100000 : 0);
    }
    // --- layout
    enum Part { PSeek, PInfo, PTracks, PChapters, PTags, PAttach, PCues, PVoid, PUnknown, PClusters };
    std::vector<int> before, after;
    std::vector<int> front = { PInfo, PTracks };
    bool hasCues = o.cues && r.chance(75) && !cls.empty() && [&] {
        for (auto &c : cls)
            for (auto &k : c.kids)
                if (k.first)
                    return true;
        return false;
    }();
    auto place = [&](int p, unsigned pctFront) { (r.chance(pctFront) ? front : after).push_back(p); };
    if (!chaptersEl.empty())
        place(PChapters, 85);
    if (!tagsEl.empty())
        place(PTags, 50);
    if (!attachmentsEl.empty())
        place(PAttach, 60);
    if (hasCues)
        place(PCues, 35);
    Bytes unknownEl;
    if (o.foreign && r.chance(12)) {
        unknownEl = r.coin() ? el(0x1B538667u, r.chance(20) ? Bytes() : el(0x7E8A, r.payload(1)) + el(0x7EA5, r.payload(r.size(100)))) : el(0x1AABBCC7u, r.payload(r.size(100)));
        place(PUnknown, 60);
    }
    if (!plain)
        for (std::size_t i = front.size() - 1; i > 0; --i)
            if (r.chance(15))
                std::swap(front[i], front[r.below(i + 1)]);
    for (std::size_t i = after.size(); i > 1; --i)
        if (r.chance(50))
            std::swap(after[i - 1], after[r.below(i)]);
    bool hasSeek = r.chance(80);
    std::vector<int> order;
    if (hasSeek)
        order.push_back(PSeek);
    for (auto p : front) {
        if (r.chance(12))
            order.push_back(PVoid);
        order.push_back(p);
    }
    if (r.chance(60))
        order.push_back(PVoid);
    order.push_back(PClusters);
    for (auto p : after) {
        order.push_back(p);
        if (r.chance(10))
            order.push_back(PVoid);
    }
    std::vector<std::uint64_t> voids;
    for (auto p : order)
        voids.push_back(p == PVoid ? (r.chance(30) ? 2 + r.below(70) : r.chance(50) ? 2 + r.size(400) : 2 + r.size(5000)) : 0);
    bool seekCluster = r.chance(50);
    int seekWidth = static_cast<int>(r.chance(50) ? 8 : 3 + r.below(5)), cueWidth = r.chance(50) ? 8 : static_cast<int>(3 + r.below(5));
    bool cueRel = r.chance(60);
    bool segUnknown = o.unknownSizes && r.chance(15);
    int unknownLen = r.chance(60) ? 1 : 8;
    bool segCrc = o.crc && !segUnknown && r.chance(10);
    int segSl = r.chance(50) ? 8 : static_cast<int>(r.below(6));
    bool clSeqRefs = r.chance(10);
    // cues: choose points
    struct CueP {
        std::size_t cl, kid;
        std::uint64_t track, time;
        bool refs;
    };
    std::vector<CueP> cps;
    bool cueGroups = r.chance(35);
    if (hasCues) {
        for (std::size_t i = 0; i < cls.size(); ++i)
            for (std::size_t k = 0; k < cls[i].kids.size(); ++k)
                if (cls[i].kids[k].first && (cps.empty() || r.chance(40)))
                    for (unsigned n = cueGroups && r.coin() ? 1 + r.below(8) : 1; n; --n)
                        cps.push_back({ i, k, cls[i].kids[k].first, cls[i].ts + k, clSeqRefs && r.coin() });
        if (cps.empty())
            hasCues = false;
    }
    Bytes head;
    {
        Bytes h;
        h += uintEl(0x4286, 1) + uintEl(0x42F7, 1) + uintEl(0x42F2, 4) + uintEl(0x42F3, 8);
        h += el(0x4282, webm ? "webm" : "matroska");
        h += uintEl(0x4287, 1 + r.below(4)) + uintEl(0x4285, 1 + r.below(2));
        if (r.chance(10))
            h += voidEl(2 + r.below(20));
        head = el(EBML, h, slen(r));
    }
    bool headVoid = r.chance(5) && !plain;
    // two passes with fixed-width positions
    std::map<int, std::uint64_t> partPos;
    std::vector<std::uint64_t> clPosv(cls.size(), 0), clSize(cls.size(), 0);
    std::vector<std::vector<std::uint64_t>> relPos(cls.size());
    Bytes seg;
    std::vector<std::pair<std::size_t, std::size_t>> structural;
    Rng passRng = r.fork();
    for (int pass = 0; pass < 2; ++pass) {
        Rng q = passRng;
        seg.clear();
        structural.clear();
        auto basePos = segCrc ? 6u : 0u;
        for (std::size_t i = 0; i < order.size(); ++i) {
            auto p = order[i];
            if (p != PVoid)
                partPos[p] = basePos + seg.size();
            auto st = seg.size();
            switch (p) {
            case PSeek: {
                Bytes s;
                auto add = [&](std::uint32_t id, std::uint64_t pos) { s += el(Seek, el(SeekID, idBytes(id)) + uintEl(SeekPosition, pos, seekWidth)); };
                for (auto x : order)
                    switch (x) {
                    case PInfo: add(SegInfo, partPos[PInfo]); break;
                    case PTracks: add(Tracks, partPos[PTracks]); break;
                    case PChapters: add(Chapters, partPos[PChapters]); break;
                    case PTags: add(Tags, partPos[PTags]); break;
                    case PAttach: add(Attachments, partPos[PAttach]); break;
                    case PCues:
                        if (hasCues)
                            add(Cues, partPos[PCues]);
                        break;
                    case PClusters:
                        if (seekCluster && !cls.empty())
                            add(ClusterId, clPosv[0]);
                    }
                seg += el(SeekHead, s, static_cast<int>(q.below(4)));
                break;
            }
            case PInfo: seg += infoEl; break;
            case PTracks: seg += tracksEl; break;
            case PChapters: seg += chaptersEl; break;
            case PTags: seg += tagsEl; break;
            case PAttach: seg += attachmentsEl; break;
            case PUnknown: seg += unknownEl; break;
            case PVoid: seg += voidEl(voids[i]); break;
            case PCues:
                if (hasCues) {
                    Bytes c, point;
                    for (auto &cp : cps) {
                        bool first = point.empty();
                        if (first)
                            point = uintEl(CueTime, cp.time);
                        Bytes t = uintEl(CueTrack, cp.track) + uintEl(CueClusterPosition, clPosv[cp.cl], cueWidth);
                        if (cueRel)
                            t += uintEl(CueRelativePosition, relPos[cp.cl].empty() ? 0 : relPos[cp.cl][cp.kid], q.chance(50) ? 8 : 3);
                        if (q.chance(20))
                            t += uintEl(CueDuration, q.below(1000));
                        if (q.chance(20))
                            t += uintEl(CueBlockNumber, 1 + q.below(100));
                        if (q.chance(10))
                            t += uintEl(CueCodecState, 0);
                        if (cp.refs)
                            t += el(CueReference, uintEl(CueRefTime, cp.time + 1));
                        point += el(CueTrackPositions, t, static_cast<int>(q.below(3)));
                        if (!cueGroups || &cp == &cps.back() || q.chance(12)) {
                            c += el(CuePoint, point, static_cast<int>(q.below(3)));
                            point.clear();
                        }
                    }
                    seg += el(Cues, o.crc && q.chance(20) ? crcEl(c) + c : c, static_cast<int>(q.below(5)));
                }
                break;
            case PClusters:
                for (std::size_t ci = 0; ci < cls.size(); ++ci) {
                    auto &c = cls[ci];
                    auto cst = seg.size();
                    clPosv[ci] = basePos + cst;
                    Bytes d = uintEl(Timestamp, c.ts);
                    auto posEl = [&] {
                        auto v = clPosv[ci];
                        // (width fixed to hold any position in the file)
                        return uintEl(Position, v, 3 + c.posWidth);
                    };
                    if (c.position)
                        d += posEl();
                    if (c.prevSize)
                        d += uintEl(PrevSize, clSize[ci - 1], 4);
                    auto pre = c.crc ? 6u : 0u;
                    relPos[ci].clear();
                    for (auto &k : c.kids) {
                        relPos[ci].push_back(pre + d.size());
                        d += k.second;
                    }
                    if (c.crc)
                        d = crcEl(d) + d;
                    if (c.unknown) {
                        W w;
                        w.s(idBytes(ClusterId));
                        if (unknownLen == 1)
                            w.u8(0xFF);
                        else
                            w.u8(1).be(0xFFFFFFFFFFFFFFull, 7);
                        seg += w.b + d;
                    } else
                        seg += el(ClusterId, d, c.sl);
                    clSize[ci] = seg.size() - cst;
                    structural.emplace_back(cst, cst + 24);
                }
                break;
            }
            if (p != PClusters)
                structural.emplace_back(st, seg.size());
        }
    }
    if (segCrc)
        seg = crcEl(seg) + seg;
    W out;
    out.s(head);
    if (headVoid)
        out.s(voidEl(2 + r.below(60)));
    if (segUnknown) {
        out.s(idBytes(Segment));
        if (unknownLen == 1)
            out.u8(0xFF);
        else
            out.u8(1).be(0xFFFFFFFFFFFFFFull, 7);
        out.s(seg);
    } else {
        Bytes e = el(Segment, Bytes(), 0);
        int n = std::max(segSl, sizeLength(seg.size()));
        out.s(idBytes(Segment)).be(seg.size() | (1ull << (7 * n)), n).s(seg);
    }
    g.file = out.b;
    auto base = g.file.size() - seg.size();
    g.structural.emplace_back(0, base);
    for (auto &[a, b] : structural)
        g.structural.emplace_back(base + a, std::min(base + b, g.file.size()));
    g.desc = strf("mkv %zu tracks %zu clusters%s%s%s%s%s order", tks.size(), cls.size(), anyUnknown ? " unknown-cluster-size" : "", segUnknown ? " unknown-segment-size" : "",
        segCrc ? " segcrc" : "", clCrc ? " clcrc" : "", clPos ? " position" : "");
    static const char *pn[] = { "Seek", "Info", "Tracks", "Chapters", "Tags", "Attach", "Cues", "Void", "Unknown", "Clusters" };
    for (auto p : order)
        g.desc += std::string(" ") + pn[p];
    return g;
}
} // namespace tp::mkv
