// C27: element trees nest exactly and validate true.
#include "any.h"
#include "edits.h"
#include "mkvfmt.h"
#include "mp4fmt.h"
#include "oggfmt.h"
#include <tagparser/matroska/ebmlelement.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/mp4/mp4atom.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/ogg/oggcontainer.h>
#include <functional>
#include <sstream>
namespace tp {
namespace {
struct Node {
    std::uint32_t id = 0;
    std::uint64_t off = 0, hdr = 0, size = 0; // size of the data
    std::uint64_t firstChild = 0; // relative to the start
    bool pad = false, unknown = false, leaf = false; // leaf: does not have any children
    std::vector<Node> kids;
    std::uint64_t end() const { return off + hdr + size; }
};
Node node(const mp4::Atom &a)
{
    Node n;
    n.id = static_cast<std::uint32_t>(rbe(a.type, 0, 4));
    n.off = a.off;
    n.hdr = a.hdr;
    n.size = a.size - a.hdr;
    n.pad = a.type == "free" || a.type == "skip";
    for (auto &k : a.kids)
        n.kids.push_back(node(k));
    if (!n.kids.empty())
        n.firstChild = a.hdr + a.extra;
    static const std::set<Bytes> leaves = { "free", "skip", "mdat", "ftyp", "mvhd", "tkhd", "mdhd", "hdlr", "stco", "co64", "stsz", "stsc", "stts", "ctts", "stss", "elst", "data", "sidx", "tfhd", "trun", "mfhd", "tfdt", "uuid", "name", "mean", "vmhd", "smhd" };
    n.leaf = leaves.count(a.type);
    return n;
}
Node node(const mkv::El &a)
{
    Node n;
    n.id = a.id;
    n.off = a.off;
    n.hdr = a.hdr;
    n.size = a.size;
    n.pad = a.id == 0xEC;
    n.unknown = a.unknownSize;
    for (auto &k : a.kids)
        n.kids.push_back(node(k));
    if (!n.kids.empty())
        n.firstChild = a.hdr;
    static const std::set<std::uint32_t> leaves = { 0xEC, 0xBF, 0xA3, 0xA1, 0xE7, 0xA7, 0xAB, 0xF1, 0xF0, 0xF7, 0xB3, 0x4282, 0x53AC, 0x53AB, 0x7BA9, 0x4D80, 0x5741, 0x4489, 0x2AD7B1, 0x45A3, 0x4487, 0x4485, 0x465C, 0x466E, 0x85, 0x73C4 };
    n.leaf = leaves.count(a.id);
    return n;
}
template <class V> std::vector<Node> nodes(const V &v)
{
    std::vector<Node> r;
    for (auto &a : v)
        r.push_back(node(a));
    return r;
}
std::uint64_t padding(const std::vector<Node> &v)
{
    std::uint64_t r = 0;
    for (auto &n : v)
        r += n.pad ? n.hdr + n.size : padding(n.kids);
    return r;
}
bool anyUnknown(const std::vector<Node> &v)
{
    for (auto &n : v)
        if (n.unknown || anyUnknown(n.kids))
            return true;
    return false;
}
std::string name(bool isMkv, std::uint32_t id)
{
    if (isMkv)
        return strf("%X", id);
    Bytes b;
    for (int k = 24; k >= 0; k -= 8)
        b += static_cast<char>(id >> k);
    return quote(b);
}
struct Tree {
    Ctx &c;
    bool isMkv;
    const Bytes &file;
    std::uint64_t seen = 0;
    void bad(const char *key, const Node &n, const std::string &msg) { c.fail(strf("%s-%s", isMkv ? "mkv" : "mp4", key), strf("%s at %llu: ", name(isMkv, n.id).c_str(), (unsigned long long)n.off) + msg); }

    template <class E> void compare(E *e, const Node &n, E *parent, unsigned level)
    {
        ++seen;
        if (!e->isParsed())
            bad("not-parsed", n, "element is not parsed");
        if (e->id() != n.id)
            bad("id", n, "ID is reported as " + name(isMkv, e->id()));
        if (e->startOffset() != n.off)
            bad("offset", n, strf("start offset is reported as %llu", (unsigned long long)e->startOffset()));
        if (e->headerSize() != n.hdr || e->idLength() + e->sizeLength() != n.hdr)
            bad("header", n, strf("header has %llu bytes, reported %u + %u = %u", (unsigned long long)n.hdr, (unsigned)e->idLength(), (unsigned)e->sizeLength(), (unsigned)e->headerSize()));
        if (e->dataSize() != n.size)
            bad("size", n, strf("has %llu bytes of data, reported %llu", (unsigned long long)n.size, (unsigned long long)e->dataSize()));
        if (e->totalSize() != n.hdr + n.size || e->endOffset() != n.end() || e->dataOffset() != n.off + n.hdr)
            bad("end", n, "total size, end or data offset do not add up");
        if (e->isPadding() != n.pad)
            bad("padding", n, strf("padding is reported as %d", (int)e->isPadding()));
        if (e->parent() != parent || e->level() != level)
            bad("parent", n, strf("level %u is reported as %u (or wrong parent)", level, (unsigned)e->level()));
        if (e->relativeStartOffset() != n.off - (parent ? parent->startOffset() : 0))
            bad("relative", n, "relative start offset is wrong");
        if (!n.kids.empty()) {
            if (!e->isParent() || e->firstChildOffset() != n.firstChild)
                bad("first-child", n, strf("first child is at %llu, reported %llu", (unsigned long long)n.firstChild, (unsigned long long)e->firstChildOffset()));
            auto *l = e->lastChild();
            if (!l || l->startOffset() != n.kids.back().off)
                bad("last-child", n, "last child is not the last one");
        }
        if (!n.kids.empty() || n.leaf)
            siblings(e->firstChild(), n.kids, e, level + 1, n.off);
    }
    template <class E> void siblings(E *e, const std::vector<Node> &v, E *parent, unsigned level, std::uint64_t off)
    {
        std::size_t i = 0;
        for (; e && i < v.size(); e = e->nextSibling(), ++i)
            compare(e, v[i], parent, level);
        if (i < v.size())
            bad("missing-element", v[i], "not present in the tree");
        if (e)
            c.fail(strf("%s-extra-element", isMkv ? "mkv" : "mp4"), strf("tree contains an element at %llu (within the one at %llu) which does not exist", (unsigned long long)e->startOffset(), (unsigned long long)off));
    }
    // parses everything in random order
    template <class E> void parseLazily(E *first, Rng &r, bool ordered, T::Diagnostics &diag)
    {
        std::vector<E *> todo{ first };
        std::size_t guard = 0;
        while (!todo.empty() && ++guard < 400000) {
            auto i = ordered ? todo.size() - 1 : r.below(todo.size());
            auto *e = todo[i];
            todo.erase(todo.begin() + static_cast<std::ptrdiff_t>(i));
            try {
                r.chance(5) && !ordered ? e->reparse(diag) : e->parse(diag);
            } catch (const T::Failure &) {
                continue;
            }
            if (auto *s = e->nextSibling())
                todo.push_back(s);
            if (auto *f = e->firstChild())
                todo.push_back(f);
        }
    }
};
const Node *find(const std::vector<Node> &v, std::uint32_t id, std::size_t from = 0)
{
    for (; from < v.size(); ++from)
        if (v[from].id == id)
            return &v[from];
    return nullptr;
}
// all sibling lists with their positions
struct Place {
    const std::vector<Node> *list;
    std::vector<std::size_t> path; // indices leading to list
};
void places(const std::vector<Node> &v, std::vector<std::size_t> path, std::vector<Place> &out)
{
    if (v.empty())
        return;
    out.push_back({ &v, path });
    for (std::size_t i = 0; i < v.size(); ++i) {
        auto p = path;
        p.push_back(i);
        places(v[i].kids, p, out);
    }
}
template <class E> E *walk(E *first, const std::vector<std::size_t> &path, T::Diagnostics &diag)
{
    auto *e = first;
    for (std::size_t k = 0; k < path.size(); ++k) {
        for (std::size_t i = 0; e; e = e->nextSibling(), ++i) {
            e->parse(diag);
            if (i == path[k])
                break;
        }
        if (!e)
            return nullptr;
        e = e->firstChild();
    }
    return e;
}
template <class E> void searches(Tree &t, E *first, const std::vector<Node> &tree, Rng &r, T::Diagnostics &diag)
{
    std::vector<Place> all;
    places(tree, {}, all);
    std::vector<std::uint32_t> ids;
    for (auto &p : all)
        for (auto &n : *p.list)
            ids.push_back(n.id);
    auto someId = [&](const std::vector<Node> &near) { return r.chance(55) ? r.pick(near).id : r.chance(80) ? r.pick(ids) : static_cast<std::uint32_t>(t.isMkv ? 0x4FFF : 0x41424344); };
    auto at = [](const Node *n) { return n ? strf("%llu", (unsigned long long)n->off) : std::string("none"); };
    auto verify = [&](const char *what, E *e, const Node *want, const std::string &args) {
        auto got = e ? strf("%llu", (unsigned long long)e->startOffset()) : std::string("none");
        if (got != at(want))
            t.c.fail(strf("%s-%s", t.isMkv ? "mkv" : "mp4", what), strf("%s(%s) yields %s, expected %s", what, args.c_str(), got.c_str(), at(want).c_str()));
        t.c.count(want ? "searches-found" : "searches-none");
    };
    for (auto k = r.range(4, 12); k; --k) {
        auto &p = all[r.below(all.size())];
        auto *e = walk(first, p.path, diag);
        if (!e) {
            t.c.fail("walk", "element has vanished");
            return;
        }
        auto i = r.below(p.list->size());
        for (std::size_t n = 0; n < i && e; ++n) {
            e->parse(diag);
            e = e->nextSibling();
        }
        if (!e) {
            t.c.fail("walk", "element has vanished");
            return;
        }
        auto &n = (*p.list)[i];
        switch (r.below(4)) {
        case 0: {
            if (n.kids.empty() && !n.leaf)
                break;
            auto id = n.kids.empty() ? r.pick(ids) : someId(n.kids);
            verify("childById", e->childById(id, diag), find(n.kids, id), strf("%llu, ", (unsigned long long)n.off) + name(t.isMkv, id));
            break;
        }
        case 1: {
            auto id = someId(*p.list);
            verify("siblingById", e->siblingById(id, diag), find(*p.list, id, i + 1), strf("%llu, ", (unsigned long long)n.off) + name(t.isMkv, id));
            break;
        }
        case 2: {
            auto id = someId(*p.list);
            verify("siblingByIdIncludingThis", e->siblingByIdIncludingThis(id, diag), find(*p.list, id, i), strf("%llu, ", (unsigned long long)n.off) + name(t.isMkv, id));
            break;
        }
        default: { // first match on each level
            std::vector<std::uint32_t> ids;
            const auto *list = p.list;
            const Node *want = nullptr;
            auto from = i;
            auto len = r.range(1, 3);
            auto sure = true;
            for (unsigned d = 0; d < len; ++d) {
                auto id = list && !list->empty() ? someId(*list) : someId(tree);
                if (id == 0x7374626Cu && false)
                    break;
                ids.push_back(id);
                if (d && !list) {
                    want = nullptr;
                    continue;
                }
                want = find(*list, id, from);
                from = 0;
                if (want && want->kids.empty() && !want->leaf && d + 1 < len)
                    sure = false; // not judged what its children are
                list = want ? &want->kids : nullptr;
            }
            if (!sure)
                break;
            auto *got = ids.size() == 1 ? e->subelementByPath(diag, ids[0]) : ids.size() == 2 ? e->subelementByPath(diag, ids[0], ids[1]) : e->subelementByPath(diag, ids[0], ids[1], ids[2]);
            std::string args = strf("%llu", (unsigned long long)n.off);
            for (auto id : ids)
                args += ", " + name(t.isMkv, id);
            verify("subelementByPath", got, want, args);
        }
        }
    }
}
template <class E> void copies(Tree &t, E *first, const std::vector<Node> &tree, Rng &r, T::Diagnostics &diag, T::AbortableProgressFeedback &progress)
{
    std::vector<Place> all;
    places(tree, {}, all);
    for (auto k = r.range(2, 6); k; --k) {
        auto &p = all[r.below(all.size())];
        auto *e = walk(first, p.path, diag);
        auto i = r.below(p.list->size());
        for (std::size_t n = 0; n < i && e; ++n) {
            e->parse(diag);
            e = e->nextSibling();
        }
        if (!e) {
            t.c.fail("walk", "element has vanished");
            return;
        }
        auto &n = (*p.list)[i];
        e->parse(diag);
        std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
        std::ostream &o = s;
        auto from = n.off, len = n.hdr + n.size;
        const char *what = "copyEntirely";
        switch (r.below(4)) {
        case 0:
            what = "copyHeader";
            len = n.hdr;
            e->copyHeader(o, diag, &progress);
            break;
        case 1:
            what = "copyWithoutChilds";
            if (n.kids.empty() && !n.leaf)
                continue;
            if (!n.kids.empty())
                len = n.firstChild;
            e->copyWithoutChilds(o, diag, &progress);
            break;
        case 2:
            what = "buffer";
            e->makeBuffer();
            if (r.coin())
                e->copyBuffer(o);
            else
                e->copyPreferablyFromBuffer(o, diag, &progress);
            if (e->buffer() && Bytes(e->buffer().get(), e->totalSize()) != t.file.substr(from, len))
                t.bad("buffer", n, "buffered bytes differ from the file");
            e->discardBuffer();
            break;
        default:
            if (r.coin())
                e->copyEntirely(o, diag, &progress);
            else
                e->copyPreferablyFromBuffer(o, diag, &progress);
        }
        t.c.count("copies");
        if (s.str() != t.file.substr(from, len))
            t.bad(what, n, strf("%s yields %zu bytes which are not the %llu bytes of the file", what, s.str().size(), (unsigned long long)len));
    }
}
T::DiagLevel levelOf(const Result &r)
{
    return r.outcome == Outcome::Ok ? r.level() : T::DiagLevel::Fatal;
}

// --- single corruption
struct Damage {
    std::string what;
    Bytes bytes;
};
void put(Bytes &b, std::uint64_t off, unsigned len, std::uint64_t v)
{
    for (unsigned k = 0; k < len; ++k)
        b[off + k] = static_cast<char>(v >> (8 * (len - 1 - k)));
}
struct Slot {
    const Node *n;
    std::uint64_t parentEnd;
    std::uint32_t parent;
    unsigned level;
};
void slots(const std::vector<Node> &v, std::uint64_t end, std::uint32_t parent, unsigned level, std::vector<Slot> &out)
{
    for (auto &n : v) {
        out.push_back({ &n, end, parent, level });
        slots(n.kids, n.unknown ? 0 : n.end(), n.id, level + 1, out);
    }
}
std::optional<Damage> damageMp4(Rng &r, const Bytes &file, const std::vector<Node> &tree, bool onlySizes = false)
{
    std::vector<Slot> all;
    slots(tree, file.size(), 0, 0, all);
    auto s = r.pick(all);
    auto &n = *s.n;
    Damage d{ "", file };
    if (rbe(file, n.off, 4) == 0)
        return std::nullopt;
    auto avail = s.parentEnd - n.off;
    if (onlySizes || r.chance(60)) { // beyond parent
        std::uint64_t v;
        if (n.hdr == 16) {
            v = avail + (r.coin() ? 1 : r.range(1, 1ull << r.range(1, 62)));
            put(d.bytes, n.off + 8, 8, v);
        } else {
            v = avail + (r.coin() ? 1 : r.range(1, 0xFFFFFFFFu - avail));
            put(d.bytes, n.off, 4, v);
        }
        d.what = strf("size of %s at %llu increased to %llu", name(false, n.id).c_str(), (unsigned long long)n.off, (unsigned long long)v);
    } else { // smaller than its header
        auto v = n.hdr == 16 ? r.range(2, 15) : r.range(2, 7);
        n.hdr == 16 ? put(d.bytes, n.off + 8, 8, v) : put(d.bytes, n.off, 4, v);
        d.what = strf("size of %s at %llu decreased to %llu", name(false, n.id).c_str(), (unsigned long long)n.off, (unsigned long long)v);
    }
    return d;
}
std::optional<Damage> damageMkv(Rng &r, const Bytes &file, const std::vector<Node> &tree, bool onlySizes = false)
{
    std::vector<Slot> all;
    slots(tree, file.size(), 0, 0, all);
    Damage d{ "", file };
    std::vector<const Node *> segments;
    for (auto &n : tree)
        if (n.id == 0x18538067)
            segments.push_back(&n);
    if (!onlySizes && r.chance(60) && !segments.empty()) { // addresses
        const auto &seg = *segments[r.below(segments.size())];
        std::vector<Slot> within, wanted;
        slots(seg.kids, seg.end(), seg.id, 1, within);
        for (auto &s : within)
            if (s.n->size && s.n->size <= 8 && (s.n->id == 0xF1 || s.n->id == 0xF0 || s.n->id == 0xA7 || s.n->id == 0xAB))
                wanted.push_back(s);
        if (wanted.empty())
            return std::nullopt;
        auto &s = wanted[r.below(wanted.size())];
        const auto &n = *s.n;
        auto len = static_cast<unsigned>(n.size);
        auto max = len == 8 ? ~0ull >> 1 : (1ull << (8 * len)) - 1;
        auto old = rbe(file, n.off + n.hdr, static_cast<int>(len));
        std::uint64_t v = old;
        switch (n.id) {
        case 0xF1: { // must not be a cluster: level 1 elements of different kind, anything within a block
            std::vector<std::uint64_t> other;
            for (auto &k : seg.kids)
                if (k.id != 0x1F43B675)
                    other.push_back(k.off - seg.off - seg.hdr);
            other.push_back(seg.size);
            other.push_back(std::min<std::uint64_t>(max, seg.size + r.range(1, 1000000)));
            v = r.pick(other);
            break;
        }
        case 0xF0: { // must not be a block: another child of the cluster or beyond the end of the file
            const Node *cues = nullptr, *track = nullptr;
            for (auto &k : within)
                if (k.n->id == 0xB7)
                    for (auto &q : k.n->kids)
                        if (&q == &n)
                            track = k.n;
            (void)cues;
            const Node *pos = track ? find(track->kids, 0xF1) : nullptr;
            if (!pos)
                return std::nullopt;
            auto cluster = rbe(file, pos->off + pos->hdr, static_cast<int>(pos->size)) + seg.off + seg.hdr;
            std::vector<std::uint64_t> other;
            for (auto &k : seg.kids)
                if (k.off == cluster)
                    for (auto &q : k.kids)
                        if (q.id != 0xA3 && q.id != 0xA0 && q.id != 0xA1)
                            other.push_back(q.off - k.off - k.hdr);
            other.push_back(file.size() - seg.off);
            other.push_back(file.size() + r.range(0, 1000000));
            v = r.pick(other);
            break;
        }
        default:
            do
                v = r.coin() ? old + r.pick({ 1, -1, 2, 16, -16, 256 }) : r.below(max);
            while (!v);
        }
        if (v > max || v == old || v == 0)
            return std::nullopt;
        put(d.bytes, n.off + n.hdr, len, v);
        d.what = strf("%X at %llu changed from %llu to %llu", n.id, (unsigned long long)n.off, (unsigned long long)old, (unsigned long long)v);
        return d;
    }
    auto &s = all[r.below(all.size())];
    auto &n = *s.n;
    if (n.unknown || !s.parentEnd)
        return std::nullopt;
    unsigned idLen = n.id > 0xFFFFFF ? 4 : n.id > 0xFFFF ? 3 : n.id > 0xFF ? 2 : 1;
    auto len = static_cast<unsigned>(n.hdr - idLen);
    std::uint64_t max = (1ull << (7 * len)) - 2, avail = s.parentEnd - n.off - n.hdr;
    if (avail >= max)
        return std::nullopt;
    auto v = r.coin() ? avail + 1 : r.range(avail + 1, max);
    put(d.bytes, n.off + idLen, len, v | 1ull << (7 * len));
    d.what = strf("size of %X at %llu changed from %llu to %llu (parent ends at %llu)", n.id, (unsigned long long)n.off, (unsigned long long)n.size, (unsigned long long)v, (unsigned long long)s.parentEnd);
    return d;
}
void caseC27(Ctx &c)
{
    auto &r = c.rng;
    auto kind = r.below(10);
    auto path = c.path(kind < 4 ? "a.mp4" : kind < 9 ? "a.mkv" : "a.ogg");
    auto isMkv = kind >= 4;
    Bytes file;
    auto wrote = false;
    if (kind == 9) {
        ogg::GOptions o;
        o.conformantOnly = r.coin();
        auto g = ogg::generate(r, o);
        file = g.file;
        c.note(g.desc + "; ");
    } else if (isMkv) {
        mkv::GOptions o;
        o.unknownSizes = r.chance(30);
        o.maxClusters = static_cast<unsigned>(r.range(1, 8));
        auto g = mkv::generate(r, o);
        file = g.file;
        c.note(g.desc + "; ");
    } else {
        auto g = mp4::generate(r);
        file = g.file;
        c.note(g.desc + "; ");
    }
    writeFile(path, file);
    c.artifact("input", file);
    if (r.chance(35)) { // use what the library writes
        Media m(path);
        Cfg cfg = randomCfg(r);
        cfg.savePath.clear();
        cfg.backupDir.clear();
        applyCfg(m.info, cfg);
        if (m.parse().outcome == Outcome::Ok) {
            c.note("written with " + cfg.toString() + ": " + randomEdit(r, m.info) + "; ");
            if (m.apply().outcome == Outcome::Ok) {
                wrote = true;
                file = readFile(path);
                c.artifact("written", file);
            } else
                writeFile(path, file);
        }
    }
    if (kind == 9) {
        { // sound
            Media m(path);
            m.info.setForceFullParse(true);
            auto res = m.run([&](T::Diagnostics &d) { m.info.open(true); m.info.parseContainerFormat(d, m.progress); m.info.parseTracks(d, m.progress); });
            // (removing the tag of an Ogg stream removes the mandatory comment header)
            if (levelOf(res) >= T::DiagLevel::Warning && !(wrote && res.diagText().find("contain Vorbis comment") != std::string::npos))
                c.fail(wrote ? "ogg-sound-written" : "ogg-sound", "sound file yields " + res.diagText() + res.what);
        }
        std::vector<std::size_t> pages;
        for (auto p : ogg::inspect(file).pages)
            pages.push_back(p.off);
        for (auto k = r.range(2, 6); k; --k) {
            auto off = r.pick(pages);
            auto size = ogg::Page().size;
            for (auto &p : ogg::inspect(file).pages)
                if (p.off == off)
                    size = p.size;
            auto b = file;
            // checksum or contents (not the header fields which make up the page)
            auto lacing = static_cast<unsigned char>(file[off + 26]);
            std::uint64_t at = r.coin() || size == 27u + lacing ? off + 22 + r.below(4) : off + 27u + lacing + r.below(size - 27 - lacing);
            b[at] = static_cast<char>(b[at] ^ (1 << r.below(8)));
            writeFile(path, b);
            Media m(path);
            m.info.setForceFullParse(true);
            auto res = m.parse();
            if (levelOf(res) < T::DiagLevel::Warning)
                c.fail("ogg-checksum", strf("wrong checksum of the page at %zu (byte %llu) is not reported", off, (unsigned long long)at));
            c.count("damages");
        }
        c.cover("ogg");
        c.nontrivial = true;
        return;
    }
    const auto tree = isMkv ? nodes(mkv::parse(file)) : nodes(mp4::parse(file));
    Tree t{ c, isMkv, file };
    auto judge = [&](auto *container) {
        using E = std::remove_pointer_t<decltype(container->firstElement())>;
        (void)sizeof(E);
        T::Diagnostics diag;
        T::AbortableProgressFeedback progress;
        IoScope scope;
        container->parseHeader(diag, progress);
        auto *first = container->firstElement();
        if (!first)
            c.failNow("no-tree", "there is no element tree");
        auto pre = r.coin();
        // searching and copying in a tree which is (not) parsed yet
        auto unknown = anyUnknown(tree);
        if (pre && !unknown) {
            searches(t, first, tree, r, diag);
            copies(t, first, tree, r, diag, progress);
        }
        t.parseLazily(first, r, unknown, diag);
        t.siblings(first, tree, static_cast<E *>(nullptr), 0, 0);
        searches(t, first, tree, r, diag);
        copies(t, first, tree, r, diag, progress);
        if (diag.level() >= T::DiagLevel::Warning) {
            std::string text;
            for (auto &m : diag)
                if (m.level() >= T::DiagLevel::Warning)
                    text += m.context() + ": " + m.message() + "; ";
            c.fail(strf("%s-sound", isMkv ? "mkv" : "mp4"), "walking the tree of a sound file yields " + text);
        }
        c.mix(strf("%llu", (unsigned long long)t.seen));
    };
    auto container = [&](Media &m, auto f) {
        if (isMkv) {
            auto *k = dynamic_cast<T::MatroskaContainer *>(m.info.container());
            k ? f(k) : c.failNow("container", "not recognised");
        } else {
            auto *k = dynamic_cast<T::Mp4Container *>(m.info.container());
            k ? f(k) : c.failNow("container", "not recognised");
        }
    };
    { // tree
        Media m(path);
        Result res;
        if (r.coin()) {
            res = m.run([&](T::Diagnostics &d) { m.info.open(true); m.info.parseContainerFormat(d, m.progress); });
        } else {
            m.info.setForceFullParse(r.coin());
            res = m.parse();
        }
        try {
            container(m, judge);
        } catch (const T::Failure &e) {
            c.fail("exception", std::string("inspecting the tree of a sound file yields ") + e.what());
        }
    }
    { // validation
        Media m(path);
        m.info.setForceFullParse(true);
        auto res = m.run([&](T::Diagnostics &d) { m.info.open(true); m.info.parseContainerFormat(d, m.progress); });
        if (levelOf(res) >= T::DiagLevel::Warning)
            c.fail(strf("%s-valid%s", isMkv ? "mkv" : "mp4", wrote ? "-written" : ""), "validating a sound file yields " + res.diagText() + res.what);
        if (m.info.paddingSize() != padding(tree))
            c.fail("padding", strf("padding is reported as %llu, file contains %llu bytes", (unsigned long long)m.info.paddingSize(), (unsigned long long)padding(tree)));
        auto everything = r.coin();
        if (everything)
            m.parse();
        std::uint64_t pad = 0;
        auto again = m.run([&](T::Diagnostics &d) {
            container(m, [&](auto *k) {
                k->validateElementStructure(d, m.progress, &pad);
                if constexpr (std::is_same_v<decltype(k), T::MatroskaContainer *>)
                    k->validateIndex(d, m.progress);
            });
        });
        if (levelOf(again) >= T::DiagLevel::Warning)
            c.fail(strf("%s-valid-again", isMkv ? "mkv" : "mp4"), strf("validating a sound file again%s yields ", everything ? " after parsing everything" : "") + again.diagText() + again.what);
        if (pad != padding(tree))
            c.fail("padding", strf("padding is reported as %llu, file contains %llu bytes", (unsigned long long)pad, (unsigned long long)padding(tree)));
        c.count("validations");
    }
    for (auto k = r.range(2, 6); k; --k) {
        auto d = isMkv ? damageMkv(r, file, tree) : damageMp4(r, file, tree);
        if (!d)
            continue;
        writeFile(path, d->bytes);
        Media m(path);
        m.info.setForceFullParse(true);
        auto res = m.run([&](T::Diagnostics &dg) { m.info.open(true); m.info.parseContainerFormat(dg, m.progress); });
        if (levelOf(res) < T::DiagLevel::Warning && m.info.containerParsingStatus() == T::ParsingStatus::Ok) {
            c.artifact("damaged", d->bytes);
            c.fail(strf("%s-undetected", isMkv ? "mkv" : "mp4"), "validation does not report " + d->what);
        }
        c.count("damages");
        c.mix(d->what);
    }
    c.cover(strf("%s%d%d", isMkv ? "mkv" : "mp4", wrote, anyUnknown(tree)));
    c.nontrivial = true;
}
PropReg reg("C27", caseC27);
}
// declared in hostile.h
Bytes enlargedElement(Rng &r, bool isMkv, const Bytes &file, std::string &what)
{
    auto d = isMkv ? damageMkv(r, file, nodes(mkv::parse(file)), true) : damageMp4(r, file, nodes(mp4::parse(file)), true);
    what = d ? d->what : std::string();
    return d ? d->bytes : Bytes();
}
}
