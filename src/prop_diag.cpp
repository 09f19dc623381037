// C24: damage which loses information is diagnosed, sound files draw no errors.
#include "any.h"
#include "edits.h"
#include "hostile.h"
#include "mp4fmt.h"
#include "oggfmt.h"
#include "mkvfmt.h"
#include "rawfmt.h"
#include <functional>
#include <set>
namespace tp {
namespace {
std::string normalized(const std::string &s)
{
    std::string r;
    for (auto ch : s)
        if (!isdigit(static_cast<unsigned char>(ch)))
            r += ch;
        else if (r.empty() || r.back() != '#')
            r += '#';
    return r.substr(0, 90);
}
// what is reported about contents which are unusual or not supported (and do exist)
bool justified(const AnyGen &g, const Bytes &file, const std::string &m)
{
    auto starts = [&](const char *s) { return m.compare(0, strlen(s), s) == 0; };
    if (g.fam == Fam::Raw) {
        auto in = raw::inspect(file, g.keepJunk);
        if (starts("ID3v2 tag seems to be empty")) // tags without frames may be written
            for (auto &t : in.tags)
                if (t.frames.empty())
                    return true;
        if (starts("There is more than just one ID3v2 header"))
            return in.tags.size() > 1;
        if (starts("Found an APE tag at the end"))
            return !in.ape.empty();
        if (starts("Found an APE tag at the beg"))
            return file.find("APETAGEX") != Bytes::npos;
        if (m.find("bytes of junk skipped") != Bytes::npos)
            return in.junk != 0;
    } else if (g.fam == Fam::Mp4) {
        if (starts("Multiple \"data\" child atom"))
            for (auto &i : mp4::inspect(file).items)
                if (i.data.size() > 1)
                    return true;
        if (starts("No ilst atom found"))
            return mp4::inspect(file).items.empty();
        if (starts("Unexpected data type indicator"))
            return file.find("----") != Bytes::npos || file.find("covr") != Bytes::npos;
    } else if (g.fam == Fam::Ogg) {
        if (m.find("FLAC-to-Ogg mapping header") != Bytes::npos || starts("Unable to parse stream at")) // removed
            for (auto &s : ogg::inspect(file).streams)
                if (s.codec == "flac" && !s.comment)
                    return true;
    } else if (g.fam == Fam::Mkv) {
        if (starts("The rating is not a number"))
            return true;
    }
    return false;
}

struct Damaged {
    Bytes bytes;
    std::string what, key;
};
void putBe(Bytes &b, std::size_t off, unsigned n, std::uint64_t v)
{
    for (unsigned k = 0; k < n; ++k)
        b[off + k] = static_cast<char>(v >> (8 * (n - 1 - k)));
}
void putLe32(Bytes &b, const std::vector<std::size_t> &map, std::size_t at, std::uint64_t v)
{
    for (unsigned k = 0; k < 4; ++k)
        b[map.at(at + k)] = static_cast<char>(v >> (8 * k));
}
// damages the vendor or a field of a Vorbis comment (map: file offsets of its bytes)
void damageComment(Rng &r, Damaged &d, const std::vector<std::size_t> &map, std::size_t body)
{
    auto get = [&](std::size_t at) {
        std::uint64_t v = 0;
        for (unsigned k = 0; k < 4; ++k)
            v |= static_cast<std::uint64_t>(static_cast<unsigned char>(d.bytes[map.at(at + k)])) << (8 * k);
        return v;
    };
    std::vector<std::size_t> lengths{ body };
    auto pos = body + 4 + get(body);
    auto count = get(pos);
    auto countAt = pos;
    pos += 4;
    for (std::uint64_t k = 0; k < count; ++k) {
        lengths.push_back(pos);
        pos += 4 + get(pos);
    }
    if (r.chance(25)) {
        // further fields are not there (unless there is padding which looks like empty fields)
        auto v = count + (r.coin() ? map.size() : r.range(map.size(), 0xFFFFFFFFu - count));
        putLe32(d.bytes, map, countAt, v);
        d.what = strf("number of fields changed from %llu to %llu", (unsigned long long)count, (unsigned long long)v);
        d.key = "count";
        return;
    }
    auto at = r.pick(lengths);
    auto v = map.size() - at - 4 + (r.coin() ? 1 : r.range(1, 0xFFFFFFFFu - map.size()));
    putLe32(d.bytes, map, at, v);
    d.what = strf("length of %s changed from %llu to %llu", at == body ? "vendor" : "field", (unsigned long long)get(at), (unsigned long long)v);
    d.key = at == body ? "vendor" : "field";
}
// cuts the end of a leaf off or removes an atom, sizes of parents are adjusted
bool damageMp4Leaf(Rng &r, Damaged &d)
{
    static const std::set<Bytes> leaves = { "mvhd", "tkhd", "mdhd", "hdlr", "stsd", "stsz", "stz2", "stsc", "stco", "co64", "stts", "data" }, mandatory = { "moov", "mvhd", "tkhd", "mdia", "mdhd", "hdlr", "minf", "stbl", "stsd", "stsz", "stsc", "stco", "co64" };
    struct Hit {
        std::vector<const mp4::Atom *> chain;
    };
    std::vector<Hit> hits;
    auto remove = r.coin();
    auto atoms = mp4::parse(d.bytes);
    std::function<void(const std::vector<mp4::Atom> &, std::vector<const mp4::Atom *>)> go = [&](const auto &v, auto chain) {
        for (auto &a : v) {
            auto c2 = chain;
            c2.push_back(&a);
            if (a.type == "hdlr" && (chain.empty() || chain.back()->type != "mdia"))
                continue;
            if ((remove ? mandatory : leaves).count(a.type))
                hits.push_back({ c2 });
            go(a.kids, c2);
        }
    };
    go(atoms, {});
    if (hits.empty())
        return false;
    auto &chain = r.pick(hits).chain;
    auto &a = *chain.back();
    // the end of texts is not missed
    auto minCut = a.type == "data" ? a.dataSize() - std::min<std::uint64_t>(a.dataSize(), 7) : a.type == "hdlr" ? a.dataSize() - std::min<std::uint64_t>(a.dataSize(), 23) : 1;
    if (!remove && (!a.dataSize() || minCut > a.dataSize()))
        return false;
    auto cut = remove ? a.size : r.range(minCut, a.dataSize());
    if (!cut)
        return false;
    for (auto *p : chain) {
        if (remove && p == &a)
            break;
        if (rbe(d.bytes, p->off, 4) == 0)
            continue;
        p->hdr == 16 ? putBe(d.bytes, p->off + 8, 8, p->size - cut) : putBe(d.bytes, p->off, 4, p->size - cut);
    }
    d.bytes.erase(a.end() - cut, cut);
    d.what = strf("%s of %s (%llu of %llu bytes)", remove ? "removal" : "cut", quote(a.type).c_str(), (unsigned long long)cut, (unsigned long long)a.size);
    d.key = (remove ? "removed-" : "cut-") + a.type;
    return true;
}
std::optional<Damaged> damage(Rng &r, const AnyGen &g, const Bytes &file)
{
    Damaged d;
    d.bytes = file;
    switch (g.fam) {
    case Fam::Mp4:
    case Fam::Mkv: {
        auto isMkv = g.fam == Fam::Mkv;
        switch (r.below(isMkv ? 2 : 3)) {
        case 0: {
            if (isMkv)
                for (auto &e : mkv::parse(file))
                    if (e.unknownSize)
                        return std::nullopt;
            if (!isMkv) // the end of the last atom is not known
                for (auto &a : mp4::parse(file))
                    if (rbe(file, a.off, 4) == 0)
                        return std::nullopt;
            std::size_t cut = r.below(file.size());
            if (!isMkv && r.chance(80))
                for (auto &a : mp4::parse(file)) // prefer moov
                    if (a.type == "moov")
                        cut = a.off + r.below(a.size);
            if (!isMkv)
                for (auto &a : mp4::parse(file))
                    if (a.off == cut && cut)
                        ++cut;
            if (cut < 300 || cut >= file.size())
                return std::nullopt;
            d.bytes.resize(cut);
            d.what = strf("truncation to %zu of %zu bytes", cut, file.size());
            d.key = "truncated";
            return d;
        }
        case 1:
            d.bytes = enlargedElement(r, isMkv, file, d.what);
            d.key = "size";
            if (d.bytes.empty())
                return std::nullopt;
            return d;
        default:
            if (!damageMp4Leaf(r, d))
                return std::nullopt;
            return d;
        }
    }
    case Fam::Ogg: {
        auto in = ogg::inspect(file);
        if (r.chance(30)) { // a page is missing
            std::vector<const ogg::Page *> inner;
            for (auto &p : in.pages) {
                auto later = false;
                for (auto &q : in.pages)
                    later |= q.serial == p.serial && q.off > p.off;
                if (p.seq && later)
                    inner.push_back(&p);
            }
            if (inner.empty())
                return std::nullopt;
            auto &p = *r.pick(inner);
            d.bytes.erase(p.off, p.size);
            d.what = strf("removal of the page at %llu", (unsigned long long)p.off);
            d.key = "page-missing";
            return d;
        }
        if (r.chance(30)) { // capture pattern
            auto &p = in.pages[r.below(in.pages.size())];
            if (!p.off)
                return std::nullopt;
            auto at = p.off + r.below(4);
            d.bytes[at] = static_cast<char>(d.bytes[at] ^ (1 << r.below(8)));
            d.what = strf("capture pattern of the page at %llu", (unsigned long long)p.off);
            d.key = "capture-pattern";
            return d;
        }
        if (r.chance(30)) { // truncated within a page
            auto &p = in.pages[r.below(in.pages.size())];
            d.bytes.resize(p.off + r.range(1, p.size - 1));
            if (d.bytes.size() < 300)
                return std::nullopt;
            d.what = strf("truncation within the page at %llu to %zu bytes", (unsigned long long)p.off, d.bytes.size());
            d.key = "truncated";
            return d;
        }
        // comment
        std::vector<const ogg::Stream *> streams;
        for (auto &s : in.streams)
            if (s.comment)
                streams.push_back(&s);
        if (streams.empty())
            return std::nullopt;
        auto &s = *r.pick(streams);
        std::vector<std::size_t> map;
        std::size_t packet = 0;
        for (auto &p : in.pages) {
            if (p.serial != s.serial)
                continue;
            auto at = p.off + 27 + p.lacing.size();
            for (auto l : p.lacing) {
                if (packet == *s.comment)
                    for (unsigned k = 0; k < l; ++k)
                        map.push_back(at + k);
                at += l;
                packet += l < 255;
            }
        }
        damageComment(r, d, map, s.codec == "vorbis" ? 7 : s.codec == "opus" ? 8 : 4);
        d.key = s.codec + "-" + d.key;
        return d;
    }
    case Fam::Raw: {
        auto in = raw::inspect(file, g.keepJunk);
        if (in.tags.empty() && !in.flac)
            return std::nullopt;
        if (in.flac && r.coin()) {
            auto pos = in.tags.empty() ? 0 : in.tags.back().off + in.tags.back().size;
            pos = file.find("fLaC", pos) + 4;
            std::vector<std::size_t> offs, comments;
            for (auto &b : in.blocks) {
                offs.push_back(pos);
                if (b.type == 4)
                    comments.push_back(pos);
                pos += 4 + b.data.size();
            }
            switch (r.below(3)) {
            case 0: { // cut within the blocks
                auto from = offs.front() + 12, to = pos;
                d.bytes.resize(r.range(from, to - 1));
                if (d.bytes.size() < 32)
                    return std::nullopt;
                d.what = strf("truncation to %zu bytes (metadata ends at %zu)", d.bytes.size(), to);
                d.key = "flac-truncated";
                return d;
            }
            case 1: { // size of a block
                auto off = r.pick(offs);
                auto v = file.size() - off - 4 + r.range(1, 100000);
                if (v > 0xFFFFFF)
                    return std::nullopt;
                putBe(d.bytes, off + 1, 3, v);
                d.what = strf("size of the block at %zu changed to %llu", off, (unsigned long long)v);
                d.key = "flac-block";
                return d;
            }
            default: {
                if (comments.empty())
                    return std::nullopt;
                auto off = comments.front();
                auto size = rbe(file, off + 1, 3);
                std::vector<std::size_t> map;
                for (std::uint64_t k = 0; k < size; ++k)
                    map.push_back(off + 4 + k);
                damageComment(r, d, map, 0);
                d.key = "flac-" + d.key;
                return d;
            }
            }
        }
        if (in.tags.empty())
            return std::nullopt;
        auto &t = in.tags[r.below(in.tags.size())];
        if (r.chance(40)) {
            if (t.size < 18)
                return std::nullopt;
            auto cut = t.off + r.range(11, t.size - 1);
            if (cut < t.off + 16) // files of less than 16 bytes are not examined
                return std::nullopt;
            d.bytes.resize(cut);
            d.what = strf("truncation to %zu bytes (tag of version %u at %zu has %zu)", d.bytes.size(), t.version, t.off, t.size);
            d.key = strf("id3v2.%u-truncated", t.version);
            return d;
        }
        if (t.unsync || t.extHeader)
            return std::nullopt;
        // size of a frame
        auto hdr = t.version == 2 ? 6u : 10u, idLen = t.version == 2 ? 3u : 4u;
        auto end = t.off + t.size - (t.footer ? 10 : 0);
        std::vector<std::size_t> frames;
        auto sizeOf = [&](std::size_t p) {
            auto v = rbe(file, p + idLen, static_cast<int>(idLen));
            return t.version == 4 ? (v & 0x7F) | (v >> 8 & 0x7F) << 7 | (v >> 16 & 0x7F) << 14 | (v >> 24 & 0x7F) << 21 : v;
        };
        for (auto p = t.off + 10; p + hdr < end && file[p] && sizeOf(p) <= end - p - hdr; p += hdr + sizeOf(p))
            frames.push_back(p);
        if (frames.empty())
            return std::nullopt;
        auto p = r.pick(frames);
        auto v = end - p - hdr + (r.coin() ? 1 : r.range(1, 1u << 20));
        if (t.version == 2 && v > 0xFFFFFF)
            return std::nullopt;
        putBe(d.bytes, p + idLen, idLen, t.version == 4 ? (v & 0x7F) | (v >> 7 & 0x7F) << 8 | (v >> 14 & 0x7F) << 16 | (v >> 21 & 0x7F) << 24 : v);
        d.what = strf("size of frame %s at %zu changed to %llu (tag of version %u ends at %zu)", quote(file.substr(p, idLen)).c_str(), p, (unsigned long long)v, t.version, end);
        d.key = strf("id3v2.%u-frame", t.version);
        return d;
    }
    }
    return std::nullopt;
}
std::string results(const AnyGen &g, T::MediaFileInfo &f)
{
    auto s = "tags: " + textOf(dumpTags(f)) + "\nchapters: " + dumpChapters(f) + "\nattachments: " + dumpAttachments(f);
    if (g.fam == Fam::Mp4 || g.fam == Fam::Mkv)
        s += "\ntracks: " + dumpTracks(f);
    return s;
}
bool isOk(T::ParsingStatus s)
{
    return s == T::ParsingStatus::Ok || s == T::ParsingStatus::NotSupported;
}
void caseC24(Ctx &c)
{
    auto &r = c.rng;
    auto g = anyFile(r);
    auto path = c.path(g.name);
    writeFile(path, g.file);
    c.artifact("input", g.file);
    c.note(g.format + " " + g.desc + "; ");
    auto file = g.file;
    std::set<std::string> known;
    auto sound = [&](const char *when) {
        Media m(path);
        m.info.setForceFullParse(r.coin());
        auto res = m.parse();
        if (res.outcome != Outcome::Ok)
            c.fail("sound-outcome", std::string(when) + " sound file yields " + outcomeName(res.outcome) + " " + res.what);
        if (!isOk(m.info.containerParsingStatus()) || !isOk(m.info.tagsParsingStatus()) || !isOk(m.info.tracksParsingStatus()) || !isOk(m.info.chaptersParsingStatus()) || !isOk(m.info.attachmentsParsingStatus()))
            c.fail("sound-status", std::string(when) + " sound file yields a failing status");
        for (auto &d : res.diag)
            if (d.level() >= T::DiagLevel::Warning) {
                if (!justified(g, file, d.message()))
                    c.fail(g.format + "-" + when + "-" + normalized(d.message()), "sound file yields " + d.context() + ": " + d.message());
                known.insert(normalized(d.message()));
            }
        c.count(std::string("sound-") + when);
    };
    sound("original");
    if (r.chance(60)) {
        Media m(path);
        Cfg cfg = randomCfg(r);
        cfg.savePath.clear();
        cfg.backupDir.clear();
        applyCfg(m.info, cfg);
        if (m.parse().outcome == Outcome::Ok) {
            c.note("written with " + cfg.toString() + ": " + randomEdit(r, m.info) + "; ");
            if (m.apply().outcome == Outcome::Ok) {
                file = readFile(path);
                c.artifact("written", file);
                known.clear();
                sound("written");
            }
        }
    }
    writeFile(path, file);
    std::string want;
    auto full = r.chance(30);
    {
        Media m(path);
        m.info.setForceFullParse(full);
        m.parse();
        want = results(g, m.info);
    }
    for (auto k = r.range(2, 6); k; --k) {
        auto d = damage(r, g, file);
        if (!d || d->bytes == file)
            continue;
        writeFile(path, d->bytes);
        Media m(path);
        m.info.setForceFullParse(full);
        auto res = m.parse();
        c.count("damages");
        c.cover(g.format + "-" + d->key);
        c.mix(d->what);
        auto reported = res.outcome != Outcome::Ok || m.info.containerFormat() == T::ContainerFormat::Unknown || !isOk(m.info.containerParsingStatus()) || !isOk(m.info.tagsParsingStatus()) || !isOk(m.info.tracksParsingStatus())
            || !isOk(m.info.chaptersParsingStatus()) || !isOk(m.info.attachmentsParsingStatus());
        for (auto &x : res.diag)
            reported |= x.level() >= T::DiagLevel::Warning && !known.count(normalized(x.message()));
        if (reported) {
            c.count("reported");
            continue;
        }
        if (auto got = results(g, m.info); got != want) {
            c.artifact("damaged", d->bytes);
            c.fail(g.format + "-silent-" + d->key, d->what + " loses information without being reported: " + firstDiff(want, got));
        } else
            c.count("without-loss");
    }
    c.nontrivial = true;
    c.mix(g.desc);
}
PropReg reg("C24", caseC24);
}
}
