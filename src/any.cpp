#include "any.h"
#include <set>
#include "mkvfmt.h"
#include "mp4fmt.h"
#include "oggfmt.h"
#include "rawfmt.h"
#include "views.h"
#include <algorithm>
namespace tp {
AnyGen anyFile(Rng &r, const AnyOptions &o)
{
    AnyGen a;
    a.fam = o.fam >= 0 ? static_cast<Fam>(o.fam) : static_cast<Fam>(r.below(4));
    switch (a.fam) {
    case Fam::Mp4: {
        mp4::GOptions g;
        g.tracks = o.small ? 1 + static_cast<int>(r.below(2)) : -1;
        g.foreign = o.foreign;
        g.existingTag = o.tags;
        g.big = o.large;
        auto x = mp4::generate(r, g);
        a.file = x.file;
        a.desc = x.desc;
        a.name = "f.mp4";
        a.format = x.fragmented ? "mp4-fragmented" : "mp4";
        break;
    }
    case Fam::Mkv: {
        mkv::GOptions g;
        g.foreign = o.foreign;
        g.tags = o.tags;
        if (o.small) {
            g.maxClusters = 3;
            g.maxBlocks = 3;
        } else if (o.large) {
            g.maxClusters = 80;
            g.maxBlocks = 14;
        }
        auto x = mkv::generate(r, g);
        a.file = x.file;
        a.desc = x.desc;
        a.name = "f.mkv";
        a.format = "mkv";
        break;
    }
    case Fam::Ogg: {
        ogg::GOptions g;
        g.multi = g.chained = o.multiOgg;
        if (o.small)
            g.maxPackets = 6;
        else if (o.large)
            g.maxPackets = 500;
        auto x = ogg::generate(r, g);
        a.file = x.file;
        a.desc = x.desc;
        a.name = "f.ogg";
        a.format = "ogg";
        break;
    }
    case Fam::Raw: {
        raw::GOptions g;
        if (o.small)
            g.maxStream = 5000;
        else if (o.large) {
            g.maxStream = 400000;
            g.format = r.pick({ "mp3", "adts", "flac", "wav" });
        }
        if (r.chance(30))
            g.format = "flac";
        auto x = raw::generate(r, g);
        a.file = x.file;
        a.desc = x.desc;
        a.format = x.format;
        a.name = "f.bin";
        a.keepJunk = x.format == "unknown";
        break;
    }
    }
    return a;
}
static Bytes brief(std::string_view s)
{
    bool text = s.size() <= 300;
    for (auto ch : s)
        text = text && static_cast<unsigned char>(ch) >= 0x20;
    return text ? Bytes(s) : strf("%zu bytes %016llx ", s.size(), (unsigned long long)fnv(s)) + hex(s.substr(0, 24), 60);
}
static void list(Facts &f, const Bytes &key, const std::vector<Bytes> &v)
{
    for (std::size_t i = 0; i < v.size(); ++i)
        f[key + strf(" #%zu", i)] = brief(v[i]);
}
static void add(Facts &f, const Bytes &key, const Bytes &value)
{
    auto &x = f[key];
    if (!x.empty())
        x += "\n";
    x += value;
}
static void vorbisFacts(Snap &s, const Bytes &prefix, VorbisView v)
{
    normalizeVorbisView(v);
    s.tags[prefix + "|vendor"] = v.vendor;
    for (auto &[id, vals] : v.fields)
        for (auto &x : vals)
            add(s.tags, prefix + "|" + id, brief(x));
    for (auto &p : v.pictures)
        add(s.tags, prefix + "|METADATA_BLOCK_PICTURE", p);
}
static void snapMp4(Snap &s, std::string_view b)
{
    auto i = mp4::inspect(b);
    for (auto &t : i.tracks) {
        auto k = strf("track %u ", t.id);
        list(s.media, k + "sample", t.samples);
        list(s.media, k + "fragment sample", t.fragSamples);
        s.media[k + "header"] = t.handler + "|" + t.name + strf("|%x %llu %llu %llu ", t.tkhdFlags, (unsigned long long)t.creation, (unsigned long long)t.modification, (unsigned long long)t.tkhdDuration) + hex(t.tkhdTail, 400)
            + strf("|%u %llu %llu %llu %x", t.timescale, (unsigned long long)t.mdhdDuration, (unsigned long long)t.mcreation, (unsigned long long)t.mmodification, t.lang);
        list(s.foreign, k + "trak child", t.otherTrak);
        list(s.foreign, k + "mdia child", t.otherMdia);
        list(s.foreign, k + "minf child", t.otherMinf);
        list(s.media, k + "stbl child", t.otherStbl);
    }
    s.media["track count"] = std::to_string(i.tracks.size());
    s.media["mvhd"] = brief(i.mvhd);
    list(s.foreign, "moov child", i.otherMoov);
    list(s.foreign, "udta child", i.otherUdta);
    list(s.foreign, "meta child", i.otherMeta);
    list(s.foreign, "top-level atom", i.otherTop);
    for (auto &[id, items] : mp4Items(i))
        for (auto &it : items) {
            Bytes v;
            for (auto &d : it)
                v += " [" + d + "]";
            add(s.tags, "ilst|" + id, v);
        }
    s.padding = i.freeBytes;
}
static void snapMkv(Snap &s, std::string_view b)
{
    auto i = mkv::inspect(b);
    for (std::size_t k = 0; k < i.clusters.size(); ++k) {
        auto &c = i.clusters[k];
        auto key = strf("cluster %zu ", k);
        s.media[key + "time"] = std::to_string(c.ts);
        for (std::size_t n = 0; n < c.blocks.size(); ++n)
            s.media[key + strf("block %zu", n)] = strf("track %llu time %lld flags %x group %d ", (unsigned long long)c.blocks[n].track, (long long)c.blocks[n].time, c.blocks[n].flags, c.blocks[n].group) + brief(c.blocks[n].payload)
                + "|" + brief(c.blocks[n].extra);
        list(s.foreign, key + "child", c.other);
    }
    for (std::size_t k = 0; k < i.cues.size(); ++k)
        s.media[strf("cue %zu", k)] = i.cues[k].text();
    for (std::size_t k = 0; k < i.tracks.size(); ++k) {
        auto &t = i.tracks[k];
        s.media[strf("track %zu", k)] = strf("%llu %llu %llu ", (unsigned long long)t.number, (unsigned long long)t.uid, (unsigned long long)t.type) + t.name + "|" + t.lang + "|" + t.bcp + strf("|%d%d%d", t.enabled, t.def, t.forced);
        list(s.foreign, strf("track %zu child", k), t.other);
    }
    s.media["doc type"] = i.docType + strf(" %llu", (unsigned long long)i.docTypeReadVersion);
    s.media["title"] = i.title ? *i.title : "";
    s.media["time scale"] = std::to_string(i.timeScale);
    s.media["duration"] = strf("%.9g", i.duration);
    list(s.foreign, "info child", i.infoOther);
    list(s.foreign, "chapters", i.chapters);
    list(s.foreign, "segment child", i.unknown);
    for (std::size_t k = 0; k < i.attachments.size(); ++k) {
        auto &a = i.attachments[k];
        auto key = strf("attachment %zu", k);
        s.foreign[key] = strf("%llu ", (unsigned long long)a.uid) + a.name + "|" + a.mime + "|" + a.desc + "|" + brief(a.data);
        list(s.foreign, key + " child", a.other);
    }
    std::size_t n = 0;
    for (auto &t : mkvTagView(i)) {
        auto key = strf("tag %zu", n++);
        auto target = t;
        target.fields.clear();
        if (!t.fields.empty())
            s.tags[key + "|"] = target.text();
        for (auto &f : t.fields)
            add(s.tags, key + "|" + f.name, f.text());
    }
    s.padding = i.padding;
    s.problems = i.problems;
}
static void snapOgg(Snap &s, std::string_view b)
{
    auto i = ogg::inspect(b);
    for (auto &t : i.streams) {
        auto key = strf("stream %u", t.serial);
        std::size_t n = 0;
        for (std::size_t k = 0; k < t.packets.size(); ++k)
            if (!t.comment || *t.comment != k) {
                auto x = brief(t.packets[k].data);
                // the mapping header of FLAC counts the header packets and its granule positions of headers are zero anyways
                s.media[key + strf(" packet %zu", n++)] = x;
            }
        s.media[key] = t.codec + strf(" eos %d granule %lld", t.eos, (long long)t.lastGranule);
        if (t.tag)
            vorbisFacts(s, key, vorbisView(*t.tag));
        s.padding += t.padding;
    }
    s.problems = i.problems;
}
static void snapRaw(Snap &s, std::string_view b, bool keepJunk)
{
    auto i = raw::inspect(b, keepJunk);
    s.media["stream"] = brief(i.stream);
    if (!i.ape.empty())
        s.foreign["ape"] = brief(i.ape);
    if (i.flac) {
        for (std::size_t k = 0; k < i.foreign.size(); ++k)
            s.foreign[strf("block %zu", k)] = strf("%u ", i.foreign[k].type) + brief(i.foreign[k].data);
        auto v = i.comment ? vorbisView(*i.comment) : VorbisView();
        for (auto &p : i.pictures)
            v.pictures.push_back(pictureForm(p));
        std::sort(v.pictures.begin(), v.pictures.end());
        if (i.comment || !v.pictures.empty())
            vorbisFacts(s, "vorbis", v);
        if (!i.comment)
            s.tags.erase("vorbis|vendor"); // there is one as soon as the tag is written
    }
    for (std::size_t k = 0; k < i.tags.size(); ++k)
        for (auto &[id, v] : id3::canonTag(i.tags[k])) {
            // legacy date frames are converted when the version is not 2.4; flags of converted frames are not specified
            static const std::set<Bytes> dates{ "TYER", "TDAT", "TIME", "TRDA", "TDRC", "TORY", "TDOR" };
            if (dates.count(id))
                for (auto *f : { " {discard-tag}", " {discard-file}", " {read-only}", " {group " })
                    if (auto p = v.rfind(f); p != Bytes::npos)
                        v.erase(p, v.find('}', p) - p + 1);
            add(s.tags, strf("v2 %zu|", k) + id, brief(v));
        }
    if (i.v1) {
        auto &t = *i.v1;
        s.tags["v1|title"] = t.title;
        s.tags["v1|artist"] = t.artist;
        s.tags["v1|album"] = t.album;
        s.tags["v1|year"] = t.year;
        // the last two bytes of the comment of version 1.0 make room for the track as the library writes version 1.1
        s.tags["v1|comment"] = t.comment.substr(0, 28);
        s.tags["v1|track"] = std::to_string(t.track);
        s.tags["v1|genre"] = std::to_string(t.genre);
    }
    s.padding = i.padding();
    s.problems = i.problems;
}
Snap snap(const AnyGen &g, std::string_view b)
{
    Snap s;
    s.size = b.size();
    switch (g.fam) {
    case Fam::Mp4: snapMp4(s, b); break;
    case Fam::Mkv: snapMkv(s, b); break;
    case Fam::Ogg: snapOgg(s, b); break;
    case Fam::Raw: snapRaw(s, b, g.keepJunk); break;
    }
    return s;
}
std::string factsDiff(const Facts &a, const Facts &b, const std::function<bool(const Bytes &)> &skip)
{
    for (auto &[k, v] : a) {
        if (skip && skip(k))
            continue;
        auto i = b.find(k);
        if (i == b.end())
            return k + " is gone (was " + quote(v, 120) + ")";
        if (i->second != v)
            return k + ": " + quote(v, 300) + " became " + quote(i->second, 300);
    }
    for (auto &[k, v] : b)
        if (!(skip && skip(k)) && !a.count(k))
            return k + " appeared: " + quote(v, 120);
    return {};
}
Bytes tagPrefix(T::MediaFileInfo &f, T::Tag *t)
{
    switch (t->type()) {
    case T::TagType::Id3v1Tag:
        return "v1";
    case T::TagType::Id3v2Tag:
        for (std::size_t i = 0; i < f.id3v2Tags().size(); ++i)
            if (f.id3v2Tags()[i].get() == t)
                return strf("v2 %zu", i);
        return "?";
    case T::TagType::Mp4Tag:
        return "ilst";
    case T::TagType::MatroskaTag: {
        auto *c = f.container();
        for (std::size_t i = 0; c && i < c->tagCount(); ++i)
            if (c->tag(i) == t)
                return strf("tag %zu", i);
        return "?";
    }
    case T::TagType::VorbisComment:
        return "vorbis";
    case T::TagType::OggVorbisComment:
        return t->target().tracks().empty() ? "?" : strf("stream %llu", (unsigned long long)t->target().tracks().front());
    default:
        return "?";
    }
}
Bytes fieldKey(T::Tag *t, T::KnownField f)
{
    using KF = T::KnownField;
    static const std::map<KF, std::array<const char *, 5>> ids{
        { KF::Title, { "title", "TIT2", "\xa9nam", "TITLE", "TITLE" } },
        { KF::Artist, { "artist", "TPE1", "\xa9" "ART", "ARTIST", "ARTIST" } },
        { KF::Album, { "album", "TALB", "\xa9" "alb", "ALBUM", "ALBUM" } },
        { KF::Comment, { "comment", "COMM", "\xa9" "cmt", "COMMENT", "COMMENT" } },
        { KF::Composer, { "", "TCOM", "\xa9wrt", "COMPOSER", "COMPOSER" } },
        { KF::AlbumArtist, { "", "TPE2", "aART", "ACCOMPANIMENT", "ALBUMARTIST" } },
        { KF::Lyrics, { "", "USLT", "\xa9lyr", "LYRICS", "LYRICS" } },
        { KF::Cover, { "", "APIC", "covr", "", "METADATA_BLOCK_PICTURE" } },
    };
    auto i = ids.find(f);
    if (i == ids.end())
        throw std::logic_error("harness: unknown field");
    switch (t->type()) {
    case T::TagType::Id3v1Tag: return i->second[0];
    case T::TagType::Id3v2Tag: return i->second[1];
    case T::TagType::Mp4Tag: return i->second[2];
    case T::TagType::MatroskaTag: return i->second[3];
    default: return i->second[4];
    }
}
}
