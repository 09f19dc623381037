// Matroska/WebM: generator and independent reader.
#pragma once
#include "bytes.h"
#include <optional>
namespace tp::mkv {

struct El {
    std::uint32_t id = 0;
    std::uint64_t off = 0, hdr = 0, size = 0; // size of the data
    bool unknownSize = false;
    std::vector<El> kids;
    std::uint64_t dataOff() const { return off + hdr; }
    std::uint64_t end() const { return off + hdr + size; }
    std::string_view data(std::string_view f) const { return f.substr(dataOff(), size); }
    std::string_view whole(std::string_view f) const { return f.substr(off, hdr + size); }
    const El *child(std::uint32_t id) const;
    std::vector<const El *> children(std::uint32_t id) const;
    std::uint64_t uint(std::string_view f) const;
};
std::vector<El> parse(std::string_view file); // strict; throws Malformed

struct Block {
    std::uint64_t track = 0;
    std::int64_t time = 0;
    unsigned flags = 0;
    bool group = false;
    Bytes payload;
    Bytes extra; // other children of the block group
    bool operator==(const Block &o) const { return track == o.track && time == o.time && flags == o.flags && group == o.group && payload == o.payload && extra == o.extra; }
};
struct Cluster {
    std::uint64_t pos = 0, ts = 0;
    std::vector<Block> blocks;
    std::vector<Bytes> other; // children which are not addressing/padding/checksum
};
struct SimpleTag {
    std::string name, lang = "und", bcp;
    bool def = true;
    std::optional<std::string> str, bin;
    std::vector<SimpleTag> nested;
    std::string text(int depth = 0) const;
};
struct TagEl {
    std::uint64_t level = 50;
    bool hasLevel = false;
    std::string type;
    std::vector<std::uint64_t> tracks, editions, chapters, attachments;
    std::vector<SimpleTag> fields;
    std::string text() const;
};
struct Attachment {
    std::uint64_t uid = 0;
    std::string name, mime, desc;
    Bytes data;
    std::vector<Bytes> other;
    bool operator==(const Attachment &o) const { return uid == o.uid && name == o.name && mime == o.mime && desc == o.desc && data == o.data && other == o.other; }
};
struct Track {
    std::uint64_t number = 0, uid = 0, type = 0, defaultDuration = 0;
    std::string name, lang = "eng", bcp, codec, codecName;
    Bytes priv;
    bool enabled = true, def = true, forced = false, lacing = true;
    bool hasLang = false;
    std::uint64_t pixelW = 0, pixelH = 0, dispW = 0, dispH = 0, channels = 1, bits = 0, cropL = 0, cropR = 0, cropT = 0, cropB = 0;
    double rate = 8000, outRate = 0, fps = 0;
    bool interlaced = false;
    std::vector<Bytes> other; // raw children the library does not rebuild
};
struct CueRef {
    std::uint64_t time = 0, track = 0;
    std::optional<std::size_t> cluster, block;
    bool hasRel = false;
    std::string rest;
    std::string text() const;
};
struct Info {
    std::vector<El> els;
    std::string docType;
    std::uint64_t docTypeVersion = 1, docTypeReadVersion = 1;
    std::size_t segments = 0;
    std::vector<std::uint32_t> order; // level 1 IDs
    std::optional<std::string> title;
    std::string muxingApp, writingApp;
    std::vector<Bytes> infoOther;
    std::uint64_t timeScale = 1000000;
    double duration = 0;
    std::optional<std::int64_t> date;
    std::vector<Track> tracks;
    std::vector<Bytes> chapters; // raw
    std::vector<Attachment> attachments;
    std::vector<TagEl> tags;
    std::vector<Cluster> clusters;
    std::vector<CueRef> cues;
    std::vector<Bytes> unknown; // other level 1 elements
    std::uint64_t padding = 0; // Void directly before the first cluster
    std::uint64_t firstCluster = 0, tagsOff = 0, attachmentsOff = 0, cuesOff = 0; // absolute
    bool hasCues = false, segmentCrc = false;
    std::vector<std::string> problems; // wrong addresses, checksums...
    std::size_t seekEntries = 0;
};
Info inspect(std::string_view file, std::size_t segment = 0); // throws Malformed

// --- generator
struct GOptions {
    bool tags = true, foreign = true, attachments = true, chapters = true, crc = true, unknownSizes = true, misplaced = true, plain = false, cues = true;
    unsigned maxClusters = 6, maxBlocks = 8;
    int tracks = -1;
    bool weirdSizes = true;
    bool rawTags = true; // tags with unusual contents
};
struct Gen {
    Bytes file;
    std::string desc;
    std::vector<std::pair<std::size_t, std::size_t>> structural;
};
Gen generate(Rng &rng, const GOptions &o = {});
Bytes el(std::uint32_t id, std::string_view data, int sizeLen = 0);
Bytes uintEl(std::uint32_t id, std::uint64_t v, int width = 0);
Bytes makeTags(Rng &r, const std::vector<TagEl> &tags);
const char *idName(std::uint32_t id);

} // namespace tp::mkv
