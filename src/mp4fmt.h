// MP4: generator with ground truth and an independent reader.
#pragma once
#include "bytes.h"
#include <memory>
#include <optional>
namespace tp::mp4 {

Bytes atom(std::string_view type, std::string_view payload, bool wide = false);

struct Atom {
    Bytes type;
    std::uint64_t off = 0, hdr = 8, size = 0;
    std::vector<Atom> kids;
    std::uint64_t extra = 0; // bytes between header and first child
    std::uint64_t dataOff() const { return off + hdr; }
    std::uint64_t dataSize() const { return size - hdr; }
    std::uint64_t end() const { return off + size; }
    std::string_view payload(std::string_view f) const { return f.substr(dataOff(), dataSize()); }
    std::string_view whole(std::string_view f) const { return f.substr(off, size); }
    const Atom *child(std::string_view t) const;
    std::vector<const Atom *> children(std::string_view t) const;
    const Atom *path(std::initializer_list<std::string_view> p) const;
};
// parses the whole file strictly; throws Malformed
std::vector<Atom> parse(std::string_view file);

struct Sample {
    Bytes data;
    std::uint64_t duration = 0, flags = 0;
    std::int64_t cts = 0;
};
struct TrackInfo {
    std::uint32_t id = 0;
    Bytes handler, name;
    std::uint32_t tkhdFlags = 0;
    std::uint64_t creation = 0, modification = 0, tkhdDuration = 0;
    Bytes tkhdTail; // layer .. height
    std::uint64_t mcreation = 0, mmodification = 0;
    std::uint32_t timescale = 0;
    std::uint64_t mdhdDuration = 0;
    std::uint16_t lang = 0;
    std::vector<Bytes> otherTrak; // children of trak other than tkhd, mdia
    std::vector<Bytes> otherMdia; // children of mdia other than mdhd, hdlr, minf
    std::vector<Bytes> otherMinf; // children of minf other than stbl
    std::vector<Bytes> otherStbl; // children of stbl other than stco/co64
    std::vector<Bytes> samples; // bytes of every sample resolved through the tables (in moov)
    std::vector<Bytes> fragSamples; // bytes of samples in fragments
    std::vector<Bytes> stsd;
};
struct DataAtom {
    std::uint32_t type = 0, locale = 0;
    Bytes data;
};
struct MetaItem {
    Bytes id; // 4 bytes
    Bytes mean, name;
    std::vector<DataAtom> data;
    std::vector<Bytes> other;
    Bytes raw;
};
struct Info {
    std::vector<Atom> atoms;
    std::vector<Bytes> topOrder;
    std::vector<TrackInfo> tracks;
    std::vector<MetaItem> items;
    bool hasIlst = false;
    std::vector<Bytes> otherMoov, otherUdta, otherMeta, otherTop; // raw bytes of what is not rebuilt
    Bytes mvhd;
    std::vector<Bytes> mdats; // payloads
    std::uint64_t freeBytes = 0; // total size of free/skip atoms on top-level
    std::uint64_t moovOff = 0, moovSize = 0, firstMdat = 0, lastMdatEnd = 0;
    bool fragmented = false;
    std::optional<std::string> sidxProblem;
    bool metaInMoov = false;
};
Info inspect(std::string_view file); // throws Malformed

// --- generator
struct GTrack {
    char kind = 'a'; // a, v, t
    std::uint32_t id = 1, timescale = 1000;
    std::uint64_t duration = 0;
    std::string lang = "eng", name;
    bool enabled = true;
    std::vector<Sample> samples;
    std::vector<std::uint32_t> chunks; // samples per chunk
    bool co64 = false;
    unsigned width = 0, height = 0, channels = 0, rate = 0, bits = 16;
    Bytes format;
    std::uint64_t creation = 0, modification = 0;
    std::uint64_t totalSize = 0;
};
struct GOptions {
    int tracks = -1;
    bool allowFragmented = true;
    bool forceFragmented = false;
    bool big = false;
    bool foreign = true;
    bool existingTag = true;
    bool plainOrder = false;
};
struct Gen {
    Bytes file;
    std::vector<GTrack> tracks;
    bool fragmented = false;
    std::uint32_t timescale = 1000;
    std::uint64_t duration = 0;
    std::uint64_t creation = 0;
    Bytes majorBrand;
    std::string desc;
    std::vector<std::pair<std::size_t, std::size_t>> structural; // ranges of structural bytes
};
Gen generate(Rng &rng, const GOptions &opt = {});
Bytes textItem(std::string_view id, std::string_view text);
Bytes dataAtom(std::uint32_t type, std::string_view data);

} // namespace tp::mp4
