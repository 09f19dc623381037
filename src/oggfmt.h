// Ogg: generator and independent reader.
#pragma once
#include "vorbisfmt.h"
namespace tp::ogg {

struct Page {
    std::uint64_t off = 0, size = 0;
    unsigned flags = 0;
    std::int64_t granule = 0;
    std::uint32_t serial = 0, seq = 0;
    std::vector<std::uint8_t> lacing;
    bool crcOk = false;
};
struct Packet {
    Bytes data;
    std::optional<std::int64_t> granule; // of its page if the packet is the last one finishing there
    std::size_t firstPage = 0, lastPage = 0;
    bool freshPage = false; // starts its page
};
struct Stream {
    std::uint32_t serial = 0;
    std::string codec; // vorbis opus flac speex theora ?
    std::vector<Packet> packets;
    bool eos = false;
    std::size_t pages = 0;
    std::int64_t lastGranule = 0;
    std::optional<std::size_t> comment; // index of the packet with the comment the library understands
    std::optional<vorbis::Comment> tag;
    std::uint64_t padding = 0;
    bool flacLast = false;
};
struct Info {
    std::vector<Page> pages;
    std::vector<Stream> streams;
    std::vector<std::string> problems;
    const Stream *stream(std::uint32_t serial) const;
};
Info inspect(std::string_view file); // throws Malformed

struct GStream {
    std::uint32_t serial = 0;
    std::string codec;
    unsigned channels = 2, rate = 44100, preSkip = 0, bits = 16;
    std::uint64_t samples = 0; // final granule
    vorbis::Comment comment;
    bool hasComment = true;
};
struct GOptions {
    bool multi = true, chained = true, unknown = true, nil = true, zeroPackets = true, bigPackets = true, pictures = true, conformantOnly = false;
    std::string codec; // force the codec of a single stream
    unsigned maxPackets = 20;
    bool noComment = true; // streams lacking a comment
    bool sharePages = true; // headers sharing pages
};
struct Gen {
    Bytes file;
    std::vector<GStream> streams;
    std::string desc;
    std::vector<std::pair<std::size_t, std::size_t>> structural;
};
Gen generate(Rng &r, const GOptions &o = {});
std::uint32_t crc(std::string_view d);

} // namespace tp::ogg
