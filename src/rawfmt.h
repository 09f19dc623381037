// Files without container object (MPEG audio, ADTS, FLAC, WAV, IVF, AIFF, WavPack, anything): generator and independent reader.
#pragma once
#include "id3fmt.h"
#include "vorbisfmt.h"
namespace tp::raw {

struct Block {
    unsigned type = 0;
    Bytes data;
    bool operator==(const Block &o) const { return type == o.type && data == o.data; }
};
struct Info {
    std::vector<id3::Tag> tags; // ID3v2 tags at the beginning
    std::uint64_t junk = 0; // zero bytes behind the last tag
    bool flac = false;
    std::vector<Block> blocks; // all metadata blocks
    std::vector<Block> foreign; // all but comment, picture, padding
    std::optional<vorbis::Comment> comment; // of the FLAC stream
    std::vector<vorbis::Picture> pictures;
    std::uint64_t flacPadding = 0; // including the block header
    std::size_t streamOff = 0, streamEnd = 0;
    Bytes stream; // audio data
    Bytes ape; // trailing APE tag
    std::optional<id3::V1> v1;
    std::vector<std::string> problems;
    std::uint64_t padding() const; // of all tags
};
Info inspect(std::string_view file, bool keepJunk = false); // throws Malformed; keepJunk: zero bytes before the stream belong to it

struct GOptions {
    std::string format; // mp3 adts wav ivf flac aiff wavpack unknown; empty: any
    bool unknownFormats = true, multi = true, junk = true, ape = true, fancy = true, v1 = true, v2 = true;
    id3::TOptions tag;
    std::size_t maxStream = 30000;
};
struct Gen {
    Bytes file;
    std::string format, desc;
    // technical information
    unsigned channels = 0, rate = 0, bits = 0, kbps = 0;
    double seconds = 0;
    std::uint64_t samples = 0;
};
Gen generate(Rng &r, const GOptions &o = {});

} // namespace tp::raw
