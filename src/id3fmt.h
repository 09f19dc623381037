// ID3v1 / ID3v2 / APE: makers and independent readers.
#pragma once
#include "bytes.h"
#include <optional>
namespace tp::id3 {

struct Frame {
    Bytes id; // 3 or 4 characters
    Bytes data; // payload after undoing compression and unsynchronisation
    bool discardTag = false, discardFile = false, readOnly = false, compressed = false, unsync = false, dli = false, encrypted = false;
    std::optional<std::uint8_t> group;
};
struct Tag {
    unsigned version = 3, revision = 0;
    bool experimental = false, extHeader = false, unsync = false, footer = false;
    std::vector<Frame> frames;
    std::uint64_t padding = 0;
    // filled when parsing
    std::size_t off = 0, size = 0;
};
Bytes makeTag(const Tag &t);
// strict reader; `off` is where "ID3" is expected
Tag parseTag(std::string_view file, std::size_t off);

Bytes text(unsigned enc, std::string_view utf8, bool terminate); // one string in ID3v2 encoding 0..3 (with BOM for 1)
// independent decoding of frames into a canonical description which is equal for equal meaning (whatever the text encoding or version)
Bytes canonFrame(const Frame &f, unsigned version);
Bytes longId(const Bytes &id); // canonical (long) name of a 2.2 frame ID
// "ID=canonical" per frame in a normal order; dates of old versions are combined; empty frames left out
std::vector<std::pair<Bytes, Bytes>> canonTag(const Tag &t);

struct V1 {
    Bytes title, artist, album, year, comment;
    unsigned track = 0, genre = 255;
    bool v11 = true;
    bool operator==(const V1 &o) const { return title == o.title && artist == o.artist && album == o.album && year == o.year && comment == o.comment && track == o.track && genre == o.genre && v11 == o.v11; }
};
Bytes makeV1(const V1 &t);
V1 parseV1(std::string_view d); // 128 bytes

Bytes makeApe(Rng &r, bool atStart);

struct TOptions {
    unsigned version = 0; // 0: any
    bool fancy = true; // flags, unsynchronisation, extended header, footer
    bool unknown = true, pictures = true, dates = true, multi = true;
    unsigned maxFrames = 12;
    std::size_t maxText = 200;
};
Tag randomTag(Rng &r, const TOptions &o = {});
V1 randomV1(Rng &r);
struct Comment3 {
    Bytes lang, desc, text;
};

} // namespace tp::id3
