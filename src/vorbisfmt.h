// Vorbis comments and FLAC pictures: maker, independent reader, random content.
#pragma once
#include "bytes.h"
#include <optional>
namespace tp::vorbis {

struct Picture {
    std::uint32_t type = 3, width = 0, height = 0, depth = 0, colors = 0;
    Bytes mime, desc, data;
    bool operator==(const Picture &o) const { return type == o.type && width == o.width && height == o.height && depth == o.depth && colors == o.colors && mime == o.mime && desc == o.desc && data == o.data; }
};
Bytes makePicture(const Picture &p);
Picture parsePicture(std::string_view d); // throws Malformed; must be consumed exactly
Bytes base64(std::string_view d);
Bytes unbase64(std::string_view d); // throws Malformed

struct Comment {
    Bytes vendor;
    std::vector<std::pair<Bytes, Bytes>> fields; // name, value
    Bytes rest; // bytes behind the comment (and framing)
    Bytes text() const;
};
// body only (no signature); framing: append/expect framing bit
Bytes makeComment(const Comment &c, bool framing);
Comment parseComment(std::string_view d, bool framing); // throws Malformed

struct COptions {
    bool pictures = true;
    unsigned maxFields = 8;
    bool weird = true; // lower case names, repeated names, unusual values
    std::size_t maxValue = 200;
};
Comment randomComment(Rng &r, const COptions &o = {});
Picture randomPicture(Rng &r, std::size_t maxSize = 600);
// fields grouped case-insensitively by name (upper case), order within a name retained, names sorted
std::vector<std::pair<Bytes, std::vector<Bytes>>> grouped(const Comment &c);
Bytes upper(Bytes s);

} // namespace tp::vorbis
