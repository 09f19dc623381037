// What the tags of a file say in a form allowing comparison (shared by several properties).
#pragma once
#include "mkvfmt.h"
#include "mp4fmt.h"
#include "vorbisfmt.h"
#include <map>
namespace tp {
struct VorbisView {
    Bytes vendor;
    std::map<Bytes, std::vector<Bytes>> fields; // without pictures and empty values
    std::vector<Bytes> pictures;
};
Bytes pictureForm(const vorbis::Picture &p);
VorbisView vorbisView(const vorbis::Comment &c);
void normalizeVorbisView(VorbisView &v); // number and total merged, YEAR read as DATE
using Mp4Item = std::vector<Bytes>;
using Mp4Items = std::map<Bytes, std::vector<Mp4Item>>;
Mp4Items mp4Items(const mp4::Info &i);
std::vector<mkv::TagEl> mkvTagView(const mkv::Info &i);
}
