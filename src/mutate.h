// Structure-aware and blind mutation of media files.
#pragma once
#include "core.h"
namespace tp {
struct Node {
    std::size_t off = 0, hdr = 0, end = 0, depth = 0;
    std::size_t sizeOff = 0, sizeLen = 0; // where the size is stored
    bool ebml = false, le = false, syncsafe = false;
    std::size_t bias = 0; // stored size = end - off - bias
};
// elements found by walking the structure leniently (MP4 atoms, EBML elements, Ogg pages, ID3v2 frames, FLAC blocks, RIFF chunks)
std::vector<Node> nodesOf(std::string_view file);
// applies 1..max mutations; returns description
std::string mutate(Rng &r, Bytes &file, unsigned max = 6);
}
