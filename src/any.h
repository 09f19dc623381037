// Common layer over all formats: a random file and what it says, by independent readers.
#pragma once
#include "lib.h"
#include "bytes.h"
#include <map>
namespace tp {
enum class Fam { Mp4, Mkv, Ogg, Raw };
struct AnyGen {
    Fam fam = Fam::Raw;
    Bytes file;
    std::string name, format, desc;
    bool keepJunk = false;
};
struct AnyOptions {
    int fam = -1;
    bool small = false; // few samples
    bool foreign = true;
    bool tags = true;
    bool multiOgg = true;
    bool large = false; // some 100 KiB of media data
};
AnyGen anyFile(Rng &r, const AnyOptions &o = {});
using Facts = std::map<Bytes, Bytes>;
struct Snap {
    Facts media, foreign, tags;
    std::uint64_t padding = 0;
    std::vector<std::string> problems;
    std::size_t size = 0;
};
Snap snap(const AnyGen &g, std::string_view bytes); // throws Malformed
// first difference between two sets of facts; keys for which skip returns true are left out
std::string factsDiff(const Facts &a, const Facts &b, const std::function<bool(const Bytes &)> &skip = {});
// key (prefix) of the facts about the specified tag, and of the specified field of it
Bytes tagPrefix(T::MediaFileInfo &f, T::Tag *t);
Bytes fieldKey(T::Tag *t, T::KnownField f);
}
