// Random tag values by kind and their canonical form, independent of how a tag format represents them.
#pragma once
#include "lib.h"
namespace tp {
enum class Kind { Text, Number, Position, Duration, Genre, Date, Cover, Comment, Rating, Counter, Url, Binary };
struct FieldSpec {
    T::KnownField field;
    Kind kind;
    bool multi = true; // whether more than one value is representable
    const char *id = ""; // format specific ID
    unsigned minVersion = 0;
};
struct Val {
    T::TagValue value; // what is passed to the library
    Bytes form; // what must come back
    // parts, for expectations about the file's bytes
    Bytes text, desc, lang, mime, data;
    long a = 0, b = 0;
    std::uint64_t count = 0;
    int year = 0, month = 0, day = 0, hour = -1, minute = -1, second = -1;
};
struct ValueCaps {
    bool utf8 = true, utf16le = true, utf16be = true, latin1 = true;
    bool latin1Only = false; // only text representable in Latin-1
    unsigned maxChars = 200;
    bool pictureMeta = true; // description and type of a picture are representable
    bool pictureType = true;
    bool commentMeta = true; // language and description of comments are representable
    bool langRequired = false;
    T::TagType ratingScale = T::TagType::Unspecified;
    std::vector<std::string> mimes = { "image/jpeg", "image/png" };
    long maxNumber = 2000000000;
    long maxPos = 30000;
    bool seconds = true;
    bool allowNewline = true;
};
Val randomVal(Rng &r, Kind kind, const ValueCaps &caps);
Bytes formOf(Kind kind, const T::TagValue &v, const ValueCaps &caps);
Bytes jpegLike(Rng &r, std::size_t n);
Bytes pngLike(Rng &r, std::size_t n);
}
