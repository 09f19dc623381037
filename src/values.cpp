#include "values.h"
#include <c++utilities/chrono/datetime.h>
namespace tp {
using CppUtilities::DateTime;
using CppUtilities::DateTimeExpression;
using CppUtilities::DateTimeParts;
using CppUtilities::TimeSpan;
Bytes jpegLike(Rng &r, std::size_t n)
{
    return Bytes("\xFF\xD8\xFF\xE0", 4) + r.payload(n);
}
Bytes pngLike(Rng &r, std::size_t n)
{
    return Bytes("\x89PNG\r\n\x1A\n", 8) + r.payload(n);
}
static T::TagValue encoded(Rng &r, const Bytes &utf8, const ValueCaps &c)
{
    for (;;)
        switch (r.below(4)) {
        case 0:
            if (c.latin1 && isLatin1(utf8)) {
                auto s = utf8ToLatin1(utf8);
                return T::TagValue(s, T::TagTextEncoding::Latin1);
            }
            break;
        case 1:
            if (c.utf8)
                return utf8Value(utf8);
            break;
        case 2:
            if (c.utf16le) {
                auto s = toUtf16(utf8, false);
                return T::TagValue(s, T::TagTextEncoding::Utf16LittleEndian);
            }
            break;
        default:
            if (c.utf16be) {
                auto s = toUtf16(utf8, true);
                return T::TagValue(s, T::TagTextEncoding::Utf16BigEndian);
            }
        }
}
static Bytes text(Rng &r, const ValueCaps &c, unsigned max)
{
    auto s = randomText(r, max, c.latin1Only ? static_cast<int>(r.below(2)) : -1);
    if (c.allowNewline && r.chance(8) && s.size() > 2 && static_cast<signed char>(s[s.size() / 2]) > 0 && static_cast<signed char>(s[s.size() / 2 + 1]) > 0)
        s.insert(s.size() / 2, r.coin() ? "\n" : "\r\n\t");
    return s;
}
static Bytes isoOf(int y, int mo, int d, int h, int mi, int s)
{
    auto r = strf("%04d", y);
    if (mo) r += strf("-%02d", mo);
    if (d) r += strf("-%02d", d);
    if (h >= 0) r += strf("T%02d", h);
    if (mi >= 0) r += strf(":%02d", mi);
    if (s >= 0) r += strf(":%02d", s);
    return r;
}
Val randomVal(Rng &r, Kind kind, const ValueCaps &c)
{
    Val v;
    switch (kind) {
    case Kind::Text:
        v.text = text(r, c, c.maxChars);
        v.value = encoded(r, v.text, c);
        break;
    case Kind::Url: {
        v.text = "http://x.org/";
        for (auto n = r.below(40); n; --n)
            v.text += static_cast<char>(r.range(0x21, 0x7e));
        v.value = c.latin1 && r.coin() ? T::TagValue(v.text, T::TagTextEncoding::Latin1) : utf8Value(v.text);
        break;
    }
    case Kind::Number:
        v.a = r.chance(50) ? static_cast<long>(r.below(400)) : static_cast<long>(r.below(static_cast<std::uint64_t>(c.maxNumber) + 1));
        if (r.coin())
            v.value = T::TagValue(static_cast<std::int32_t>(v.a));
        else
            v.value = T::TagValue(std::to_string(v.a), c.latin1 ? T::TagTextEncoding::Latin1 : T::TagTextEncoding::Utf8);
        break;
    case Kind::Position:
        v.a = 1 + static_cast<long>(r.below(r.coin() ? 99 : static_cast<std::uint64_t>(c.maxPos)));
        v.b = r.chance(30) ? 0 : 1 + static_cast<long>(r.below(r.coin() ? 99 : static_cast<std::uint64_t>(c.maxPos)));
        if (r.chance(70))
            v.value = T::TagValue(T::PositionInSet(static_cast<std::int32_t>(v.a), static_cast<std::int32_t>(v.b)));
        else
            v.value = T::TagValue(v.b ? strf("%ld/%ld", v.a, v.b) : strf("%ld", v.a), c.latin1 ? T::TagTextEncoding::Latin1 : T::TagTextEncoding::Utf8);
        break;
    case Kind::Duration:
        v.a = static_cast<long>(r.below(r.coin() ? 600000 : 90000000));
        v.value.assignTimeSpan(TimeSpan::fromMilliseconds(static_cast<double>(v.a)));
        break;
    case Kind::Genre:
        if (r.coin()) {
            v.a = static_cast<long>(r.below(192));
            v.value.assignStandardGenreIndex(static_cast<int>(v.a));
            v.b = 1;
        } else {
            v.text = "x" + text(r, c, 40); // never the name of a standard genre or a number
            v.value = encoded(r, v.text, c);
        }
        break;
    case Kind::Date: {
        v.year = static_cast<int>(r.range(1000, 9999));
        auto parts = DateTimeParts::Year;
        auto n = r.below(c.seconds ? 4 : 3);
        if (n >= 1) {
            v.month = static_cast<int>(r.range(1, 12));
            v.day = static_cast<int>(r.range(1, 28));
            parts = parts | DateTimeParts::Month | DateTimeParts::Day;
        }
        if (n >= 2) {
            v.hour = static_cast<int>(r.below(24));
            v.minute = static_cast<int>(r.below(60));
            parts = parts | DateTimeParts::Hour | DateTimeParts::Minute;
        }
        if (n >= 3) {
            v.second = static_cast<int>(r.below(60));
            parts = parts | DateTimeParts::Second;
        }
        if (r.coin()) {
            DateTimeExpression e;
            e.value = DateTime::fromDateAndTime(v.year, std::max(1, v.month), std::max(1, v.day), std::max(0, v.hour), std::max(0, v.minute), std::max(0, v.second));
            e.parts = parts;
            v.value = T::TagValue(e);
        } else
            v.value = T::TagValue(isoOf(v.year, v.month, v.day, v.hour, v.minute, v.second), c.latin1 ? T::TagTextEncoding::Latin1 : T::TagTextEncoding::Utf8);
        break;
    }
    case Kind::Cover: {
        v.mime = r.pick(c.mimes);
        auto n = r.size(r.chance(10) ? 70000 : 600);
        v.data = v.mime == "image/jpeg" ? jpegLike(r, n) : v.mime == "image/png" ? pngLike(r, n) : v.mime == "image/bmp" || v.mime == "image/x-ms-bmp" ? "BM" + r.payload(n) : v.mime == "image/gif" ? "GIF89a" + r.payload(n) : r.payload(n + 1);
        v.value = T::TagValue(v.data.data(), v.data.size(), T::TagDataType::Picture);
        v.value.setMimeType(v.mime);
        if (c.pictureMeta && r.chance(70)) {
            v.desc = text(r, c, 60);
            auto t = encoded(r, v.desc, c);
            v.value.setDescription(std::string_view(t.dataPointer(), t.dataSize()), t.dataEncoding());
        }
        if (c.pictureType)
            v.a = static_cast<long>(r.below(21));
        break;
    }
    case Kind::Comment: {
        v.text = text(r, c, c.maxChars);
        v.value = encoded(r, v.text, c);
        if (c.commentMeta) {
            if (r.chance(60)) {
                v.desc = text(r, c, 40);
                auto enc = v.value.dataEncoding();
                if (enc == T::TagTextEncoding::Latin1 && !isLatin1(v.desc))
                    enc = T::TagTextEncoding::Utf8, v.value = utf8Value(v.text); // both strings of a comment share the encoding
                auto d = enc == T::TagTextEncoding::Latin1 ? utf8ToLatin1(v.desc) : enc == T::TagTextEncoding::Utf8 ? v.desc : toUtf16(v.desc, enc == T::TagTextEncoding::Utf16BigEndian);
                v.value.setDescription(d, enc);
            }
            if (r.chance(60)) {
                v.lang = r.pick(std::vector<const char *>{ "eng", "ger", "fre", "jpn", "xxx" });
                v.value.setLocale(T::Locale(std::string_view(v.lang), T::LocaleFormat::ISO_639_2_B));
            }
        }
        break;
    }
    case Kind::Rating: {
        T::Popularity p;
        p.user = v.text = r.coin() ? "a" + randomText(r, 20, 0) + "@x.org" : Bytes();
        for (auto &ch : p.user)
            if (ch == '|')
                ch = '_';
        v.text = p.user;
        v.a = static_cast<long>(r.below(256));
        p.rating = static_cast<double>(v.a);
        v.count = r.coin() ? r.below(200) : r.next() >> r.below(60);
        p.playCounter = v.count;
        p.scale = c.ratingScale;
        v.value.assignPopularity(p);
        break;
    }
    case Kind::Counter:
        v.count = r.coin() ? r.below(300) : r.below(2000000000);
        v.value = T::TagValue(static_cast<std::int32_t>(v.count));
        break;
    case Kind::Binary:
        v.data = r.payload(1 + r.size(300));
        v.value = T::TagValue(v.data.data(), v.data.size(), T::TagDataType::Binary);
        break;
    }
    v.form = formOf(kind, v.value, c);
    // the form must follow from the parts alone as the conversions of TagValue are under test
    switch (kind) {
    case Kind::Text:
    case Kind::Url:
        v.form = v.text;
        break;
    case Kind::Number:
        v.form = std::to_string(v.a);
        break;
    case Kind::Counter:
        v.form = std::to_string(v.count);
        break;
    case Kind::Position:
        v.form = v.b ? strf("%ld/%ld", v.a, v.b) : strf("%ld", v.a);
        break;
    case Kind::Duration:
        v.form = strf("%ld ms", v.a);
        break;
    case Kind::Genre:
        v.form = v.b ? strf("#%ld", v.a) : v.text;
        break;
    case Kind::Date:
        v.form = isoOf(v.year, v.month, v.day, v.hour, v.minute, v.second);
        break;
    case Kind::Cover:
        v.form = strf("%zu bytes %016llx (", v.data.size(), (unsigned long long)fnv(v.data)) + v.mime + ")(" + v.desc + ")";
        break;
    case Kind::Comment:
        v.form = "(" + v.lang + ")(" + v.desc + ")" + v.text;
        break;
    case Kind::Rating:
        v.form = v.text + strf("|%ld|%llu", v.a, (unsigned long long)v.count);
        break;
    case Kind::Binary:
        v.form = strf("%zu bytes %016llx", v.data.size(), (unsigned long long)fnv(v.data));
        break;
    }
    return v;
}
static Bytes descOf(const T::TagValue &v)
{
    if (v.description().empty())
        return {};
    auto d = T::TagValue(v.description(), v.descriptionEncoding());
    return utf8Of(d);
}
Bytes formOf(Kind kind, const T::TagValue &v, const ValueCaps &c)
{
    try {
        switch (kind) {
        case Kind::Text:
        case Kind::Url:
            return utf8Of(v);
        case Kind::Number:
            return v.type() == T::TagDataType::UnsignedInteger ? std::to_string(v.toUnsignedInteger()) : std::to_string(v.toInteger());
        case Kind::Counter:
            return std::to_string(v.toUnsignedInteger());
        case Kind::Position: {
            auto p = v.toPositionInSet();
            return p.total() ? strf("%d/%d", p.position(), p.total()) : strf("%d", p.position());
        }
        case Kind::Duration:
            return strf("%.0f ms", v.toTimeSpan().totalMilliseconds());
        case Kind::Genre:
            if (v.type() == T::TagDataType::StandardGenreIndex)
                return strf("#%d", v.toStandardGenreIndex());
            return utf8Of(v);
        case Kind::Date: {
            auto e = v.toDateTimeExpression();
            auto &d = e.value;
            auto has = [&](DateTimeParts p) { return static_cast<bool>(e.parts & p); };
            return isoOf(d.year(), has(DateTimeParts::Month) ? d.month() : 0, has(DateTimeParts::Day) ? d.day() : 0, has(DateTimeParts::Hour) ? d.hour() : -1, has(DateTimeParts::Minute) ? d.minute() : -1, has(DateTimeParts::Second) ? d.second() : -1);
        }
        case Kind::Cover:
            return strf("%zu bytes %016llx (", v.dataSize(), (unsigned long long)fnv(v.data())) + v.mimeType() + ")(" + (c.pictureMeta ? descOf(v) : Bytes()) + ")";
        case Kind::Comment: {
            Bytes l;
            if (c.commentMeta)
                for (auto &x : v.locale())
                    l += x;
            return "(" + l + ")(" + (c.commentMeta ? descOf(v) : Bytes()) + ")" + utf8Of(v);
        }
        case Kind::Rating: {
            auto p = v.toPopularity();
            if (c.ratingScale != T::TagType::Unspecified)
                p = p.scaled(c.ratingScale);
            return p.user + strf("|%.0f|%llu", p.rating, (unsigned long long)p.playCounter);
        }
        case Kind::Binary:
            return strf("%zu bytes %016llx", v.dataSize(), (unsigned long long)fnv(v.data()));
        }
    } catch (const std::exception &e) {
        return Bytes("<") + e.what() + ">";
    }
    return {};
}
}
