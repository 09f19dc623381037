// C19: tag values convert exactly, totally and consistently.
#include "lib.h"
#include "bytes.h"
#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>
#include <c++utilities/conversion/conversionexception.h>
#include <tagparser/id3/id3genres.h>
#include <cmath>

using namespace tp;
using T::TagDataType;
using T::TagTextEncoding;
using T::TagValue;
using Conv = CppUtilities::ConversionException;

namespace {
const TagTextEncoding encs[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };
const char *encName(TagTextEncoding e)
{
    switch (e) {
    case TagTextEncoding::Latin1: return "latin1";
    case TagTextEncoding::Utf8: return "utf8";
    case TagTextEncoding::Utf16LittleEndian: return "utf16le";
    case TagTextEncoding::Utf16BigEndian: return "utf16be";
    default: return "unspecified";
    }
}
Bytes encode(std::string_view utf8, TagTextEncoding e)
{
    switch (e) {
    case TagTextEncoding::Latin1: return utf8ToLatin1(utf8);
    case TagTextEncoding::Utf16LittleEndian: return toUtf16(utf8, false);
    case TagTextEncoding::Utf16BigEndian: return toUtf16(utf8, true);
    default: return Bytes(utf8);
    }
}
bool representable(std::string_view utf8, TagTextEncoding e)
{
    return e != TagTextEncoding::Latin1 || isLatin1(utf8);
}
Bytes bom(TagTextEncoding e)
{
    switch (e) {
    case TagTextEncoding::Utf8: return "\xEF\xBB\xBF";
    case TagTextEncoding::Utf16LittleEndian: return "\xFF\xFE";
    case TagTextEncoding::Utf16BigEndian: return "\xFE\xFF";
    default: return {};
    }
}
std::string text(Rng &r)
{
    auto t = randomText(r, r.chance(10) ? 2000 : 40, static_cast<int>(r.below(4)));
    // a leading byte order mark would legitimately be removed
    while (t.size() >= 3 && static_cast<unsigned char>(t[0]) == 0xEF && (t.compare(0, 3, "\xEF\xBB\xBF") == 0 || t.compare(0, 3, "\xEF\xBF\xBE") == 0))
        t.erase(0, 3);
    // ... and so would the corresponding Latin-1 characters not, but keep them out of the comparison of encodings
    return t;
}
// the text assigned in one of the many ways
TagValue makeText(Rng &r, std::string_view utf8, TagTextEncoding e, bool withBom)
{
    const auto raw = (withBom ? bom(e) : Bytes()) + encode(utf8, e);
    switch (r.below(6)) {
    case 0: return TagValue(raw.data(), raw.size(), e);
    case 1: return TagValue(std::string(raw), e);
    case 2: return TagValue(std::string_view(raw), e);
    case 3: return TagValue(raw.data(), raw.size(), TagDataType::Text, e);
    case 4: {
        auto v = r.coin() ? TagValue() : TagValue(std::string(r.size(50), 'x'));
        v.clearMetadata();
        v.assignText(raw, e);
        return v;
    }
    default: {
        auto v = r.coin() ? TagValue() : TagValue(std::string(r.size(50), 'x'));
        v.clearMetadata();
        v.assignData(raw.data(), raw.size(), TagDataType::Text, e);
        return v;
    }
    }
}
template <class F> bool converts(Ctx &c, const char *what, F &&f)
{
    try {
        f();
        return true;
    } catch (const Conv &) {
        return false;
    } catch (const std::exception &e) {
        c.fail(strf("value:%s:exception", what), strf("%s ends with an exception other than the conversion error: %s", what, e.what()));
        return false;
    }
}
std::string show(const TagValue &v)
{
    return strf("%s (%s, %zu bytes: %s)", std::string(T::tagDataTypeString(v.type())).c_str(), encName(v.dataEncoding()), v.dataSize(),
        v.dataPointer() ? hex(v.data(), 40).c_str() : "");
}

void textCase(Ctx &c)
{
    auto &r = c.rng;
    const auto t = text(r);
    const auto e1 = r.pick(encs);
    c.mix(t);
    c.cover(strf("text:%s", encName(e1)));
    if (!representable(t, e1)) {
        // assigning UTF-8 with conversion to an encoding not able to represent it must be reported
        TagValue v(std::string("old"));
        if (converts(c, "assignText", [&] { v.assignText(t, TagTextEncoding::Utf8, TagTextEncoding::Latin1); }))
            c.fail("value:text:lossy-assign", strf("text %s assigned as Latin-1 although not representable: %s", quote(t).c_str(), show(v).c_str()));
        TagValue u(t, TagTextEncoding::Utf8);
        if (converts(c, "toString", [&] { u.toString(TagTextEncoding::Latin1); }))
            c.fail("value:text:lossy-toString", strf("text %s returned as Latin-1 although not representable", quote(t).c_str()));
        if (converts(c, "convertDataEncoding", [&] { u.convertDataEncoding(TagTextEncoding::Latin1); }))
            c.fail("value:text:lossy-convert", strf("text %s converted to Latin-1 although not representable", quote(t).c_str()));
        if (u.toString() != t || u.dataEncoding() != TagTextEncoding::Utf8)
            c.fail("value:text:lost-on-failed-convert", strf("text %s is %s after failed conversion", quote(t).c_str(), show(u).c_str()));
        c.nontrivial = true;
        c.count("unrepresentable");
        return;
    }
    // direct assignment
    const auto withBom = r.chance(30);
    auto v = makeText(r, t, e1, withBom);
    const auto check = [&](const TagValue &x, TagTextEncoding e, const char *what) {
        if (x.type() != TagDataType::Text || x.dataEncoding() != e)
            c.fail(strf("value:text:%s-type", what), strf("expected text in %s, got %s", encName(e), show(x).c_str()));
        const auto want = encode(t, e);
        if (Bytes(x.dataPointer() ? x.data() : std::string_view()) != want)
            c.fail(strf("value:text:%s-%s", what, encName(e)), strf("%s: text %s stored as %s, expected %s", what, quote(t).c_str(), show(x).c_str(), hex(want, 60).c_str()));
        if (x.isEmpty() != t.empty() || static_cast<bool>(x) == t.empty())
            c.fail("value:text:empty", strf("isEmpty() is %d for %s", x.isEmpty(), quote(t).c_str()));
    };
    check(v, e1, withBom ? "assign-with-bom" : "assign");
    // assignment with conversion
    {
        const auto e2 = r.pick(encs);
        if (representable(t, e2)) {
            const auto raw = (withBom ? bom(e1) : Bytes()) + encode(t, e1);
            TagValue x;
            if (converts(c, "assignText", [&] {
                    switch (r.below(3)) {
                    case 0: x = TagValue(raw.data(), raw.size(), e1, e2); break;
                    case 1: x = TagValue(std::string_view(raw), e1, e2); break;
                    default: x.assignText(raw, e1, e2);
                    }
                }))
                check(x, e2, "assign-converting");
            else
                c.fail(strf("value:text:assign-%s-%s", encName(e1), encName(e2)), strf("text %s can not be assigned converting", quote(t).c_str()));
            c.cover(strf("conv:%s>%s", encName(e1), encName(e2)));
        }
    }
    // reading in each encoding
    for (const auto e : encs) {
        if (!representable(t, e))
            continue;
        std::string s;
        if (!converts(c, "toString", [&] { s = v.toString(e); }) || s != encode(t, e))
            c.fail(strf("value:text:read-%s-%s", encName(e1), encName(e)), strf("text %s in %s reads as %s in %s", quote(t).c_str(), encName(e1), hex(s, 60).c_str(), encName(e)));
        if (e == TagTextEncoding::Utf16BigEndian || e == TagTextEncoding::Utf16LittleEndian) {
            std::u16string w;
            if (!converts(c, "toWString", [&] { w = v.toWString(e); }) || Bytes(reinterpret_cast<const char *>(w.data()), w.size() * 2) != encode(t, e))
                c.fail(strf("value:text:wread-%s-%s", encName(e1), encName(e)), strf("text %s in %s reads differently as wide string", quote(t).c_str(), encName(e1)));
            T::TagValue::ensureHostByteOrder(w, e);
            if (Bytes(reinterpret_cast<const char *>(w.data()), w.size() * 2) != toUtf16(t, false))
                c.fail("value:text:host-order", "byte order not converted to the one of the host");
        }
    }
    if (v.toDisplayString() != t)
        c.fail("value:text:display", strf("text %s displayed as %s", quote(t).c_str(), quote(v.toDisplayString()).c_str()));
    // chain of conversions in place
    for (auto n = r.range(1, 5); n; --n) {
        const auto e = r.pick(encs);
        if (!representable(t, e))
            continue;
        if (!converts(c, "convertDataEncoding", [&] { v.convertDataEncoding(e); })) {
            c.fail(strf("value:text:convert-fails-%s", encName(e)), strf("text %s can not be converted", quote(t).c_str()));
            break;
        }
        check(v, e, "convert");
    }
    // the description has the same life
    {
        auto e = e1;
        v.setDescription(encode(t, e), e);
        for (auto n = r.range(1, 4); n; --n) {
            const auto e2 = r.pick(encs);
            if (!representable(t, e2))
                continue;
            if (converts(c, "convertDescriptionEncoding", [&] { v.convertDescriptionEncoding(e2); }))
                e = e2;
            else
                c.fail("value:description:convert", "description can not be converted");
            if (v.description() != encode(t, e) || v.descriptionEncoding() != e)
                c.fail(strf("value:description:%s", encName(e)), strf("description %s became %s in %s", quote(t).c_str(), hex(v.description(), 60).c_str(), encName(v.descriptionEncoding())));
        }
    }
    // several values at once
    {
        std::vector<TagValue> vals;
        vals.push_back(v);
        vals.emplace_back(12);
        vals.emplace_back(std::string_view("plain"), TagTextEncoding::Latin1);
        const auto s = TagValue::toStrings(vals);
        if (s.size() != 3 || s[0] != t || s[1] != "12" || s[2] != "plain")
            c.fail("value:toStrings", "toStrings() does not return the texts of all values");
    }
    c.count("text");
    c.nontrivial = !t.empty();
}

void invalidTextCase(Ctx &c)
{
    auto &r = c.rng;
    Bytes raw;
    TagTextEncoding e;
    switch (r.below(4)) {
    case 0:
        raw = "abc\xC3\x28xyz";
        e = TagTextEncoding::Utf8;
        break;
    case 1:
        raw = Bytes("ab\x80") + r.payload(r.below(20));
        e = TagTextEncoding::Utf8;
        break;
    case 2:
        raw = Bytes("a\0\0\xDCz\0", 6);
        e = TagTextEncoding::Utf16LittleEndian;
        break;
    default:
        raw = Bytes("\0a\xDC\0\0z", 6);
        e = TagTextEncoding::Utf16BigEndian;
    }
    c.mix(raw);
    c.cover("invalid-text");
    TagValue v(std::string_view(raw), e), w(std::string_view("abc"), TagTextEncoding::Utf8);
    w.setDescription("x");
    auto d = w;
    d.setDescription(raw, e);
    for (const auto to : encs) {
        if (to == e)
            continue;
        if (converts(c, "toString", [&] { v.toString(to); }))
            c.fail(strf("value:invalid:toString-%s-%s", encName(e), encName(to)), strf("invalid text %s converts without error", hex(raw).c_str()));
        if (converts(c, "toWString", [&] { v.toWString(to); }))
            c.fail(strf("value:invalid:toWString-%s-%s", encName(e), encName(to)), strf("invalid text %s converts without error", hex(raw).c_str()));
        auto x = v;
        if (converts(c, "convertDataEncoding", [&] { x.convertDataEncoding(to); }) || Bytes(x.data()) != raw || x.dataEncoding() != e)
            c.fail(strf("value:invalid:convert-%s-%s", encName(e), encName(to)), strf("invalid text %s became %s", hex(raw).c_str(), show(x).c_str()));
        auto y = d;
        if (converts(c, "convertDescriptionEncoding", [&] { y.convertDescriptionEncoding(to); }) || y.description() != raw)
            c.fail(strf("value:invalid:description-%s-%s", encName(e), encName(to)), strf("invalid description %s became %s", hex(raw).c_str(), hex(y.description()).c_str()));
        TagValue other(std::string_view(encode("abc", to)), to);
        for (const auto flags : { T::TagValueComparisionFlags::None, T::TagValueComparisionFlags::CaseInsensitive, T::TagValueComparisionFlags::IgnoreMetaData })
            if (!converts(c, "compareTo", [&] {
                    if (v.compareTo(other, flags) || other.compareTo(v, flags))
                        c.fail("value:invalid:equal", "invalid text equals valid text");
                }))
                c.fail("value:invalid:compare-throws", "comparing with invalid text throws");
        other.setDescription(encode("abc", to), to);
        if (!converts(c, "compareTo", [&] {
                if (d == other || other == d)
                    c.fail("value:invalid:description-equal", "invalid description equals valid one");
            }))
            c.fail("value:invalid:compare-description-throws", "comparing with an invalid description throws");
    }
    if (!(v == v) || !(d == d) || !v.compareTo(v, T::TagValueComparisionFlags::CaseInsensitive))
        c.fail("value:invalid:reflexive", "value with invalid text does not equal itself");
    if (!converts(c, "toDisplayString", [&] { v.toDisplayString(); }))
        c.fail("value:invalid:display", "toDisplayString() throws");
    c.nontrivial = true;
    c.count("invalid");
}

// checks that the text form of v, in any encoding, converts back
template <class F> void viaText(Ctx &c, const char *what, const TagValue &v, const std::string *want, F &&back)
{
    for (const auto e : encs) {
        std::string s;
        if (!converts(c, what, [&] { s = v.toString(e); })) {
            c.fail(strf("value:%s:to-text", what), strf("%s has no text form", show(v).c_str()));
            return;
        }
        if (want && s != encode(*want, e))
            c.fail(strf("value:%s:text-%s", what, encName(e)), strf("%s is %s as text, expected %s", show(v).c_str(), quote(s).c_str(), want->c_str()));
        const auto t = TagValue(std::string_view(s), e);
        if (!converts(c, what, [&] { back(t, e); }))
            c.fail(strf("value:%s:from-text-%s", what, encName(e)), strf("%s does not convert back from text %s", show(v).c_str(), quote(s).c_str()));
        if (e == TagTextEncoding::Utf16LittleEndian || e == TagTextEncoding::Utf16BigEndian) {
            std::u16string w;
            if (!converts(c, what, [&] { w = v.toWString(e); }) || (want && Bytes(reinterpret_cast<const char *>(w.data()), w.size() * 2) != encode(*want, e)))
                c.fail(strf("value:%s:wide-%s", what, encName(e)), strf("%s has wrong wide text form", show(v).c_str()));
            const auto wt = TagValue(reinterpret_cast<const char *>(w.data()), w.size() * 2, e);
            if (!converts(c, what, [&] { back(wt, e); }))
                c.fail(strf("value:%s:from-wide-%s", what, encName(e)), strf("%s does not convert back from wide text", show(v).c_str()));
        }
    }
    std::string s;
    if (!converts(c, what, [&] { s = v.toDisplayString(); }) || s != v.toString(TagTextEncoding::Utf8))
        c.fail(strf("value:%s:display", what), "toDisplayString() differs from the text form");
}

std::int64_t number(Rng &r, std::int64_t lo, std::int64_t hi)
{
    switch (r.below(6)) {
    case 0: return r.pick({ lo, hi, std::int64_t(0), lo + 1, hi - 1 });
    case 1: return std::min(hi, static_cast<std::int64_t>(r.below(100)));
    case 2: return std::max(lo, -static_cast<std::int64_t>(r.below(100)));
    default: {
        const auto v = static_cast<std::int64_t>(r.next() >> (1 + r.below(62))) * (r.coin() ? 1 : -1);
        return v < lo || v > hi ? static_cast<std::int64_t>(r.below(static_cast<std::uint64_t>(std::min<std::int64_t>(hi, 1000000)))) : v;
    }
    }
}

void numberCase(Ctx &c)
{
    auto &r = c.rng;
    constexpr std::int64_t i32max = 2147483647;
    const auto kind = r.below(8);
    c.cover(strf("number:%llu", static_cast<unsigned long long>(kind)));
    switch (kind) {
    case 0: {
        const auto n = static_cast<std::int32_t>(number(r, -i32max, i32max));
        c.mix(static_cast<std::uint64_t>(n));
        TagValue v(n);
        if (r.coin())
            v.assignInteger(n);
        const auto want = std::to_string(n);
        viaText(c, "integer", v, &want, [&](const TagValue &t, TagTextEncoding e) {
            if (t.toInteger() != n)
                c.fail(strf("value:integer:back-%s", encName(e)), strf("%d became %d", n, t.toInteger()));
            if (!t.compareTo(v) || !v.compareTo(t))
                c.fail(strf("value:integer:equals-text-%s", encName(e)), strf("%d does not equal its text", n));
            if (n >= 0 && t.toUnsignedInteger() != static_cast<std::uint64_t>(n))
                c.fail("value:integer:unsigned-text", strf("%d became %llu", n, static_cast<unsigned long long>(t.toUnsignedInteger())));
        });
        if (v.toInteger() != n || v.type() != TagDataType::Integer)
            c.fail("value:integer", strf("%d became %d", n, v.toInteger()));
        std::uint64_t u = 0;
        if (converts(c, "toUnsignedInteger", [&] { u = v.toUnsignedInteger(); }) ? n < 0 || u != static_cast<std::uint64_t>(n) : n >= 0)
            c.fail("value:integer:unsigned", strf("%d as unsigned is %llu", n, static_cast<unsigned long long>(u)));
        if (!(v.toPositionInSet() == T::PositionInSet(n)))
            c.fail("value:integer:position", strf("%d as position is %s", n, v.toPositionInSet().toString().c_str()));
        if (v.toPopularity().rating != n)
            c.fail("value:integer:rating", strf("%d as rating is %g", n, v.toPopularity().rating));
        if (v.toTimeSpan().totalTicks() != n)
            c.fail("value:integer:time-span", strf("%d as time span is %lld", n, static_cast<long long>(v.toTimeSpan().totalTicks())));
        break;
    }
    case 1: {
        const auto n = r.chance(20) ? r.pick({ ~0ull, 0ull, 2147483647ull, 2147483648ull, 9223372036854775807ull, 9223372036854775808ull }) : r.next() >> r.below(64);
        c.mix(n);
        TagValue v{ std::uint64_t(n) };
        if (r.coin()) {
            v = TagValue("zzzzzzzzzzzzzzzzzzz");
            v.assignUnsignedInteger(n);
        }
        const auto want = std::to_string(n);
        viaText(c, "unsigned", v, &want, [&](const TagValue &t, TagTextEncoding e) {
            if (t.toUnsignedInteger() != n)
                c.fail(strf("value:unsigned:back-%s", encName(e)), strf("%s became %llu", want.c_str(), static_cast<unsigned long long>(t.toUnsignedInteger())));
            if (!t.compareTo(v) || !v.compareTo(t))
                c.fail(strf("value:unsigned:equals-text-%s", encName(e)), strf("%s does not equal its text", want.c_str()));
            std::int32_t i = 0;
            if (converts(c, "toInteger", [&] { i = t.toInteger(); }) ? n > i32max || i != static_cast<std::int32_t>(n) : n <= i32max)
                c.fail(strf("value:unsigned:text-to-integer-%s", encName(e)), strf("text %s as integer is %d", want.c_str(), i));
        });
        std::int32_t i = 0;
        if (converts(c, "toInteger", [&] { i = v.toInteger(); }) ? n > i32max || i != static_cast<std::int32_t>(n) : n <= i32max)
            c.fail("value:unsigned:integer", strf("%s as integer is %d", want.c_str(), i));
        T::PositionInSet p;
        if (converts(c, "toPositionInSet", [&] { p = v.toPositionInSet(); }) ? n > i32max || p.position() != static_cast<std::int32_t>(n) || p.total() : n <= i32max)
            c.fail("value:unsigned:position", strf("%s as position is %s", want.c_str(), p.toString().c_str()));
        CppUtilities::TimeSpan ts;
        if (converts(c, "toTimeSpan", [&] { ts = v.toTimeSpan(); }) ? n > INT64_MAX || ts.totalTicks() != static_cast<std::int64_t>(n) : n <= INT64_MAX)
            c.fail("value:unsigned:time-span", strf("%s as time span is %lld", want.c_str(), static_cast<long long>(ts.totalTicks())));
        if (v.toPopularity().rating != static_cast<double>(n))
            c.fail("value:unsigned:rating", "wrong rating");
        break;
    }
    case 2: {
        const auto a = static_cast<std::int32_t>(number(r, -i32max, i32max)), b = r.chance(30) ? 0 : static_cast<std::int32_t>(number(r, -i32max, i32max));
        const auto p = T::PositionInSet(a, b);
        c.mix(static_cast<std::uint64_t>(a));
        c.mix(static_cast<std::uint64_t>(b));
        TagValue v(p);
        if (r.coin()) {
            v = TagValue("zzz");
            v.assignPosition(p);
        }
        const auto want = (a ? std::to_string(a) : std::string()) + (b ? "/" + std::to_string(b) : std::string());
        viaText(c, "position", v, &want, [&](const TagValue &t, TagTextEncoding e) {
            if (!(t.toPositionInSet() == p))
                c.fail(strf("value:position:back-%s", encName(e)), strf("%s became %s", want.c_str(), t.toPositionInSet().toString().c_str()));
            if (!p.isNull() && (!t.compareTo(v) || !v.compareTo(t)))
                c.fail(strf("value:position:equals-text-%s", encName(e)), strf("%s does not equal its text", want.c_str()));
        });
        if (!(v.toPositionInSet() == p) || v.toPositionInSet().position() != a || v.toPositionInSet().total() != b)
            c.fail("value:position", strf("%d/%d became %s", a, b, v.toPositionInSet().toString().c_str()));
        if (v.toInteger() != a)
            c.fail("value:position:integer", strf("%d/%d as integer is %d", a, b, v.toInteger()));
        break;
    }
    case 3: {
        const auto ticks = static_cast<std::int64_t>(r.below(r.chance(50) ? 3600ull * 99 : 60ull) * 10000000ull + (r.coin() ? r.below(1000) * 10000 : 0));
        const auto ts = CppUtilities::TimeSpan(ticks);
        c.mix(static_cast<std::uint64_t>(ticks));
        TagValue v(ts);
        if (r.coin())
            v.assignTimeSpan(ts);
        viaText(c, "duration", v, nullptr, [&](const TagValue &t, TagTextEncoding e) {
            if (std::llabs(t.toTimeSpan().totalTicks() - ticks) > 1)
                c.fail(strf("value:duration:back-%s", encName(e)), strf("%lld ticks became %lld via %s", static_cast<long long>(ticks), static_cast<long long>(t.toTimeSpan().totalTicks()), quote(t.toString(TagTextEncoding::Utf8)).c_str()));
        });
        if (v.toTimeSpan() != ts || v.type() != TagDataType::TimeSpan)
            c.fail("value:duration", "wrong duration returned");
        break;
    }
    case 4: {
        const auto dt = CppUtilities::DateTime::fromDateAndTime(static_cast<int>(r.range(1, 9999)), static_cast<int>(r.range(1, 12)), static_cast<int>(r.range(1, 28)),
            static_cast<int>(r.below(24)), static_cast<int>(r.below(60)), static_cast<int>(r.below(60)), r.coin() ? static_cast<double>(r.below(1000)) : 0.0);
        c.mix(dt.totalTicks());
        TagValue v(dt);
        if (r.coin())
            v.assignDateTime(dt);
        viaText(c, "date", v, nullptr, [&](const TagValue &t, TagTextEncoding e) {
            const auto d = static_cast<std::int64_t>(t.toDateTime().totalTicks() - dt.totalTicks());
            if (std::llabs(d) > 1)
                c.fail(strf("value:date:back-%s", encName(e)), strf("%s became %s", dt.toIsoString().c_str(), t.toDateTime().toIsoString().c_str()));
        });
        if (v.toDateTime() != dt || v.type() != TagDataType::DateTime || v.toDateTimeExpression().value != dt)
            c.fail("value:date", "wrong date returned");
        break;
    }
    case 5: {
        // partial dates
        static const char *const exprs[] = { "%04d", "%04d-%02d", "%04d-%02d-%02d", "%04d-%02d-%02dT%02d", "%04d-%02d-%02dT%02d:%02d", "%04d-%02d-%02dT%02d:%02d:%02d" };
        const auto parts = r.below(6);
        char buf[64];
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wformat-nonliteral"
#pragma clang diagnostic ignored "-Wformat-extra-args"
        snprintf(buf, sizeof buf, exprs[parts], static_cast<int>(r.range(1, 9999)), static_cast<int>(r.range(1, 12)), static_cast<int>(r.range(1, 28)), static_cast<int>(r.below(24)),
            static_cast<int>(r.below(60)), static_cast<int>(r.below(60)));
#pragma clang diagnostic pop
        const std::string want = buf;
        c.mix(want);
        CppUtilities::DateTimeExpression ex;
        if (!converts(c, "toDateTimeExpression", [&] { ex = TagValue(want).toDateTimeExpression(); })) {
            c.fail("value:date-expression:parse", strf("%s is not accepted", want.c_str()));
            return;
        }
        TagValue v(ex);
        if (r.coin())
            v.assignDateTimeExpression(ex);
        viaText(c, "date-expression", v, parts == 3 ? nullptr : &want, [&](const TagValue &t, TagTextEncoding e) {
            if (!(t.toDateTimeExpression() == ex))
                c.fail(strf("value:date-expression:back-%s", encName(e)), strf("%s became %s", want.c_str(), t.toDateTimeExpression().toIsoString().c_str()));
        });
        if (!(v.toDateTimeExpression() == ex) || v.toDateTime() != ex.gmt())
            c.fail("value:date-expression", "wrong date returned");
        break;
    }
    case 6: {
        const auto n = static_cast<int>(r.below(static_cast<std::uint64_t>(T::Id3Genres::genreCount())));
        c.mix(static_cast<std::uint64_t>(n));
        TagValue v;
        v.assignStandardGenreIndex(n);
        const auto want = std::string(T::Id3Genres::stringFromIndex(n));
        viaText(c, "genre", v, &want, [&](const TagValue &t, TagTextEncoding e) {
            // some names are in the list twice
            if (T::Id3Genres::stringFromIndex(t.toStandardGenreIndex()) != want)
                c.fail(strf("value:genre:back-%s", encName(e)), strf("genre %d (%s) became %d", n, want.c_str(), t.toStandardGenreIndex()));
            if (!(t == v) || !(v == t))
                c.fail(strf("value:genre:equals-text-%s", encName(e)), strf("genre %s does not equal its text", want.c_str()));
        });
        const auto digits = std::to_string(n);
        for (const auto e : encs)
            if (TagValue(std::string_view(encode(digits, e)), e).toStandardGenreIndex() != n)
                c.fail("value:genre:number", strf("genre number %d became %d", n, TagValue(std::string_view(digits)).toStandardGenreIndex()));
        if (v.toStandardGenreIndex() != n || TagValue(n).toStandardGenreIndex() != n || TagValue(std::uint64_t(n)).toStandardGenreIndex() != n)
            c.fail("value:genre", "wrong genre returned");
        const auto beyond = T::Id3Genres::genreCount() + static_cast<int>(r.below(1000));
        if (beyond != 255 && beyond != T::Id3Genres::emptyGenreIndex()) {
            if (converts(c, "toStandardGenreIndex", [&] { TagValue(beyond).toStandardGenreIndex(); }) || converts(c, "toStandardGenreIndex", [&] { TagValue(std::to_string(beyond)).toStandardGenreIndex(); }))
                c.fail("value:genre:beyond", strf("%d accepted as genre", beyond));
        }
        break;
    }
    default: {
        T::Popularity p;
        static const double ratings[] = { 0, 1, 2.5, 5, 255, 100, 0.25, 4.75, 33.5, -1, 20 };
        static const char *const users[] = { "", "me", "foo@bar.com", "Jürgen", "user name", "日本" };
        static const T::TagType scales[] = { T::TagType::Unspecified, T::TagType::Id3v2Tag, T::TagType::MatroskaTag, T::TagType::VorbisComment };
        p.rating = r.pick(ratings);
        p.user = r.pick(users);
        p.playCounter = r.coin() ? 0 : r.next() >> r.below(64);
        p.scale = r.pick(scales);
        c.mix(p.toString());
        TagValue v(p);
        if (r.coin()) {
            v = TagValue("zzzzzz");
            v.assignPopularity(p);
        }
        if (!(v.toPopularity() == p))
            c.fail("value:popularity", strf("%s became %s", p.toString().c_str(), v.toPopularity().toString().c_str()));
        const auto latin = isLatin1(p.user);
        const auto s = p.toString();
        if (p.isEmpty() != s.empty())
            c.fail("value:popularity:empty", "text form of empty popularity");
        for (const auto e : encs) {
            if (e == TagTextEncoding::Latin1 && !latin)
                continue;
            // (the text form is converted from UTF-8 only for UTF-16)
            if (e == TagTextEncoding::Latin1 && p.user.find('\xC3') != std::string::npos)
                continue;
            const auto t = TagValue(v.toString(e), e);
            auto q = t.toPopularity();
            if (q.scale != T::TagType::Unspecified)
                c.fail("value:popularity:text-scale", "scale of text is not generic");
            q.scale = p.scale;
            if (!(q == p))
                c.fail(strf("value:popularity:back-%s", encName(e)), strf("%s became %s", s.c_str(), q.toString().c_str()));
        }
        // integers
        std::int32_t i = 0;
        if (converts(c, "toInteger", [&] { i = v.toInteger(); }) && i != static_cast<std::int32_t>(p.rating))
            c.fail("value:popularity:integer", strf("rating %g as integer is %d", p.rating, i));
        TagValue big(T::Popularity{ .rating = r.pick({ 1e10, -1e10, 1e300, -3e9, std::nan(""), 2147483648.0 }) });
        if (converts(c, "toInteger", [&] { big.toInteger(); }))
            c.fail("value:popularity:integer-range", strf("rating %g converts to integer", big.toPopularity().rating));
        TagValue bigu(T::Popularity{ .rating = r.pick({ 1e20, -1.0, 1e300, 18446744073709551616.0, std::nan("") }) });
        if (converts(c, "toUnsignedInteger", [&] { bigu.toUnsignedInteger(); }))
            c.fail("value:popularity:unsigned-range", strf("rating %g converts to unsigned integer", bigu.toPopularity().rating));
        // scales
        struct Scale {
            T::TagType type;
            double low, high;
        };
        static const Scale sc[] = { { T::TagType::Unspecified, 1, 5 }, { T::TagType::Id3v2Tag, 1, 255 }, { T::TagType::MatroskaTag, 0, 5 }, { T::TagType::VorbisComment, 20, 100 }, { T::TagType::OggVorbisComment, 20, 100 } };
        const auto &from = r.pick(sc), &to = r.pick(sc);
        const auto f = static_cast<double>(r.below(101)) / 100.0;
        T::Popularity q{ .user = "u", .rating = from.low + f * (from.high - from.low), .playCounter = 3, .scale = from.type };
        const auto w = TagValue(q).toScaledPopularity(to.type);
        const auto wantRating = to.low + f * (to.high - to.low);
        if (w.scale != to.type || w.user != "u" || w.playCounter != 3 || std::abs(w.rating - wantRating) > 1e-9 * to.high)
            c.fail("value:popularity:scale", strf("rating %g of %s became %g of %s, expected %g", q.rating, std::to_string(static_cast<int>(from.type)).c_str(), w.rating, std::to_string(static_cast<int>(to.type)).c_str(), wantRating));
        auto back = w;
        if (!back.scaleTo(from.type) || std::abs(back.rating - q.rating) > 1e-9 * from.high)
            c.fail("value:popularity:scale-back", strf("rating %g became %g", q.rating, back.rating));
        auto none = q;
        if (none.scaleTo(T::TagType::Mp4Tag) || !(none == q))
            c.fail("value:popularity:scale-none", "unsupported scale accepted or value changed");
        if (converts(c, "toScaledPopularity", [&] { TagValue(q).toScaledPopularity(T::TagType::Id3v1Tag); }))
            c.fail("value:popularity:scale-none2", "unsupported scale accepted");
        break;
    }
    }
    c.nontrivial = true;
    c.count("numbers");
}

// any value of any type, perhaps with unsuitable content
TagValue anyValue(Rng &r)
{
    TagValue v;
    switch (r.below(14)) {
    case 0: break;
    case 1: v = TagValue(static_cast<int>(r.next() >> r.below(64))); break;
    case 2: v = TagValue(std::uint64_t(r.next() >> r.below(64))); break;
    case 3: v = TagValue(T::PositionInSet(static_cast<int>(r.next()), static_cast<int>(r.below(20)))); break;
    case 4: v.assignStandardGenreIndex(static_cast<int>(r.below(300)) - 20); break;
    case 5: v = TagValue(CppUtilities::TimeSpan(static_cast<std::int64_t>(r.below(1ull << 50)))); break;
    case 6: v = TagValue(CppUtilities::DateTime(r.below(3000000000000000000ull))); break;
    case 7: v = TagValue(T::Popularity{ .user = randomText(r, 8), .rating = static_cast<double>(r.below(300)) - 20, .playCounter = r.below(100) }); break;
    case 8: {
        const auto d = r.payload(r.below(40));
        v.assignData(d.data(), d.size(), r.pick({ TagDataType::Picture, TagDataType::Binary, TagDataType::Undefined }));
        break;
    }
    case 9: {
        // fixed size types with unsuitable data
        auto n = r.below(20);
        if (n == 4 || n == 8)
            ++n;
        const auto d = r.payload(n);
        v.assignData(d.data(), d.size(),
            r.pick({ TagDataType::Integer, TagDataType::UnsignedInteger, TagDataType::PositionInSet, TagDataType::StandardGenreIndex, TagDataType::TimeSpan, TagDataType::DateTime }));
        break;
    }
    default: {
        static const char *const texts[] = { "", "abc", "12", "-3", "2/4", "/4", "4/", "Rock", "2020", "2020-13-45", "12:30", "1|2|3", "a|b|c", "99999999999999999999", "1.5", "0x10", "12abc", " 7", "--1", "-", "/",
            "2001-02-03T04:05:06", "2001-02-30", "24:61:99", "user|3.5|7", "||", "|||||", "3.5|", "٣", "½" };
        const std::string t = r.chance(20) ? randomText(r, 20) : r.pick(texts);
        auto e = r.pick(encs);
        if (!representable(t, e))
            e = TagTextEncoding::Utf8;
        v = TagValue(std::string_view(encode(t, e)), e);
        if (r.chance(10) && !t.empty()) { // odd number of bytes or other invalid encoding
            auto raw = encode(t, e);
            raw.pop_back();
            v.assignData(raw.data(), raw.size(), TagDataType::Text, e);
        }
    }
    }
    return v;
}

void totalCase(Ctx &c)
{
    auto &r = c.rng;
    const auto v = anyValue(r);
    c.mix(std::string_view(v.dataPointer() ? v.data() : std::string_view()));
    c.mix(static_cast<std::uint64_t>(v.type()));
    c.cover(strf("total:%s", std::string(T::tagDataTypeString(v.type())).c_str()));
    c.note(show(v));
    std::string bits;
    bool ok[12] = {};
    int n = 0;
    const auto go = [&](const char *what, auto &&f) {
        const auto before = v.dataPointer() ? Bytes(v.data()) : Bytes();
        ok[n] = converts(c, what, f);
        bits += ok[n++] ? '1' : '0';
        if ((v.dataPointer() ? Bytes(v.data()) : Bytes()) != before)
            c.fail(strf("value:%s:modifies", what), strf("%s modifies the value", what));
    };
    go("toInteger", [&] { (void)v.toInteger(); });
    go("toUnsignedInteger", [&] { (void)v.toUnsignedInteger(); });
    go("toPositionInSet", [&] { (void)v.toPositionInSet(); });
    go("toStandardGenreIndex", [&] { (void)v.toStandardGenreIndex(); });
    go("toTimeSpan", [&] { (void)v.toTimeSpan(); });
    go("toDateTime", [&] { (void)v.toDateTime(); });
    go("toDateTimeExpression", [&] { (void)v.toDateTimeExpression(); });
    go("toPopularity", [&] { (void)v.toPopularity(); });
    go("toString", [&] { (void)v.toString(r.pick(encs)); });
    go("toWString", [&] { (void)v.toWString(r.pick({ TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian })); });
    go("toDisplayString", [&] {
        (void)v.toDisplayString();
    });
    if (!ok[10])
        c.fail("value:display-throws", strf("toDisplayString() throws for %s", show(v).c_str()));
    c.cover("total:" + bits);
    // what must fail
    if (!v.isEmpty()) {
        switch (v.type()) {
        case TagDataType::Picture:
        case TagDataType::Binary:
        case TagDataType::Undefined:
            if (bits.substr(0, 10) != "0000000000")
                c.fail("value:binary-converts", strf("%s converts: %s", show(v).c_str(), bits.c_str()));
            break;
        case TagDataType::Integer:
        case TagDataType::UnsignedInteger:
        case TagDataType::StandardGenreIndex:
        case TagDataType::TimeSpan:
        case TagDataType::DateTime:
        case TagDataType::PositionInSet:
            if (v.dataSize() != 4 && v.dataSize() != 8 && bits.substr(0, 10) != "0000000000")
                c.fail("value:odd-size-converts", strf("%s converts: %s", show(v).c_str(), bits.c_str()));
            break;
        case TagDataType::Text: {
            // independent reading of a number
            std::string t;
            try {
                t = v.toString(TagTextEncoding::Utf8);
            } catch (const Conv &) {
                break;
            }
            std::string d;
            for (const auto ch : t)
                if (ch != ' ')
                    d += ch;
            const auto neg = !d.empty() && d[0] == '-';
            auto digits = neg ? d.substr(1) : d;
            const auto allDigits = digits.find_first_not_of("0123456789") == std::string::npos;
            while (digits.size() > 1 && digits[0] == '0')
                digits.erase(0, 1);
            if (!allDigits && (ok[0] || ok[1]))
                c.fail("value:text-not-a-number", strf("%s converts to a number", show(v).c_str()));
            if (allDigits && !digits.empty()) {
                const auto fits = digits.size() < 10 || (digits.size() == 10 && digits <= "2147483647");
                const auto fitsU = !neg && (digits.size() < 20 || (digits.size() == 20 && digits <= "18446744073709551615"));
                if (!(neg && t[0] == ' ')) {
                    if (ok[0] != fits || (fits && v.toInteger() != (neg ? -1 : 1) * std::stoll(digits)))
                        c.fail("value:text-number", strf("%s as integer", show(v).c_str()));
                    if (ok[1] != fitsU || (fitsU && v.toUnsignedInteger() != std::stoull(digits)))
                        c.fail("value:text-unsigned-number", strf("%s as unsigned integer", show(v).c_str()));
                }
            }
            break;
        }
        default:;
        }
    }
    c.nontrivial = !v.isEmpty();
    c.count("total");
}

std::string asciiLower(std::string s)
{
    for (auto &ch : s)
        if (ch >= 'A' && ch <= 'Z')
            ch = static_cast<char>(ch - 'A' + 'a');
    return s;
}

void compareCase(Ctx &c)
{
    auto &r = c.rng;
    // few contents, so that equal ones meet
    struct Item {
        TagValue v;
        std::string content, meta; // the model: equal iff these are equal
        std::string descr, lower, lowerDescr;
    };
    std::vector<Item> items;
    const auto type = r.below(8);
    std::vector<std::string> texts;
    for (int i = 0; i < 2; ++i) {
        auto t = text(r).substr(0, 60);
        while (!t.empty() && (static_cast<unsigned char>(t.back()) & 0xC0) == 0x80)
            t.pop_back();
        if (!t.empty() && static_cast<unsigned char>(t.back()) >= 0xC0)
            t.pop_back();
        texts.push_back(t);
    }
    texts.push_back("Title");
    texts.push_back("tITLE");
    texts.push_back("\xE4\x85\xA1"); // U+4161
    texts.push_back("\xE6\x85\xA1"); // U+6161
    texts.push_back("");
    static const char *const descs[] = { "", "desc", "DESC", "für", "\xE4\x85\xA1", "\xE6\x85\xA1" };
    const auto n = r.range(3, 7);
    for (std::uint64_t i = 0; i < n; ++i) {
        Item it;
        switch (type) {
        default: {
            const auto t = r.pick(texts);
            auto e = r.pick(encs);
            if (!representable(t, e))
                e = TagTextEncoding::Utf16BigEndian;
            it.v = makeText(r, t, e, r.chance(20));
            it.content = "t" + t;
            break;
        }
        case 3: {
            const auto k = static_cast<int>(r.below(4)) - 1;
            if (r.coin())
                it.v = TagValue(k);
            else {
                auto e = r.pick(encs);
                it.v = TagValue(std::string_view(encode(std::to_string(k), e)), e);
            }
            it.content = "i" + std::to_string(k);
            // mixed values: only texts written canonically
            break;
        }
        case 4: {
            const auto p = T::PositionInSet(static_cast<int>(r.range(1, 2)), static_cast<int>(r.below(2)));
            it.v = TagValue(p);
            it.content = p.toString();
            break;
        }
        case 5: {
            const auto p = T::Popularity{ .user = r.pick({ "a", "A" }), .rating = static_cast<double>(r.below(2)), .playCounter = r.below(2) };
            it.v = TagValue(p);
            it.content = p.user + "|" + std::to_string(p.rating) + std::to_string(p.playCounter);
            break;
        }
        case 6: {
            Bytes d = r.pick({ "aa", "AA", "ab", "abc" });
            const auto t = r.pick({ TagDataType::Picture, TagDataType::Binary, TagDataType::Undefined });
            it.v.assignData(d.data(), d.size(), t);
            it.content = std::to_string(static_cast<int>(t)) + d;
            break;
        }
        case 7: {
            const auto k = r.below(3);
            switch (r.below(3)) {
            case 0: it.v = TagValue(CppUtilities::TimeSpan(static_cast<std::int64_t>(k))); it.content = "s"; break;
            case 1: it.v = TagValue(CppUtilities::DateTime(k)); it.content = "d"; break;
            default: it.v = TagValue(CppUtilities::DateTimeExpression{ .value = CppUtilities::DateTime(k), .delta = CppUtilities::TimeSpan(), .parts = CppUtilities::DateTimeParts::Date }); it.content = "e";
            }
            it.content += std::to_string(k);
            break;
        }
        }
        it.lower = type == 6 ? it.content : asciiLower(it.content);
        const auto d = std::string(r.coin() ? "" : r.pick(descs));
        if (r.coin()) {
            auto e = r.pick(encs);
            if (!representable(d, e))
                e = TagTextEncoding::Utf16LittleEndian;
            it.v.setDescription(encode(d, e), e);
            it.descr = d;
        }
        it.lowerDescr = asciiLower(it.descr);
        if (r.chance(20)) {
            it.v.setMimeType("image/png");
            it.meta += "m";
        }
        if (r.chance(20)) {
            it.v.setLocale(T::Locale(std::string("eng"), T::LocaleFormat::ISO_639_2_B));
            it.meta += "l";
        }
        if (r.chance(20)) {
            it.v.setReadonly(true);
            it.meta += "r";
        }
        items.emplace_back(std::move(it));
    }
    c.cover(strf("compare:%llu", static_cast<unsigned long long>(type)));
    using F = T::TagValueComparisionFlags;
    for (const auto &a : items)
        for (const auto &b : items) {
            for (const auto flags : { 0u, 1u, 2u, 3u }) {
                const auto ci = (flags & 1) != 0, im = (flags & 2) != 0;
                bool got = false;
                if (!converts(c, "compareTo", [&] { got = a.v.compareTo(b.v, static_cast<F>(flags)); }))
                    c.fail("value:compare:throws", "comparison throws");
                const auto want = (ci ? a.lower == b.lower : a.content == b.content) && (im || (a.meta == b.meta && (ci ? a.lowerDescr == b.lowerDescr : a.descr == b.descr)));
                c.count(want ? "equal" : "different");
                if (got != want)
                    c.fail(strf("value:compare:%llu%s%s%s", static_cast<unsigned long long>(type), want ? ":equal" : ":different", ci ? ":ignore-case" : "", im ? ":ignore-meta" : ""),
                        strf("comparing %s, description %s (%s), %s with %s, description %s (%s), %s (flags %u): got %d", show(a.v).c_str(), quote(a.descr).c_str(), encName(a.v.descriptionEncoding()), a.meta.c_str(),
                            show(b.v).c_str(), quote(b.descr).c_str(), encName(b.v.descriptionEncoding()), b.meta.c_str(), flags, got));
            }
            if ((a.v == b.v) == (a.v != b.v))
                c.fail("value:compare:operators", "operators disagree");
        }
    c.nontrivial = true;
}

bool same(const TagValue &a, const TagValue &b)
{
    return a.type() == b.type() && a.dataSize() == b.dataSize() && (a.isEmpty() || a.data() == b.data()) && a.description() == b.description() && a.mimeType() == b.mimeType() && a.flags() == b.flags()
        && a.dataEncoding() == b.dataEncoding() && a.descriptionEncoding() == b.descriptionEncoding() && a.locale() == b.locale() && a.nativeData() == b.nativeData() && a.isEmpty() == b.isEmpty();
}

void copyCase(Ctx &c)
{
    auto &r = c.rng;
    const auto build = [&] {
        auto v = anyValue(r);
        if (r.coin())
            v.setDescription("some description", TagTextEncoding::Utf8);
        if (r.coin())
            v.setMimeType("image/jpeg");
        if (r.coin())
            v.setLocale(T::Locale(std::string("deu"), T::LocaleFormat::ISO_639_2_T));
        if (r.coin())
            v.setReadonly(true);
        if (r.coin())
            v.nativeData()["key"] = "value";
        return v;
    };
    auto v = build();
    c.mix(std::string_view(v.dataPointer() ? v.data() : std::string_view()));
    c.cover("copy:" + std::string(T::tagDataTypeString(v.type())));
    const auto comparable = v.isEmpty() || v.type() == TagDataType::Text || v.type() == TagDataType::Picture || v.type() == TagDataType::Binary;
    auto w = v; // copy construction
    if (!same(v, w) || (comparable && !(v == w)))
        c.fail("value:copy", strf("copy of %s is %s", show(v).c_str(), show(w).c_str()));
    auto x = build();
    x = v; // copy assignment
    if (!same(v, x))
        c.fail("value:copy-assign", strf("assigned copy of %s is %s", show(v).c_str(), show(x).c_str()));
    // independent
    const auto kept = w;
    for (auto n = r.range(1, 4); n; --n)
        switch (r.below(9)) {
        case 0: x.assignText(std::string("changed")); break;
        case 1: x.assignInteger(7); break;
        case 2:
            if (x.dataPointer() && x.dataSize())
                x.dataPointer()[r.below(x.dataSize())] ^= 0x55;
            break;
        case 3: x.clearDataAndMetadata(); break;
        case 4: x.setDescription("else"); break;
        case 5: x.nativeData()["key"] = "other"; break;
        case 6: x.locale().clear(); break;
        case 7: x.setReadonly(!x.isLabeledAsReadonly()); break;
        default: converts(c, "convertDataEncoding", [&] { x.convertDataEncoding(r.pick(encs)); });
        }
    if (!same(v, kept))
        c.fail("value:copy-independent", strf("changing the copy changes the source: %s became %s", show(kept).c_str(), show(v).c_str()));
    // self assignment
    auto &self = v;
    v = self;
    if (!same(v, kept))
        c.fail("value:self-assign", "self assignment changes the value");
    // moving
    TagValue y = r.coin() ? TagValue(std::move(v)) : [&] {
        auto z = build();
        z = std::move(v);
        return z;
    }();
    if (!same(y, kept))
        c.fail("value:move", strf("moved %s became %s", show(kept).c_str(), show(y).c_str()));
    // the moved-from value is usable again
    switch (r.below(5)) {
    case 0: {
        Bytes d = r.payload(r.range(1, 30));
        v.assignData(d.data(), d.size(), TagDataType::Binary);
        if (v.data() != d)
            c.fail("value:moved-from", "value assigned after moving is wrong");
        break;
    }
    case 1:
        v.assignText(std::string("again"));
        if (v.toString() != "again")
            c.fail("value:moved-from-text", "value assigned after moving is wrong");
        break;
    case 2: {
        auto copy = v;
        copy.assignPosition(T::PositionInSet(3, 4));
        if (!(copy.toPositionInSet() == T::PositionInSet(3, 4)))
            c.fail("value:moved-from-position", "value assigned after moving is wrong");
        break;
    }
    case 3:
        (void)(v == y);
        (void)v.data();
        (void)v.toDisplayString();
        if (!v.isEmpty())
            c.fail("value:moved-from-empty", "moved-from value is not empty");
        break;
    default: v = y;
        if (!same(v, kept))
            c.fail("value:moved-back", "value assigned after moving is wrong");
    }
    // clearing
    y.clearData();
    if (!y.isEmpty() || !y.isNull() || y.mimeType() != kept.mimeType() || y.description() != kept.description())
        c.fail("value:clearData", "clearData() keeps data or drops meta-data");
    y = kept;
    y.clearDataAndMetadata();
    if (!(y == TagValue::empty()) || y.isLabeledAsReadonly() || !y.mimeType().empty() || !y.description().empty())
        c.fail("value:clearAll", "value not empty after clearing");
    if (!TagValue::empty().isNull() || !TagValue::empty().isEmpty() || TagValue::empty() == TagValue(0))
        c.fail("value:empty", "the empty value is not empty");
    // data handed over
    {
        const auto d = r.payload(r.below(100));
        auto p = std::make_unique<char[]>(d.size());
        std::copy(d.begin(), d.end(), p.get());
        TagValue z;
        if (r.coin())
            z = TagValue(std::move(p), d.size(), TagDataType::Picture);
        else
            z.assignData(std::move(p), d.size(), TagDataType::Picture);
        if (z.type() != TagDataType::Picture || Bytes(z.dataPointer() ? z.data() : std::string_view()) != d || z.isEmpty() != d.empty())
            c.fail("value:hand-over", "data handed over is not returned");
        // shrinking and growing in place
        for (int i = 0; i < 4; ++i) {
            const auto d2 = r.payload(r.below(100));
            z.assignData(d2.data(), d2.size(), TagDataType::Binary);
            if (Bytes(z.dataPointer() ? z.data() : std::string_view()) != d2 || z.dataSize() != d2.size())
                c.fail("value:reassign", "data assigned later is not returned");
        }
    }
    c.nontrivial = true;
    c.count("copies");
}

void unspecifiedCase(Ctx &c)
{
    auto &r = c.rng;
    const auto t = text(r);
    c.mix(t);
    c.cover("unspecified");
    // no character set known: bytes are passed through, never dropped
    TagValue v(std::string_view(t), TagTextEncoding::Unspecified);
    if (Bytes(v.dataPointer() ? v.data() : std::string_view()) != t)
        c.fail("value:unspecified:assign", "text is changed");
    const auto e = r.pick(encs);
    converts(c, "toString", [&] {
        if (v.toString(e) != t)
            c.fail("value:unspecified:read", "text is changed");
    });
    auto w = v;
    converts(c, "convertDataEncoding", [&] {
        w.convertDataEncoding(e);
        if (Bytes(w.dataPointer() ? w.data() : std::string_view()) != t || w.dataEncoding() != e)
            c.fail("value:unspecified:convert", strf("text %s becomes %s", quote(t).c_str(), show(w).c_str()));
    });
    auto x = TagValue();
    converts(c, "assignText", [&] {
        x.assignText(t, TagTextEncoding::Unspecified, e);
        if (Bytes(x.dataPointer() ? x.data() : std::string_view()) != t)
            c.fail("value:unspecified:assign-convert", strf("text %s becomes %s", quote(t).c_str(), show(x).c_str()));
    });
    x.setDescription(t, TagTextEncoding::Unspecified);
    converts(c, "convertDescriptionEncoding", [&] {
        x.convertDescriptionEncoding(e);
        if (x.description() != t)
            c.fail("value:unspecified:description", "description is changed");
    });
    converts(c, "toWString", [&] { (void)v.toWString(TagTextEncoding::Utf16LittleEndian); });
    c.nontrivial = true;
}

void run(Ctx &c)
{
    switch (c.rng.below(12)) {
    case 0:
    case 1:
    case 2: textCase(c); break;
    case 3: invalidTextCase(c); break;
    case 4:
    case 5:
    case 6: numberCase(c); break;
    case 7: totalCase(c); break;
    case 8:
    case 9: compareCase(c); break;
    case 10: copyCase(c); break;
    default: unspecifiedCase(c);
    }
}
PropReg reg("C19", run);
}
