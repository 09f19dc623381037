// C28: helper types convert and format consistently.
#include "lib.h"
#include "bytes.h"
#include <c++utilities/conversion/conversionexception.h>
#include <c++utilities/conversion/stringconversion.h>
#include <tagparser/aspectratio.h>
#include <tagparser/basicfileinfo.h>
#include <tagparser/caseinsensitivecomparer.h>
#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3genres.h>
#include <tagparser/id3/id3v2frame.h>
#include <tagparser/id3/id3v2frameids.h>
#include <tagparser/localeawarestring.h>
#include <tagparser/localehelper.h>
#include <tagparser/margin.h>
#include <tagparser/matroska/matroskatagid.h>
#include <tagparser/mp4/mp4tagfield.h>
#include <tagparser/positioninset.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/signature.h>
#include <tagparser/size.h>
#include <tagparser/tagtarget.h>
#include <tagparser/vorbis/vorbiscommentfield.h>
#include <algorithm>
#include <memory>
#include <optional>
#include <sstream>

using namespace tp;
using T::LocaleFormat;
using Conv = CppUtilities::ConversionException;
using namespace std::literals;

namespace {
struct Iso {
    const char *b, *t, *name;
};
const Iso iso639[] = {
#include "iso639.inc"
};
// ID3v2.2 and ID3v2.3/2.4 IDs of the same frame (according to the specifications)
const char *const id3Ids[][2] = { { "TAL", "TALB" }, { "TP1", "TPE1" }, { "COM", "COMM" }, { "TYE", "TYER" }, { "TOR", "TORY" }, { "TMT", "TMED" },
    { "TRD", "TRDA" }, { "TDA", "TDAT" }, { "TIM", "TIME" }, { "TT2", "TIT2" }, { "TCO", "TCON" }, { "TRK", "TRCK" }, { "TPA", "TPOS" },
    { "TEN", "TENC" }, { "TBP", "TBPM" }, { "PIC", "APIC" }, { "TXT", "TEXT" }, { "TLE", "TLEN" }, { "TLA", "TLAN" }, { "TSS", "TSSE" },
    { "ULT", "USLT" }, { "SLT", "SYLT" }, { "TP2", "TPE2" }, { "TT1", "TIT1" }, { "TT3", "TIT3" }, { "TPB", "TPUB" }, { "UFI", "UFID" },
    { "TCM", "TCOM" }, { "CNT", "PCNT" }, { "POP", "POPM" }, { "TP4", "TPE4" }, { "TCR", "TCOP" }, { "TRC", "TSRC" }, { "TKE", "TKEY" },
    { "TXX", "TXXX" }, { "WCM", "WCOM" }, { "WCP", "WCOP" }, { "WAF", "WOAF" }, { "WAS", "WOAS" }, { "WPB", "WPUB" }, { "WAR", "WOAR" },
    { "WXX", "WXXX" } };
// frames which have only been introduced with ID3v2.4 or ID3v2.3 and hence have no ID in ID3v2.2
const char *const id3LongOnly[] = { "TDRC", "TDRL", "TDOR", "TDTG", "TDEN", "TMOO", "TSST", "TIPL", "TMCL", "TSOP", "TSOA", "TSOT", "RVA2", "EQU2",
    "SIGN", "SEEK", "ASPI", "PRIV", "ENCR", "GRID", "OWNE", "COMR", "WPAY", "WORS" };
const char *const genres[] = { "Blues", "Classic Rock", "Country", "Dance", "Disco", "Funk", "Grunge", "Hip-Hop", "Jazz", "Metal", "New Age", "Oldies",
    "Other", "Pop", "R&B", "Rap", "Reggae", "Rock", "Techno", "Industrial", "Alternative", "Ska", "Death Metal", "Pranks", "Soundtrack",
    "Euro-Techno", "Ambient", "Trip-Hop", "Vocal", "Jazz+Funk", "Fusion", "Trance", "Classical", "Instrumental", "Acid", "House", "Game",
    "Sound Clip", "Gospel", "Noise", "AlternRock", "Bass", "Soul", "Punk", "Space", "Meditative", "Instrumental Pop", "Instrumental Rock", "Ethnic",
    "Gothic", "Darkwave", "Techno-Industrial", "Electronic", "Pop-Folk", "Eurodance", "Dream", "Southern Rock", "Comedy", "Cult", "Gangsta",
    "Top 40", "Christian Rap", "Pop/Funk", "Jungle", "Native American", "Cabaret", "New Wave", "Psychedelic", "Rave", "Showtunes", "Trailer",
    "Lo-Fi", "Tribal", "Acid Punk", "Acid Jazz", "Polka", "Retro", "Musical", "Rock & Roll", "Hard Rock" };

std::string latin1ToUtf8(std::string_view s)
{
    std::string o;
    for (unsigned char ch : s)
        if (ch < 0x80)
            o += static_cast<char>(ch);
        else
            o += static_cast<char>(0xC0 | (ch >> 6)), o += static_cast<char>(0x80 | (ch & 0x3F));
    return o;
}
std::uint32_t idOf(const char *s)
{
    std::uint32_t v = 0;
    for (; *s; ++s)
        v = (v << 8) | static_cast<unsigned char>(*s);
    return v;
}
void expect(Ctx &c, bool ok, const char *key, const std::string &msg)
{
    if (!ok)
        c.fail(key, msg);
}
std::int32_t number(Rng &r)
{
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return static_cast<std::int32_t>(r.below(100));
    case 2: return -static_cast<std::int32_t>(r.below(1000));
    case 3: return 2147483647 - static_cast<std::int32_t>(r.below(3));
    case 4: return -2147483647 + static_cast<std::int32_t>(r.below(3));
    default: return static_cast<std::int32_t>(r.below(2147483647)) * (r.coin() ? 1 : -1);
    }
}
template <class S> S widen(const std::string &s)
{
    S o;
    for (unsigned char ch : s)
        o += static_cast<typename S::value_type>(ch);
    return o;
}
template <class S> std::string narrow(const S &s)
{
    std::string o;
    for (auto ch : s)
        o += static_cast<char>(ch);
    return o;
}
std::string posText(const T::PositionInSet &p)
{
    return strf("%d|%d", p.position(), p.total());
}
template <class S> void positionAs(Ctx &c, const std::string &text, std::optional<std::pair<int, int>> want, const char *what)
{
    try {
        const auto p = T::PositionInSet(widen<S>(text));
        if (!want)
            c.fail(strf("position-%s", what), "position " + quote(text) + " is parsed as " + posText(p) + " instead of being rejected");
        else if (p.position() != want->first || p.total() != want->second)
            c.fail(strf("position-%s", what),
                "position " + quote(text) + " is parsed as " + posText(p) + strf(" instead of %d|%d", want->first, want->second));
    } catch (const Conv &e) {
        if (want)
            c.fail(strf("position-%s", what), "position " + quote(text) + " is rejected: " + e.what());
    }
}
void positions(Ctx &c)
{
    auto &r = c.rng;
    const auto pos = number(r), total = number(r);
    const auto p = T::PositionInSet(pos, total);
    expect(c, p.position() == pos && p.total() == total && p.isNull() == (!pos && !total), "position-accessors", "accessors of " + posText(p));
    auto q = T::PositionInSet();
    expect(c, q.isNull() && (q == p) == p.isNull(), "position-null", "default constructed position");
    q.setPosition(pos), q.setTotal(total);
    expect(c, q == p, "position-setters", posText(q) + " is not the position set: " + posText(p));
    q.setTotal(total ^ 1);
    expect(c, !(q == p), "position-equal", "positions with different total are considered equal");
    const auto text = p.toString();
    std::string want = pos ? std::to_string(pos) : std::string();
    if (total)
        want += "/" + std::to_string(total);
    expect(c, text == want, "position-text", posText(p) + " is formatted as " + quote(text));
    expect(c, narrow(p.toString<std::wstring>()) == want, "position-wide", posText(p) + " is formatted as wide string " + quote(narrow(p.toString<std::wstring>())));
    expect(c, narrow(p.toString<std::u16string>()) == want, "position-utf16",
        posText(p) + " is formatted as UTF-16 string " + quote(narrow(p.toString<std::u16string>())) + " instead of " + quote(want));
    if (!p.isNull()) {
        positionAs<std::string>(c, want, std::pair(pos, total), "string");
        positionAs<std::wstring>(c, want, std::pair(pos, total), "wstring");
        positionAs<std::u16string>(c, want, std::pair(pos, total), "u16string");
    }
    // other ways to write the same
    const auto sp = [&] { return std::string(r.below(3), ' '); };
    const auto lead = [&](int v) { return v < 0 ? "-" + std::string(r.below(3), '0') + std::to_string(v).substr(1) : std::string(r.below(3), '0') + std::to_string(v); };
    positionAs<std::string>(c, sp() + lead(pos) + " / " + lead(total), std::pair(pos, total), "spaces");
    positionAs<std::string>(c, lead(pos) + "/" + lead(total), std::pair(pos, total), "zeros");
    positionAs<std::string>(c, lead(pos), std::pair(pos, 0), "only-position");
    positionAs<std::string>(c, "/" + lead(total), std::pair(0, total), "only-total");
    // something which is no position
    positionAs<std::string>(c, std::to_string(pos) + r.pick({ "x", "/x", "/1x", "/1/2", ".5", "/ /", "a/1" }), std::nullopt, "invalid");
    positionAs<std::string>(c, r.pick({ "x", "a/b", "/x", "one of two", "x1" }), std::nullopt, "invalid");
    c.cover(strf("position %s/%s", pos < 0 ? "neg" : pos ? "pos" : "0", total < 0 ? "neg" : total ? "pos" : "0"));
}

const LocaleFormat formats[]
    = { LocaleFormat::Unknown, LocaleFormat::DomainCountry, LocaleFormat::ISO_639_1, LocaleFormat::ISO_639_2_T, LocaleFormat::ISO_639_2_B, LocaleFormat::BCP_47 };
bool defined(const std::string &s)
{
    return !s.empty() && s != "und" && s != "XXX";
}
std::string localeText(const T::Locale &l)
{
    std::string o;
    for (auto &d : l)
        o += strf("%d:", static_cast<int>(d.format)) + d + " ";
    return o;
}
const Iso *isoByB(const std::string &code)
{
    for (auto &e : iso639)
        if (code == e.b)
            return &e;
    return nullptr;
}
std::set<std::string> words(std::string_view s)
{
    std::set<std::string> o;
    std::string w;
    for (unsigned char ch : std::string(s) + " ")
        if (ch >= 0x80 || std::isalnum(ch))
            w += static_cast<char>(std::tolower(ch));
        else {
            if (w.size() >= 2)
                o.insert(w);
            w.clear();
        }
    for (auto generic : { "languages", "language", "old", "of", "the", "and", "middle", "ancient", "modern", "other" })
        o.erase(generic);
    return o;
}
bool sameName(const std::string &name, const Iso &e)
{
    const auto a = words(name), b = words(e.name);
    return std::any_of(a.begin(), a.end(), [&](auto &w) { return b.count(w); });
}
void locales(Ctx &c)
{
    auto &r = c.rng;
    T::Locale l;
    for (auto n = r.below(5); n; --n) {
        const auto f = r.pick(formats);
        std::string v;
        switch (f) {
        case LocaleFormat::DomainCountry: v = r.pick({ "de", "at", "us", "uk" }); break;
        case LocaleFormat::ISO_639_1: v = r.pick({ "de", "en", "fr" }); break;
        case LocaleFormat::BCP_47: v = r.pick({ "de_DE", "en-US", "de-AT", "zh-Hant", "und" }); break;
        case LocaleFormat::Unknown: v = r.pick({ "foo", "german", "e", "und" }); break;
        case LocaleFormat::ISO_639_2_T: v = r.pick(iso639).t; break;
        default: v = r.pick(iso639).b;
        }
        if (r.chance(15))
            v = r.pick({ "", "und", "XXX", "qqq", "EN" });
        l.emplace_back(std::string_view(v), f);
    }
    const auto text = localeText(l);
    // the abbreviation of a specific format
    for (auto f : formats) {
        std::string want;
        for (auto &d : l)
            if (want.empty() && d.format == f && defined(d))
                want = d;
        const auto &got = l.abbreviatedName(f);
        expect(c, got == want && (want.empty() || got.format == f), "locale-abbreviation",
            strf("abbreviation in format %d of { %s} is ", static_cast<int>(f), text.c_str()) + quote(got) + " instead of " + quote(want));
        // several formats: the first one present
        const auto f2 = r.pick(formats);
        const auto &two = l.abbreviatedName(f, f2);
        const std::string second = want.empty() ? static_cast<const std::string &>(l.abbreviatedName(f2)) : want;
        expect(c, two == second, "locale-abbreviations", strf("first abbreviation of formats %d and %d of { %s} is ", static_cast<int>(f), static_cast<int>(f2), text.c_str()) + quote(two));
        // some abbreviation: the preferred one if present, otherwise the most relevant one, otherwise none
        const auto &some = l.someAbbreviatedName(f);
        if (!want.empty())
            expect(c, some == want || (some.format == f && defined(some)), "locale-preferred",
                strf("abbreviation preferably in format %d of { %s} is ", static_cast<int>(f), text.c_str()) + quote(some) + " although " + quote(want) + " is present");
        else {
            expect(c, some.empty() || defined(some), "locale-undefined", strf("abbreviation preferably in format %d of { %s} is ", static_cast<int>(f), text.c_str()) + quote(some));
            expect(c, some.empty() || std::any_of(l.begin(), l.end(), [&](auto &d) { return d == some && d.format == some.format; }), "locale-foreign",
                strf("abbreviation of { %s} is ", text.c_str()) + quote(some));
            bool undefined = false, any = false;
            int best = -1;
            for (auto &d : l) {
                undefined |= !d.empty() && !defined(d);
                if (defined(d))
                    any = true, best = std::max(best, static_cast<int>(d.format));
            }
            if (!undefined) // it is not specified how undefined details compete with defined ones
                expect(c, any ? static_cast<int>(some.format) == best && !some.empty() : some.empty(), "locale-most-relevant",
                    strf("most relevant abbreviation of { %s} is ", text.c_str()) + quote(some));
        }
    }
    // full name
    const auto full = l.fullName();
    const std::string *first = nullptr;
    for (auto &d : l)
        if (!first && (d.format == LocaleFormat::ISO_639_2_B || d.format == LocaleFormat::ISO_639_2_T))
            first = &d;
    const auto named = std::any_of(l.begin(), l.end(), [&](auto &d) {
        if (d.format != LocaleFormat::ISO_639_2_B && d.format != LocaleFormat::ISO_639_2_T)
            return false;
        const auto *e = isoByB(d);
        if (!e)
            for (auto &x : iso639)
                if (d == x.t)
                    e = &x;
        return e && sameName(full, *e);
    });
    expect(c, full.empty() || named, "locale-full-name", "full name of { " + text + "} is " + quote(full));
    if (first && defined(*first) && isoByB(*first) && !full.empty())
        c.count("full names");
    else if (first && defined(*first) && isoByB(*first))
        c.fail("locale-full-name-missing", "full name of { " + text + "} is not known");
    const std::string fs = l.fullOrSomeAbbreviatedName(), some = l.someAbbreviatedName();
    expect(c, fs == (full.empty() ? some : full), "locale-full-or-some", "full name or abbreviation of { " + text + "} is " + quote(fs));
    std::string joined;
    for (auto &d : l)
        if (!d.empty())
            joined += (joined.empty() ? "" : ", ") + d;
    expect(c, l.toString() == joined, "locale-text", "{ " + text + "} is formatted as " + quote(l.toString()));
    c.cover(strf("locale %zu details", l.size()));
}
void languages(Ctx &c)
{
    auto &r = c.rng;
    // all languages in one case
    for (auto &e : iso639) {
        const auto name = T::Locale(std::string_view(e.b), LocaleFormat::ISO_639_2_B).fullName();
        const auto undefinedCode = !std::strcmp(e.b, "und");
        if (undefinedCode)
            expect(c, name.empty(), "language-undefined", "the full name of \"und\" is " + quote(name));
        else
            expect(c, sameName(name, e), "language-name", strf("the full name of \"%s\" is ", e.b) + quote(name) + " instead of " + quote(std::string(e.name)));
    }
    c.count("languages", std::size(iso639));
    for (int i = 0; i < 40; ++i) {
        std::string code;
        for (auto n = r.range(0, 4); n; --n)
            code += static_cast<char>(r.coin() ? 'a' + r.below(26) : 'A' + r.below(26));
        if (isoByB(code) || std::any_of(std::begin(iso639), std::end(iso639), [&](auto &e) { return code == e.t; }))
            continue;
        const auto name = T::Locale(std::string_view(code), LocaleFormat::ISO_639_2_B).fullName();
        expect(c, name.empty(), "language-unknown", "the full name of the unknown language " + quote(code) + " is " + quote(name));
    }
    for (auto f : { LocaleFormat::Unknown, LocaleFormat::DomainCountry, LocaleFormat::ISO_639_1, LocaleFormat::BCP_47 })
        expect(c, T::Locale("de"sv, f).fullName() != "German" ? T::Locale("qq"sv, f).fullName().empty() : true, "language-format", "unknown code has a name");
    c.cover("languages");
}

std::vector<std::uint64_t> ids(Rng &r)
{
    std::vector<std::uint64_t> v(r.below(3));
    for (auto &x : v)
        x = r.pick({ 1ull, 2ull, 3ull, 0xFFFFFFFFFFFFFFFFull });
    return v;
}
struct Target {
    std::uint64_t level = 0;
    std::vector<std::uint64_t> ids[4];
    std::uint64_t eff() const
    {
        return level ? level : 50;
    }
    T::TagTarget make() const
    {
        return T::TagTarget(level, ids[0], ids[1], ids[2], ids[3]);
    }
};
void targets(Ctx &c)
{
    auto &r = c.rng;
    const auto gen = [&] {
        Target t;
        t.level = r.pick({ 0ull, 0ull, 10ull, 30ull, 50ull, 70ull, 55ull, 1234567ull });
        for (auto &v : t.ids)
            if (r.chance(40))
                v = ids(r);
        return t;
    };
    auto a = gen(), b = gen();
    if (r.coin())
        b = a;
    if (r.coin())
        b.ids[r.below(4)] = ids(r);
    if (r.coin())
        b.level = r.pick({ 0ull, 50ull, 30ull });
    auto x = a.make(), y = b.make();
    bool eq = a.eff() == b.eff(), match = !a.level || a.eff() == b.eff();
    for (int i = 0; i < 4; ++i)
        eq &= a.ids[i] == b.ids[i], match &= a.ids[i].empty() || a.ids[i] == b.ids[i];
    expect(c, (x == y) == eq && (y == x) == eq, "target-equal", x.toString(T::TagTargetLevel::Unspecified) + (x == y ? " equals " : " does not equal ") + y.toString(T::TagTargetLevel::Unspecified));
    expect(c, x.matches(y) == match, "target-matches",
        x.toString(T::TagTargetLevel::Unspecified) + (x.matches(y) ? " matches " : " does not match ") + y.toString(T::TagTargetLevel::Unspecified));
    expect(c, x.matches(x) && T::TagTarget().matches(x), "target-matches-self", "target does not match itself: " + x.toString(T::TagTargetLevel::Unspecified));
    expect(c, x.level() == a.eff() && x.tracks() == a.ids[0] && x.chapters() == a.ids[1] && x.editions() == a.ids[2] && x.attachments() == a.ids[3],
        "target-accessors", "accessors of " + x.toString(T::TagTargetLevel::Unspecified));
    const auto empty = !a.level && a.ids[0].empty() && a.ids[1].empty() && a.ids[2].empty() && a.ids[3].empty();
    expect(c, x.isEmpty() == empty, "target-empty", x.toString(T::TagTargetLevel::Unspecified) + " is considered empty or not");
    // text: level, its name and all IDs
    const auto lvl = static_cast<T::TagTargetLevel>(r.below(8));
    const auto custom = r.chance(30) ? std::string("my level") : std::string();
    x.setLevelName(custom);
    const auto text = x.toString(lvl);
    std::istringstream in(text);
    std::string part, want = strf("level %llu", static_cast<unsigned long long>(a.eff()));
    const std::string levelName(custom.empty() ? T::tagTargetLevelName(lvl) : std::string_view(custom));
    if (!levelName.empty())
        want += " '" + levelName + "'";
    bool ok = text.compare(0, want.size(), want) == 0;
    std::string rest = ok ? text.substr(want.size()) : std::string(), expected;
    static const char *const names[] = { "track", "chapter", "edition", "attachment" };
    for (int i = 0; i < 4; ++i)
        for (auto id : a.ids[i])
            expected += strf(", %s %llu", names[i], static_cast<unsigned long long>(id));
    for (std::size_t p; (p = rest.find("  ")) != std::string::npos;)
        rest.erase(p, 1);
    expect(c, ok && rest == expected, "target-text", "target is formatted as " + quote(text) + " instead of " + quote(want + expected));
    expect(c, x.toString([&](std::uint64_t l) { return l == a.eff() ? lvl : T::TagTargetLevel::Unspecified; }) == text, "target-text-mapping", "level mapping gets the wrong level");
    x.clear();
    expect(c, x.isEmpty() && x == T::TagTarget() && x.levelName().empty(), "target-clear", "target is not empty after clearing it");
    // levels
    for (auto f : { T::ContainerFormat::Matroska, T::ContainerFormat::Webm }) {
        std::set<std::uint64_t> seen;
        for (unsigned i = 0; i < 8; ++i) {
            const auto v = T::containerTargetLevelValue(f, static_cast<T::TagTargetLevel>(i));
            expect(c, v == i * 10, "target-level", strf("value of target level %u is %llu", i, static_cast<unsigned long long>(v)));
            expect(c, T::containerTargetLevel(f, v) == static_cast<T::TagTargetLevel>(i), "target-level", strf("target level of value %llu", static_cast<unsigned long long>(v)));
        }
        const auto v = r.coin() ? r.below(120) : r.next();
        const auto l = static_cast<unsigned>(T::containerTargetLevel(f, v));
        expect(c, l == std::min<std::uint64_t>(v / 10, 7), "target-level", strf("target level of value %llu is %u", static_cast<unsigned long long>(v), l));
    }
    for (auto f : { T::ContainerFormat::Mp4, T::ContainerFormat::Ogg, T::ContainerFormat::MpegAudioFrames })
        expect(c, T::containerTargetLevel(f, r.below(100)) == T::TagTargetLevel::Unspecified && !T::containerTargetLevelValue(f, lvl), "target-level",
            "containers without target levels have some");
    std::set<std::string> names2;
    for (unsigned i = 1; i < 8; ++i)
        names2.emplace(T::tagTargetLevelName(static_cast<T::TagTargetLevel>(i)));
    expect(c, names2.size() == 7 && !names2.count("") && T::tagTargetLevelName(T::TagTargetLevel::Unspecified).empty(), "target-level-names", "names of target levels are ambiguous");
    c.cover(strf("target %s%s", eq ? "equal" : "different", match ? " match" : ""));
}

void sizes(Ctx &c)
{
    auto &r = c.rng;
    const auto dim = [&]() -> std::uint32_t {
        switch (r.below(4)) {
        case 0: return static_cast<std::uint32_t>(r.below(300));
        case 1: return static_cast<std::uint32_t>(r.pick({ 240u, 320u, 426u, 427u, 480u, 576u, 640u, 720u, 768u, 960u, 1080u, 1280u, 1440u, 1920u, 2160u, 2880u, 3840u, 4320u, 5760u, 7680u }) + r.below(3) - 1);
        case 2: return static_cast<std::uint32_t>(r.below(10000));
        default: return static_cast<std::uint32_t>(r.below(65536));
        }
    };
    const auto w = dim(), h = dim();
    const T::Size s(w, h);
    auto q = T::Size();
    expect(c, q.isNull() && s.isNull() == (!w && !h), "size-null", "null size");
    q.setWidth(w), q.setHeight(h);
    expect(c, q == s && s.width() == w && s.height() == h && s.resolution() == w * h, "size-accessors", "accessors of " + s.toString());
    expect(c, s.toString() == strf("width: %u, height: %u", w, h), "size-text", strf("%u x %u is formatted as ", w, h) + quote(s.toString()));
    const T::Size o(dim(), dim());
    expect(c, (s >= o) == (w >= o.width() && h >= o.height()) && s >= s, "size-order", s.toString() + " >= " + o.toString());
    expect(c, (s == o) == (w == o.width() && h == o.height()), "size-equal", s.toString() + " == " + o.toString());
    static const std::pair<std::uint32_t, const char *> steps[]
        = { { 4320, "8k" }, { 2160, "4k" }, { 1080, "1080p" }, { 720, "720p" }, { 576, "576p" }, { 480, "480p" }, { 320, "320p" }, { 240, "240p" } };
    std::string want = "<240p";
    for (auto &[height, name] : steps)
        if (h >= height && w >= height * 4 / 3) {
            want = name;
            break;
        }
    expect(c, s.abbreviation() == want, "size-abbreviation", s.toString() + " is abbreviated as " + std::string(s.abbreviation()) + " instead of " + want);
    c.cover("size " + want);
    // margins
    std::uint32_t m[4];
    for (auto &v : m)
        v = r.chance(40) ? 0 : static_cast<std::uint32_t>(r.next());
    const T::Margin a(m[0], m[1], m[2], m[3]);
    auto b = T::Margin();
    expect(c, b.isNull() && a.isNull() == (!m[0] && !m[1] && !m[2] && !m[3]), "margin-null", a.toString());
    b.setTop(m[0]), b.setLeft(m[1]), b.setBottom(m[2]), b.setRight(m[3]);
    const auto text = strf("top: %u; left: %u; bottom: %u; right: %u", m[0], m[1], m[2], m[3]);
    expect(c, a.toString() == text && b.toString() == text && a.top() == m[0] && a.left() == m[1] && a.bottom() == m[2] && a.right() == m[3], "margin-text",
        "margin is formatted as " + quote(a.toString()) + " and " + quote(b.toString()) + " instead of " + quote(text));
    // aspect ratios: table E-1 of H.264
    static const std::uint16_t ratios[][2] = { { 0, 0 }, { 1, 1 }, { 12, 11 }, { 10, 11 }, { 16, 11 }, { 40, 33 }, { 24, 11 }, { 20, 11 }, { 32, 11 }, { 80, 33 },
        { 18, 11 }, { 15, 11 }, { 64, 33 }, { 160, 99 }, { 4, 3 }, { 3, 2 }, { 2, 1 } };
    for (unsigned i = 0; i < 256; ++i) {
        const T::AspectRatio p(static_cast<std::uint8_t>(i));
        const auto known = i < std::size(ratios);
        expect(c, p.type == i && p.numerator == (known ? ratios[i][0] : 0) && p.denominator == (known ? ratios[i][1] : 0) && p.isValid() == (known && i)
                && p.isExtended() == (i == 255),
            "aspect-ratio", strf("aspect ratio %u is %u : %u", i, p.numerator, p.denominator));
    }
    const auto num = static_cast<std::uint16_t>(r.next()), den = static_cast<std::uint16_t>(r.chance(20) ? 0 : r.next());
    const T::AspectRatio custom(num, den);
    expect(c, custom.isExtended() && custom.isValid() == (num && den) && custom.toString() == strf("%u : %u", num, den), "aspect-ratio-text", custom.toString());
}

void fileNames(Ctx &c)
{
    auto &r = c.rng;
    const auto part = [&](bool dots) {
        std::string o;
        for (auto n = r.below(6); n; --n)
            o += r.chance(dots ? 30 : 0) ? "." : r.pick({ "a", "b", "foo", " ", "ü", "-", "%20", "~" });
        return o;
    };
    const auto sep = [&] { return r.chance(75) ? "/" : "\\"; };
    std::string dir;
    const auto depth = r.below(4);
    for (std::uint64_t i = 0; i < depth; ++i)
        dir += (i ? sep() : r.chance(40) ? sep() : "") + part(true);
    const auto base = part(true), ext = r.chance(70) ? "." + part(false) : std::string();
    const auto s = depth ? sep() : "";
    // the extension starts at the last dot of the name
    const auto name = base + ext;
    const auto dot = name.rfind('.');
    const auto stem = name.substr(0, dot), suffix = dot == std::string::npos ? std::string() : name.substr(dot);
    const auto path = dir + s + name;
    const auto say = [&](const char *what, const std::string &got, const std::string &want, const char *key) {
        expect(c, got == want, key, strf("%s of ", what) + quote(path) + " is " + quote(got) + " instead of " + quote(want));
    };
    using B = T::BasicFileInfo;
    B info{ std::string_view(path) };
    // use views of exactly the size of the path to detect any access beyond its end
    const auto exact = std::make_unique<char[]>(path.size());
    std::copy(path.begin(), path.end(), exact.get());
    const std::string_view view(exact.get(), path.size());
    say("file name", B::fileName(view), name, "name");
    say("file name", info.fileName(), name, "name");
    say("file name without extension", B::fileName(view, true), stem, "stem");
    say("file name without extension", info.fileName(true), stem, "stem");
    say("extension", B::extension(view), suffix, "extension");
    say("extension", info.extension(), suffix, "extension");
    say("path without extension", B::pathWithoutExtension(view), path.substr(0, path.size() - suffix.size()), "path-without-extension");
    say("path without extension", info.pathWithoutExtension(), path.substr(0, path.size() - suffix.size()), "path-without-extension");
    say("directory", B::containingDirectory(view), dir, "directory");
    say("directory", info.containingDirectory(), dir, "directory");
    const auto plain = path.compare(0, 6, "file:/") != 0;
    if (plain)
        say("path for opening", std::string(B::pathForOpen(view)), path, "path-for-open");
    const auto url = "file:/" + path;
    const auto exactUrl = std::make_unique<char[]>(url.size());
    std::copy(url.begin(), url.end(), exactUrl.get());
    say("path for opening the URL", std::string(B::pathForOpen(std::string_view(exactUrl.get(), url.size()))), path, "path-for-open");
    info.setPath(std::string_view("other"));
    expect(c, info.path() == "other", "set-path", "path is " + quote(info.path()));
    info.setPath(std::string(path));
    expect(c, info.path() == path, "set-path", "path is " + quote(info.path()));
    info.reportPathChanged(std::string_view("x")), info.reportSizeChanged(42);
    expect(c, info.path() == "x" && info.size() == 42 && !info.isOpen(), "report", "reported path or size is not effective");
    c.cover(strf("path depth %d%s", static_cast<int>(depth), suffix.empty() ? "" : " ext"));
}

void diagnostics(Ctx &c)
{
    auto &r = c.rng;
    static const T::DiagLevel levels[] = { T::DiagLevel::Debug, T::DiagLevel::Information, T::DiagLevel::Warning, T::DiagLevel::Critical, T::DiagLevel::Fatal };
    T::Diagnostics d;
    int worst = 0;
    for (auto n = r.below(6); n; --n) {
        const auto l = r.pick(levels);
        const auto m = randomText(r, 20, 1), x = randomText(r, 10, 1);
        d.emplace_back(l, m, x);
        worst = std::max(worst, static_cast<int>(l));
        expect(c, d.back().level() == l && d.back().message() == m && d.back().context() == x, "diag-message", "message is altered");
        expect(c, d.back() == T::DiagMessage(l, std::string(m), std::string(x)), "diag-equal", "message is not equal to the same message");
        expect(c, !(d.back() == T::DiagMessage(l, m + "x", x)) && !(d.back() == T::DiagMessage(l, m, x + "x"))
                && !(d.back() == T::DiagMessage(l == T::DiagLevel::Debug ? T::DiagLevel::Warning : T::DiagLevel::Debug, m, x)),
            "diag-equal", "different messages are equal");
        expect(c, d.back().levelName() == T::diagLevelName(l), "diag-level-name", "level name");
    }
    expect(c, static_cast<int>(d.level()) == worst, "diag-level", strf("level is %d instead of %d", static_cast<int>(d.level()), worst));
    for (auto l : levels)
        expect(c, d.has(l) == (worst >= static_cast<int>(l)), "diag-has", strf("has(%d) with worst level %d", static_cast<int>(l), worst));
    expect(c, T::diagLevelName(T::DiagLevel::Debug) == "debug" && T::diagLevelName(T::DiagLevel::Information) == "information"
            && T::diagLevelName(T::DiagLevel::Warning) == "warning" && T::diagLevelName(T::DiagLevel::Critical) == "critical"
            && T::diagLevelName(T::DiagLevel::None).empty(),
        "diag-level-name", "level names");
    // lists
    std::vector<std::string> v(r.below(5));
    std::string want;
    for (std::size_t i = 0; i < v.size(); ++i) {
        v[i] = randomText(r, 10, 1);
        want += (i == 0 ? "" : i + 1 == v.size() ? " and " : ", ") + ("\"" + v[i] + "\"");
    }
    const auto list = T::DiagMessage::formatList(v);
    expect(c, list == want, strf("diag-list-%zu", v.size()).c_str(), "list is formatted as " + quote(list) + " instead of " + quote(want));
    c.cover(strf("diag worst %d list %zu", worst, v.size()));

    // progress
    unsigned calls = 0, percentCalls = 0;
    const auto separate = r.coin();
    T::AbortableProgressFeedback p([&](T::AbortableProgressFeedback &) { ++calls; },
        separate ? T::AbortableProgressFeedback::Callback([&](T::AbortableProgressFeedback &) { ++percentCalls; }) : T::AbortableProgressFeedback::Callback());
    unsigned wc = 0, wp = 0, step = 0, overall = 0;
    std::string stepName;
    bool aborted = false;
    for (auto n = r.below(12); n; --n) {
        switch (r.below(6)) {
        case 0:
            p.updateStep(stepName = randomText(r, 10, 1), static_cast<std::uint8_t>(step = static_cast<unsigned>(r.below(101))));
            ++wc;
            break;
        case 1: p.updateStepPercentage(static_cast<std::uint8_t>(step = static_cast<unsigned>(r.below(101)))), ++(separate ? wp : wc); break;
        case 2: {
            const auto k = r.below(65);
            step = static_cast<unsigned>(static_cast<double>(k) / 64 * 100);
            p.updateStepPercentageFromFraction(static_cast<double>(k) / 64), ++(separate ? wp : wc);
            break;
        }
        case 3: p.updateOverallPercentage(static_cast<std::uint8_t>(overall = static_cast<unsigned>(r.below(101)))), ++(separate ? wp : wc); break;
        case 4: {
            const auto name = randomText(r, 10, 1);
            bool thrown = false;
            try {
                p.nextStepOrStop(name, 7);
            } catch (const T::OperationAbortedException &) {
                thrown = true;
            }
            expect(c, thrown == aborted, "progress-abort", "next step is not stopped iff aborted");
            if (!aborted)
                ++wc, stepName = name, step = 7;
            break;
        }
        default:
            if (r.chance(30))
                p.tryToAbort(), aborted = true;
        }
        bool thrown = false;
        try {
            p.stopIfAborted();
        } catch (const T::OperationAbortedException &) {
            thrown = true;
        }
        expect(c, thrown == aborted && p.isAborted() == aborted, "progress-abort", "stopIfAborted() does not throw iff aborted");
        expect(c, calls == wc && percentCalls == wp, "progress-calls", strf("%u/%u calls instead of %u/%u", calls, percentCalls, wc, wp));
        expect(c, p.step() == stepName && p.stepPercentage() == step && p.overallPercentage() == overall, "progress-state",
            strf("step %u, overall %u instead of %u and %u", p.stepPercentage(), p.overallPercentage(), step, overall));
    }
    const auto copy = T::AbortableProgressFeedback(p);
    expect(c, copy.isAborted() == aborted, "progress-copy", "the copy of aborted feedback is not aborted");
}

void identifiers(Ctx &c)
{
    auto &r = c.rng;
    namespace F = T::Id3v2FrameIds;
    std::set<std::uint32_t> known;
    for (auto &e : id3Ids) {
        const auto s = idOf(e[0]), l = idOf(e[1]);
        known.insert(s), known.insert(l);
        expect(c, F::convertToLongId(s) == l, "id3-long", strf("long ID of %s is ", e[0]) + hex(Bytes(strf("%08x", F::convertToLongId(s)))));
        expect(c, F::convertToShortId(l) == s, "id3-short", strf("short ID of %s is %06x", e[1], F::convertToShortId(l)));
        expect(c, F::isShortId(s) && !F::isLongId(s) && F::isLongId(l) && !F::isShortId(l), "id3-kind", strf("%s and %s are not classified as short and long", e[0], e[1]));
        expect(c, F::isTextFrame(s) == F::isTextFrame(l) && F::isTextFrame(l) == (*e[1] == 'T' && std::strcmp(e[1], "TXXX")), "id3-text", strf("%s/%s is (not) a text frame", e[0], e[1]));
        expect(c, F::isUrlFrame(s) == F::isUrlFrame(l) && F::isUrlFrame(l) == (*e[1] == 'W' && std::strcmp(e[1], "WXXX")), "id3-url", strf("%s/%s is (not) an URL frame", e[0], e[1]));
        for (auto *n : { e[0], e[1] }) {
            expect(c, T::Id3v2Frame::fieldIdToString(idOf(n)) == n, "id3-id-text", strf("text of %s", n));
            // exactly sized buffer
            const auto len = std::strlen(n);
            const auto b = std::make_unique<char[]>(len);
            std::memcpy(b.get(), n, len);
            expect(c, T::Id3v2Frame::fieldIdFromString(std::string_view(b.get(), len)) == idOf(n), "id3-id-text", strf("ID of %s", n));
        }
    }
    for (auto *n : id3LongOnly) {
        known.insert(idOf(n));
        expect(c, !F::convertToShortId(idOf(n)), "id3-long-only", strf("%s has a short ID", n));
    }
    for (auto *n : { "TYER", "TDAT", "TIME", "TRDA", "TORY" })
        expect(c, F::isPreId3v24Id(idOf(n)) && !F::isOnlyId3v24Id(idOf(n)), "id3-v24", strf("%s belongs to older versions", n));
    for (auto *n : { "TDRC", "TDRL", "TDOR", "TDTG" })
        expect(c, !F::isPreId3v24Id(idOf(n)) && F::isOnlyId3v24Id(idOf(n)), "id3-v24", strf("%s belongs to ID3v2.4", n));
    for (auto *n : { "TIT2", "TALB", "COMM", "APIC", "TRCK" })
        expect(c, !F::isPreId3v24Id(idOf(n)) && !F::isOnlyId3v24Id(idOf(n)), "id3-v24", strf("%s belongs to all versions", n));
    for (int i = 0; i < 20; ++i) {
        std::string n;
        for (auto k = r.coin() ? 3 : 4; k; --k)
            n += static_cast<char>(r.coin() ? 'A' + r.below(26) : '0' + r.below(10));
        const auto id = idOf(n.c_str());
        expect(c, T::Id3v2Frame::fieldIdFromString(n) == id && T::Id3v2Frame::fieldIdToString(id) == n, "id3-id-text", "ID " + n);
        if (!known.count(id)) {
            const auto other = n.size() == 3 ? F::convertToLongId(id) : F::convertToShortId(id);
            expect(c, !other, "id3-unknown", "unknown ID " + n + strf(" is converted to %08x", other));
        }
    }
    // IDs of other formats
    for (int i = 0; i < 20; ++i) {
        std::string latin1;
        for (int k = 0; k < 4; ++k)
            latin1 += static_cast<char>(r.chance(30) ? 0xA9 : r.chance(20) ? 0x80 + r.below(128) : 0x20 + r.below(95));
        const auto id = static_cast<std::uint32_t>(rbe(latin1, 0, 4));
        const auto utf8 = T::Mp4TagField::fieldIdToString(id);
        expect(c, utf8 == latin1ToUtf8(latin1), "mp4-id-text", strf("text of MP4 ID %08x is ", id) + quote(utf8));
        expect(c, T::Mp4TagField::fieldIdFromString(utf8) == id, "mp4-id-text", "MP4 ID of " + quote(utf8));
    }
    for (auto bad : { "", "a", "ab", "abcde" }) {
        bool mp4 = false, id3 = false;
        try {
            T::Mp4TagField::fieldIdFromString(bad);
        } catch (const Conv &) {
            mp4 = true;
        }
        try {
            T::Id3v2Frame::fieldIdFromString(bad);
        } catch (const Conv &) {
            id3 = true;
        }
        expect(c, mp4 && id3, "bad-id", strf("\"%s\" is accepted as ID", bad));
    }
    // genres
    using G = T::Id3Genres;
    std::set<std::string_view> seen;
    for (int i = 0; i < G::genreCount(); ++i) {
        const auto n = G::stringFromIndex(i);
        expect(c, !n.empty() && seen.insert(n).second && G::indexFromString(n) == i && G::isIndexSupported(i), "genre", strf("genre %d is ", i) + quote(std::string(n)));
        if (i < static_cast<int>(std::size(genres)))
            expect(c, n == genres[i], "genre-name", strf("genre %d is ", i) + quote(std::string(n)) + " instead of " + genres[i]);
    }
    for (auto i : { -1, 192, 193, 254, 255, 256, 1000000, -1000000 })
        expect(c, G::stringFromIndex(i).empty() && !G::isIndexSupported(i), "genre-unknown", strf("genre %d is known", i));
    const auto unknown = "x" + randomText(r, 10, 1) + "~";
    expect(c, G::indexFromString(unknown) == -1 && G::isEmptyGenre(G::indexFromString("")), "genre-unknown", "unknown genre " + quote(unknown) + " has an index");
    // case-insensitive comparison: a strict weak order which equates what differs only in the case of ASCII letters
    const auto word = [&] {
        std::string o;
        for (auto n = r.below(4); n; --n)
            o += r.coin() ? static_cast<char>("aAbBzZ@[`{"[r.below(10)]) : static_cast<char>(r.next());
        return o;
    };
    const auto lower = [](std::string s) {
        for (auto &ch : s)
            if (ch >= 'A' && ch <= 'Z')
                ch = static_cast<char>(ch + 32);
        return s;
    };
    const T::CaseInsensitiveStringComparer less;
    std::vector<std::string> ws;
    for (int i = 0; i < 12; ++i)
        ws.push_back(word());
    for (auto &a : ws)
        for (auto &b : ws) {
            const auto la = lower(a), lb = lower(b);
            const auto want = std::lexicographical_compare(la.begin(), la.end(), lb.begin(), lb.end(), [](unsigned char x, unsigned char y) { return x < y; });
            expect(c, less(a, b) == want && less(std::string_view(a), std::string_view(b)) == want, "case-insensitive", quote(a) + " < " + quote(b));
        }
    // names of container formats
    for (unsigned i = 1; i <= static_cast<unsigned>(T::ContainerFormat::ApeTag); ++i) {
        const auto f = static_cast<T::ContainerFormat>(i);
        (void)T::containerFormatSubversion(f);
        for (auto m : { T::MediaType::Unknown, T::MediaType::Audio, T::MediaType::Video }) {
            const auto mime = std::string(T::containerMimeType(f, m));
            expect(c, mime.empty() || (mime.find('/') != std::string::npos && mime.find(' ') == std::string::npos), "mime", "MIME type " + quote(mime));
        }
    }
    static const struct {
        T::ContainerFormat f;
        T::MediaType m;
        unsigned v;
        const char *abbr, *mime;
    } formats[] = { { T::ContainerFormat::Mp4, T::MediaType::Audio, 0, "m4a", "audio/mp4" }, { T::ContainerFormat::Mp4, T::MediaType::Video, 0, "mp4", "video/mp4" },
        { T::ContainerFormat::Matroska, T::MediaType::Audio, 0, "mka", "audio/x-matroska" }, { T::ContainerFormat::Matroska, T::MediaType::Video, 0, "mkv", "video/x-matroska" },
        { T::ContainerFormat::MpegAudioFrames, T::MediaType::Audio, 3, "mp3", "audio/mpeg" }, { T::ContainerFormat::MpegAudioFrames, T::MediaType::Audio, 2, "mp2", "audio/mpeg" },
        { T::ContainerFormat::MpegAudioFrames, T::MediaType::Audio, 1, "mp1", "audio/mpeg" }, { T::ContainerFormat::Ogg, T::MediaType::Audio, 0, "ogg", "audio/ogg" },
        { T::ContainerFormat::Ogg, T::MediaType::Video, 0, "ogv", "video/ogg" }, { T::ContainerFormat::Flac, T::MediaType::Audio, 0, "flac", "audio/flac" } };
    for (auto &e : formats)
        expect(c, T::containerFormatAbbreviation(e.f, e.m, e.v) == e.abbr && T::containerMimeType(e.f, e.m) == e.mime, "format-name", strf("%s is abbreviated as ", e.abbr) + std::string(T::containerFormatAbbreviation(e.f, e.m, e.v)));
    expect(c, T::containerFormatAbbreviation(T::ContainerFormat::Unknown).empty() && T::containerMimeType(T::ContainerFormat::Unknown).empty(), "format-unknown", "the unknown format has an abbreviation");
    c.cover("identifiers");
}

void helper(Ctx &c)
{
    const auto pick = c.rng.below(100);
    c.mix(c.rng.next());
    c.nontrivial = true;
    if (pick < 25)
        positions(c), c.count("positions");
    else if (pick < 45)
        locales(c), c.count("locales");
    else if (pick < 47)
        languages(c);
    else if (pick < 60)
        targets(c), c.count("targets");
    else if (pick < 70)
        sizes(c), c.count("sizes");
    else if (pick < 83)
        fileNames(c), c.count("file names");
    else if (pick < 95)
        diagnostics(c), c.count("diagnostics");
    else
        identifiers(c), c.count("identifiers");
}
} // namespace
static PropReg reg("C28", helper);
