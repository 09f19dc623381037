// C20: access to tag fields, compared with an ordered multi-map kept next to the tag.
#include "id3fmt.h"
#include "lib.h"
#include "values.h"

#include <tagparser/id3/id3v2frameids.h>
#include <tagparser/mp4/mp4ids.h>

#include <algorithm>
#include <map>
#include <set>

namespace tp {
namespace {
using KF = T::KnownField;
using T::TagType;
using T::TagValue;
using List = std::vector<TagValue>;

std::vector<KF> allFields()
{
    std::vector<KF> r;
    for (auto f = T::firstKnownField; f != KF::Invalid; f = T::nextKnownField(f))
        r.push_back(f);
    return r;
}
const std::vector<KF> all = allFields();

struct Obs {
    std::unique_ptr<T::Tag> tag;
    std::string name;
    std::map<KF, List> model; // by canonical field
    std::set<KF> removedFront; // fields whose first value has been removed: where a single new value goes is up to the implementation
    unsigned version = 0;
    bool hidden = false; // might contain fields which are not known fields of the version
    bool isId3v1() const { return tag->type() == TagType::Id3v1Tag; }
    KF group(KF f) const { return tag->type() == TagType::MatroskaTag && f == KF::Actor ? KF::Performers : f; }
};
Obs makeTag(Rng &r, int kind = -1)
{
    Obs o;
    switch (kind < 0 ? static_cast<int>(r.below(8)) : kind) {
    case 0: o.tag = std::make_unique<T::Id3v1Tag>(); o.name = "id3v1"; break;
    case 1: case 2: case 3: {
        auto t = std::make_unique<T::Id3v2Tag>();
        o.version = kind < 0 ? 2 + static_cast<unsigned>(r.below(3)) : 1 + static_cast<unsigned>(kind);
        t->setVersion(static_cast<std::uint8_t>(o.version), 0);
        o.tag = std::move(t);
        o.name = strf("id3v2.%u", o.version);
        break;
    }
    case 4: o.tag = std::make_unique<T::Mp4Tag>(); o.name = "mp4"; break;
    case 5: o.tag = std::make_unique<T::MatroskaTag>(); o.name = "matroska"; break;
    case 6: o.tag = std::make_unique<T::VorbisComment>(); o.name = "vorbis"; break;
    default: o.tag = std::make_unique<T::OggVorbisComment>(); o.name = "oggvorbis"; break;
    }
    return o;
}
bool multiple(const Obs &o, KF f)
{
    return !o.isId3v1() && f != KF::Vendor;
}
// whether the format itself allows more than one value (which decides how much is copied from another format)
bool formatMultiple(const Obs &o, KF f)
{
    switch (o.tag->type()) {
    case TagType::Id3v1Tag: return false;
    case TagType::Id3v2Tag:
        switch (f) {
        case KF::Comment: case KF::Cover: case KF::Lyrics: case KF::SynchronizedLyrics: case KF::Rating: return true;
        case KF::PublisherWebpage: return o.version > 2;
        case KF::PlayCounter: case KF::PerformerWebpage: case KF::PurchaseItem: return false;
        default: return o.version > 3;
        }
    case TagType::Mp4Tag: return false;
    default: return f != KF::Vendor;
    }
}
std::string full(const TagValue &v)
{
    return canon(v, true);
}
std::string show(const List &l)
{
    std::string r = "[";
    for (const auto &v : l)
        r += full(v).substr(0, 40) + ", ";
    return r + "]";
}
List actual(const Obs &o, KF f)
{
    List r;
    for (const auto *v : std::as_const(*o.tag).values(f))
        r.push_back(*v);
    return r;
}
bool same(const List &a, const List &b)
{
    return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](const TagValue &x, const TagValue &y) { return full(x) == full(y); });
}
TagValue randomValue(Rng &r, const Obs &o, KF f)
{
    TagValue v;
    switch (r.below(f == KF::Genre ? 5 : 12)) {
    case 0: v = TagValue(static_cast<std::int32_t>(r.below(1000)));
        if (f == KF::Genre)
            v.assignStandardGenreIndex(static_cast<int>(r.below(80)));
        break;
    case 1: v = TagValue(T::PositionInSet(static_cast<std::int32_t>(1 + r.below(50)), static_cast<std::int32_t>(r.below(60)))); break;
    case 2: {
        auto d = r.payload(1 + r.size(60));
        v = TagValue(d.data(), d.size(), f == KF::Cover ? T::TagDataType::Picture : T::TagDataType::Binary);
        break;
    }
    case 3: v = textValue(r, r.chance(50) ? Bytes("same") : randomText(r, 12, 1)); break;
    default: v = utf8Value(strf("v%u", static_cast<unsigned>(r.below(500))) + randomText(r, 6)); break;
    }
    if (v.isEmpty())
        v = utf8Value("x");
    if (r.chance(30) && !o.isId3v1()) {
        v.setDescription(r.coin() ? "d1" : "d2", T::TagTextEncoding::Latin1);
        if (r.coin())
            v.setLocale(T::Locale(std::string(r.coin() ? "eng" : "ger"), T::LocaleFormat::ISO_639_2_B));
    }
    return v;
}

struct Judge {
    Ctx &c;
    std::string history;
    void check(Obs &o, const char *op, const std::map<KF, std::vector<List>> &alternatives = {}, std::set<KF> anyOrder = {})
    {
        std::size_t count = 0;
        for (const auto f : all) {
            const auto g = o.group(f);
            const auto sup = o.tag->supportsField(f);
            const auto vals = actual(o, f);
            const auto key = strf("fields:%s:%s:", o.name.substr(0, 5).c_str(), op);
            if (!sup) {
                if (!vals.empty() || o.tag->hasField(f) || !o.tag->value(f).isEmpty())
                    c.failNow(key + "unsupported", strf("%s: unsupported field %s reports values after %s", o.name.c_str(), knownFieldName(f), history.c_str()));
                continue;
            }
            auto &expected = o.model[g];
            if (!same(vals, expected)) {
                bool ok = false;
                if (auto alt = alternatives.find(g); alt != alternatives.end())
                    for (const auto &a : alt->second)
                        ok = ok || same(vals, a);
                if (!ok && anyOrder.count(g) && vals.size() == expected.size()) {
                    std::multiset<std::string> x, y;
                    for (const auto &v : vals)
                        x.insert(full(v));
                    for (const auto &v : expected)
                        y.insert(full(v));
                    ok = x == y;
                }
                if (!ok)
                    c.failNow(key + knownFieldName(f),
                        strf("%s: field %s reports %s but %s is expected after %s", o.name.c_str(), knownFieldName(f), show(vals).c_str(),
                            show(expected).c_str(), history.c_str()));
                expected = vals;
            }
            if (o.tag->hasField(f) != !expected.empty())
                c.failNow(key + "hasField", strf("%s: hasField(%s) is %d although the values are %s after %s", o.name.c_str(), knownFieldName(f),
                                                o.tag->hasField(f), show(expected).c_str(), history.c_str()));
            const auto &first = o.tag->value(f);
            if (expected.empty() ? !first.isEmpty() : full(first) != full(expected.front()))
                c.failNow(key + "value", strf("%s: value(%s) is %s although the values are %s after %s", o.name.c_str(), knownFieldName(f),
                                             full(first).c_str(), show(expected).c_str(), history.c_str()));
            if (f == g && f != KF::Vendor && !expected.empty()) {
                auto text = o.tag->type() == TagType::Id3v2Tag && isText(static_cast<T::Id3v2Tag &>(*o.tag), f);
                count += o.isId3v1() || text ? 1 : expected.size();
            }
        }
        if (o.tag->type() == TagType::Mp4Tag) {
            // a second, shadowed way to store the label
            auto &m = static_cast<T::Mp4Tag &>(*o.tag);
            for (auto [i, e] = m.fields().equal_range(T::Mp4TagAtomIds::Extended); i != e; ++i)
                if (i->second.name() == T::Mp4TagExtendedNameIds::label && !i->second.value().isEmpty()
                    && m.FieldMapBasedTag<T::Mp4Tag>::hasField(T::Mp4TagAtomIds::RecordLabel))
                    ++count;
        }
        if (o.hidden ? o.tag->fieldCount() < count : o.tag->fieldCount() != count)
            c.failNow(strf("fields:%s:%s:count", o.name.substr(0, 5).c_str(), op),
                strf("%s: fieldCount() is %zu but %zu is expected after %s", o.name.c_str(), o.tag->fieldCount(), count, history.c_str()));
    }
    static bool isText(T::Id3v2Tag &t, KF f)
    {
        return T::Id3v2FrameIds::isTextFrame(t.fieldId(f));
    }
};

// sets via the format specific ID and checks the mapping
template <class TagT> void viaId(Ctx &c, Rng &r, Obs &o, Judge &j)
{
    auto &t = static_cast<TagT &>(*o.tag);
    for (const auto f : all) {
        if (!o.tag->supportsField(f) || f == KF::Vendor || (o.tag->type() == TagType::Mp4Tag && f == KF::EncoderSettings))
            continue;
        const auto id = t.fieldId(f);
        if (o.group(t.knownField(id)) != o.group(f))
            c.fail(strf("fields:%s:mapping:%s", o.name.c_str(), knownFieldName(f)),
                strf("%s: field %s maps to an ID which maps to %s", o.name.c_str(), knownFieldName(f), knownFieldName(t.knownField(id))));
    }
    KF f;
    do
        f = r.pick(all);
    while (!o.tag->supportsField(f) || f == KF::Vendor || (o.tag->type() == TagType::Mp4Tag && (f == KF::EncoderSettings || f == KF::Genre || f == KF::RecordLabel)));
    const auto id = t.fieldId(f);
    List l;
    for (auto n = r.below(4); n; --n)
        l.push_back(randomValue(r, o, f));
    j.history += strf(" setValues(id of %s, %s)", knownFieldName(f), show(l).c_str());
    t.setValues(id, l);
    o.model[o.group(f)] = l;
    o.removedFront.erase(o.group(f));
    auto vals = std::as_const(t).values(id);
    if (vals.size() != l.size() || t.hasField(id) == l.empty())
        c.fail(strf("fields:%s:byId", o.name.c_str()), strf("%s: values(id)/hasField(id) do not agree with what was set for %s", o.name.c_str(), knownFieldName(f)));
    j.check(o, "setValuesById");
}
void anyViaId(Ctx &c, Rng &r, Obs &o, Judge &j)
{
    switch (o.tag->type()) {
    case TagType::Id3v2Tag: return viaId<T::Id3v2Tag>(c, r, o, j);
    case TagType::Mp4Tag: return viaId<T::Mp4Tag>(c, r, o, j);
    case TagType::MatroskaTag: return viaId<T::MatroskaTag>(c, r, o, j);
    case TagType::VorbisComment:
    case TagType::OggVorbisComment: return viaId<T::VorbisComment>(c, r, o, j);
    default:;
    }
}
std::string langOf(const TagValue &v)
{
    return v.locale().someAbbreviatedName();
}
std::string descOf(const TagValue &v)
{
    return TagValue(v.description(), v.descriptionEncoding()).toString(T::TagTextEncoding::Utf8);
}
bool replaces(const Obs &o, KF f, const TagValue &a, const TagValue &b)
{
    if (o.tag->type() != TagType::Id3v2Tag)
        return true;
    switch (f) {
    case KF::Comment: case KF::Lyrics: case KF::SynchronizedLyrics:
        return descOf(a) == descOf(b) && langOf(a) == langOf(b);
    case KF::Cover: return descOf(a) == descOf(b);
    default: return true;
    }
}
bool keyed(const Obs &o, KF f)
{
    return o.tag->type() == TagType::Id3v2Tag && (f == KF::Comment || f == KF::Lyrics || f == KF::SynchronizedLyrics || f == KF::Cover);
}

bool edit(Ctx &c, Rng &r, Obs &o, Judge &j)
{
    KF f = r.pick(all);
    for (int i = 0; i < 40 && !o.tag->supportsField(f); ++i)
        f = r.pick(all);
    if (o.model.size() && r.chance(50)) { // touch fields again
        auto it = o.model.begin();
        std::advance(it, static_cast<long>(r.below(o.model.size())));
        if (!it->second.empty())
            f = it->first;
    }
    const auto g = o.group(f);
    const auto sup = o.tag->supportsField(f);
    auto &cur = o.model[g];
    const auto before = cur;
    switch (r.below(12)) {
    case 0: case 1: case 2: case 3: {
        auto v = randomValue(r, o, f);
        j.history += strf(" setValue(%s, %s)", knownFieldName(f), full(v).c_str());
        c.mix(strf("s%d", static_cast<int>(f)));
        const auto ok = o.tag->setValue(f, v);
        if (ok != sup)
            c.failNow("fields:setValue:result", strf("%s: setValue(%s) returned %d", o.name.c_str(), knownFieldName(f), ok));
        if (!sup) {
            o.model.erase(g);
            j.check(o, "setValue-unsupported");
            break;
        }
        std::map<KF, std::vector<List>> alt;
        if (o.tag->type() == TagType::Mp4Tag && f == KF::Genre) {
            const auto index = v.type() == T::TagDataType::StandardGenreIndex;
            // a pre-defined genre excludes other genres
            if (index || cur.empty())
                cur = { v };
            else {
                auto replaced = cur;
                replaced[0] = v;
                alt[g].push_back({ v });
                cur = replaced;
            }
            auto added = before;
            added.insert(added.begin(), v);
            if (o.removedFront.count(g))
                alt[g].push_back(added);
        } else {
            auto added = cur;
            added.insert(added.begin(), v);
            if (o.removedFront.count(g))
                alt[g].push_back(added);
            if (cur.empty())
                cur.push_back(v);
            else
                cur[0] = v;
        }
        o.removedFront.erase(g);
        j.check(o, "setValue", alt);
        break;
    }
    case 4: {
        j.history += strf(" setValue(%s, empty)", knownFieldName(f));
        c.mix(strf("e%d", static_cast<int>(f)));
        o.tag->setValue(f, TagValue());
        std::map<KF, std::vector<List>> alt;
        if (!sup)
            o.model.erase(g);
        else if (!cur.empty()) {
            // emptying the first value again may leave the values behind it alone
            if (o.removedFront.count(g))
                alt[g].push_back(before);
            cur.erase(cur.begin());
            o.removedFront.insert(g);
        }
        j.check(o, "clearValue", alt);
        break;
    }
    case 5: case 6: case 7: case 8: {
        List l, e;
        for (auto n = r.below(5); n; --n) {
            if (multiple(o, f) && r.chance(12))
                l.emplace_back();
            else
                e.push_back(l.emplace_back(randomValue(r, o, f)));
        }
        j.history += strf(" setValues(%s, %s)", knownFieldName(f), show(l).c_str());
        c.mix(strf("S%d:%zu:%zu", static_cast<int>(f), l.size(), e.size()));
        const auto ok = o.tag->setValues(f, l);
        if (ok != sup && !(sup && l.empty()))
            c.failNow("fields:setValues:result", strf("%s: setValues(%s) returned %d", o.name.c_str(), knownFieldName(f), ok));
        if (!multiple(o, f) && e.size() > 1)
            e.resize(1);
        if (!sup)
            o.model.erase(g);
        else
            cur = e;
        if (!l.empty() && l.front().isEmpty())
            o.removedFront.insert(g);
        else
            o.removedFront.erase(g);
        j.check(o, "setValues");
        break;
    }
    case 9: {
        // adding
        if (!sup || !multiple(o, f))
            return false;
        auto l = actual(o, f);
        l.push_back(randomValue(r, o, f));
        j.history += strf(" add(%s, %s)", knownFieldName(f), full(l.back()).c_str());
        c.mix(strf("a%d:%zu", static_cast<int>(f), l.size()));
        o.tag->setValues(f, l);
        cur = l;
        o.removedFront.erase(g);
        j.check(o, "addValue");
        break;
    }
    case 10:
        if (r.chance(75)) {
            anyViaId(c, r, o, j);
            break;
        }
        j.history += " removeAllFields";
        c.mix("R");
        o.tag->removeAllFields();
        for (auto &m : o.model)
            if (m.first != KF::Vendor)
                m.second.clear();
        o.removedFront.clear();
        j.check(o, "removeAllFields");
        break;
    default: {
        j.history += " ensureTextValuesAreProperlyEncoded";
        if (o.tag->type() == TagType::Id3v1Tag || o.tag->type() == TagType::Id3v2Tag || r.chance(100))
            o.tag->ensureTextValuesAreProperlyEncoded();
        // text stays the same; descriptions might be re-encoded as well so the model is read again after comparing the main values
        for (const auto f2 : all) {
            if (!o.tag->supportsField(f2))
                continue;
            auto vals = actual(o, f2);
            auto &exp = o.model[o.group(f2)];
            bool ok = vals.size() == exp.size();
            for (std::size_t i = 0; ok && i < vals.size(); ++i)
                ok = canon(vals[i], false) == canon(exp[i], false);
            if (!ok)
                c.failNow("fields:encoding", strf("%s: %s became %s when ensuring a proper encoding (was %s)", o.name.c_str(), knownFieldName(f2),
                                                 show(vals).c_str(), show(exp).c_str()));
            exp = vals;
        }
        j.check(o, "encoding");
    }
    }
    return true;
}

// copies all values of another tag
void copy(Ctx &c, Rng &r, Obs &src, Obs &dst, Judge &j)
{
    const auto overwrite = r.coin();
    const auto sameType = src.tag->type() == dst.tag->type();
    j.history += strf(" || insertValues(from %s, overwrite=%d)", src.name.c_str(), overwrite);
    c.cover(strf("copy:%s->%s:%d", src.name.c_str(), dst.name.c_str(), overwrite));
    const auto inserted = dst.tag->insertValues(*src.tag, overwrite);
    std::set<KF> anyOrder, done;
    dst.hidden = dst.hidden || (sameType && (src.hidden || src.version != dst.version));
    std::size_t fields = 0;
    for (const auto f : all) {
        const auto g = dst.group(f);
        auto from = src.model.find(src.group(f));
        if (!dst.tag->supportsField(f) || !src.tag->supportsField(f) || from == src.model.end() || from->second.empty())
            continue;
        auto &own = dst.model[g];
        dst.removedFront.insert(g);
        if (sameType) {
            if (f == KF::Vendor || !done.insert(g).second)
                continue;
            if (!keyed(dst, f)) {
                if (overwrite || own.empty())
                    own = from->second, ++fields;
                continue;
            }
            // fields which may be present more than once
            anyOrder.insert(g);
            List res;
            const auto has = [&](const List &l, const TagValue &v) {
                return std::any_of(l.begin(), l.end(), [&](const TagValue &x) { return replaces(dst, f, x, v); });
            };
            for (const auto &v : own)
                if (!overwrite || !has(from->second, v))
                    res.push_back(v);
            for (const auto &v : from->second)
                if (overwrite || !has(own, v))
                    res.push_back(v), ++fields;
            own = res;
        } else if (overwrite || own.empty()) {
            // Actor and Performers are the same field in Matroska
            own = from->second;
            if (!formatMultiple(dst, f))
                own.resize(1);
            ++fields;
        }
    }
    j.check(dst, sameType ? "insertSame" : "insertOther", {}, anyOrder);
    // a label stored in the other way might be carried along in MP4
    if (!dst.hidden && (inserted > 0) != (fields > 0) && (fields || dst.tag->type() != TagType::Mp4Tag))
        c.fail("fields:insert:count", strf("insertValues() returned %zu but %zu fields have been transferred; %s", inserted, fields, j.history.c_str()));
    Judge k{ c, j.history + " (source)" };
    k.check(src, "insertSource");
}

// merging several ID3v2 tags of one file
void merge(Ctx &c)
{
    auto &r = c.rng;
    Bytes file;
    id3::TOptions opt;
    opt.version = r.chance(70) ? 2 + static_cast<unsigned>(r.below(3)) : 0;
    opt.maxText = 30;
    const auto n = 2 + r.below(2);
    for (std::size_t i = 0; i < n; ++i)
        file += id3::makeTag(id3::randomTag(r, opt));
    for (int i = 0; i < 4; ++i) {
        Bytes frame("\xFF\xFB\x90\x00", 4);
        frame.resize(417, '\0');
        file += frame;
    }
    const auto path = c.dir + "/m.mp3";
    writeFile(path, file);
    Media m(path);
    auto res = m.parse();
    const auto tags = m.info.id3v2Tags().size();
    if (tags < 2) {
        c.count("merge-skipped");
        return;
    }
    struct F {
        std::uint32_t id = 0;
        bool hasType;
        std::uint32_t type;
        std::string value, key;
    };
    const auto collect = [&](T::Id3v2Tag &t) {
        std::vector<F> l;
        for (const auto &[id, field] : t.fields()) {
            F f{ field.id(), field.isTypeInfoAssigned(), field.isTypeInfoAssigned() ? static_cast<std::uint32_t>(field.typeInfo()) : 0u, {}, {} };
            f.value = field.value().isEmpty() ? "" : full(field.value());
            for (const auto &v : field.additionalValues())
                if (!v.isEmpty())
                    f.value += "&" + full(v);
            if (f.value.empty())
                continue;
            if (T::Id3v2FrameIds::isShortId(f.id))
                if (const auto id = T::Id3v2FrameIds::convertToLongId(f.id))
                    f.id = id;
            f.key = strf("%08x%d%u", f.id, f.hasType, f.type);
            const auto known = t.knownField(f.id);
            Obs o;
            const auto descKeyed = known == KF::Comment || known == KF::Lyrics || known == KF::SynchronizedLyrics;
            if (descKeyed)
                f.key += "|" + langOf(field.value());
            if (descKeyed || known == KF::Cover)
                f.key += "|" + descOf(field.value());
            else if (known == KF::Invalid && !T::Id3v2FrameIds::isTextFrame(f.id) && !T::Id3v2FrameIds::isUrlFrame(f.id))
                f.key += "|" + f.value;
            l.push_back(f);
        }
        return l;
    };
    std::vector<F> expected;
    std::string log;
    for (const auto &t : m.info.id3v2Tags()) {
        auto l = collect(*t);
        std::set<std::string> present;
        for (const auto &f : expected)
            present.insert(f.key);
        for (const auto &f : l)
            if (!present.count(f.key))
                expected.push_back(f);
        log += strf("tag with %zu fields; ", l.size());
    }
    const auto version = m.info.id3v2Tags().front()->majorVersion();
    m.info.mergeId3v2Tags();
    c.artifact("file", file);
    if (m.info.id3v2Tags().size() != 1)
        c.failNow("fields:merge:count", strf("%zu tags are left after merging", m.info.id3v2Tags().size()));
    auto &t = *m.info.id3v2Tags().front();
    if (t.majorVersion() != version)
        c.fail("fields:merge:version", "the version of the first tag changed when merging");
    std::multiset<std::string> a, b;
    for (const auto &f : expected)
        a.insert(f.key + "=" + f.value);
    for (const auto &f : collect(t))
        b.insert(f.key + "=" + f.value);
    for (const auto &x : a)
        if (b.count(x) < a.count(x))
            c.failNow("fields:merge:lost", strf("field %s is lost when merging (%s)", x.substr(0, 120).c_str(), log.c_str()));
    for (const auto &x : b)
        if (a.count(x) < b.count(x))
            c.failNow("fields:merge:extra", strf("unexpected field %s after merging (%s)", x.substr(0, 120).c_str(), log.c_str()));
    c.mix("merge");
    c.mix(expected.size());
    for (const auto &x : a)
        c.mix(x);
    c.count("merged-tags", tags);
    c.count("merged-fields", a.size());
    c.cover(strf("merge:%u", version));
    c.nontrivial = !a.empty();
}

// fields each format is expected to support
std::map<std::string, std::set<KF>> expectedFields()
{
    std::map<std::string, std::set<KF>> m;
    m["id3v1"] = { KF::Title, KF::Album, KF::Artist, KF::Genre, KF::RecordDate, KF::Comment, KF::TrackPosition };
    const std::set<KF> id3 = { KF::Album, KF::Artist, KF::Comment, KF::RecordDate, KF::Title, KF::Genre, KF::TrackPosition, KF::DiskPosition, KF::Encoder,
        KF::Bpm, KF::Cover, KF::Lyricist, KF::Length, KF::Language, KF::EncoderSettings, KF::Lyrics, KF::SynchronizedLyrics, KF::Grouping, KF::Publisher,
        KF::Composer, KF::PlayCounter, KF::Rating, KF::AlbumArtist, KF::RemixedBy, KF::Copyright, KF::OriginalMediaType, KF::InitialKey,
        KF::PublisherWebpage, KF::PerformerWebpage, KF::Subtitle, KF::ISRC };
    m["id3v2.2"] = m["id3v2.3"] = m["id3v2.4"] = id3;
    for (auto v : { "id3v2.3", "id3v2.4" })
        m[v].insert({ KF::ReleaseDate, KF::TaggingDate, KF::EncodingDate, KF::OriginalReleaseDate, KF::Mood, KF::PurchaseItem, KF::Synopsis });
    m["mp4"] = { KF::Album, KF::Artist, KF::Comment, KF::RecordDate, KF::Title, KF::Genre, KF::TrackPosition, KF::DiskPosition, KF::Composer, KF::Encoder,
        KF::EncodedBy, KF::Bpm, KF::Cover, KF::Grouping, KF::Description, KF::Lyrics, KF::RecordLabel, KF::Performers, KF::Lyricist, KF::AlbumArtist,
        KF::Copyright, KF::Conductor, KF::Director, KF::Publisher, KF::SoundEngineer, KF::Producer, KF::ExecutiveProducer, KF::ArtDirector, KF::Arranger,
        KF::StoreDescription, KF::Synopsis, KF::MediaType, KF::ContentRating, KF::EncoderSettings };
    m["vorbis"] = { KF::Album, KF::Artist, KF::Comment, KF::Cover, KF::RecordDate, KF::Title, KF::Genre, KF::TrackPosition, KF::DiskPosition,
        KF::PartNumber, KF::Composer, KF::Encoder, KF::EncodedBy, KF::EncoderSettings, KF::Description, KF::Grouping, KF::RecordLabel, KF::Performers,
        KF::Language, KF::Lyricist, KF::Lyrics, KF::AlbumArtist, KF::Conductor, KF::Copyright, KF::License, KF::Director, KF::ISRC, KF::Rating, KF::Bpm,
        KF::Publisher, KF::PublisherWebpage, KF::PerformerWebpage, KF::Arranger, KF::Vendor };
    m["oggvorbis"] = m["vorbis"];
    m["matroska"] = { KF::Artist, KF::Album, KF::Comment, KF::RecordDate, KF::ReleaseDate, KF::Title, KF::Genre, KF::PartNumber, KF::TotalParts, KF::Encoder,
        KF::EncoderSettings, KF::Bpm, KF::Bps, KF::Rating, KF::Description, KF::Lyrics, KF::RecordLabel, KF::Performers, KF::Lyricist, KF::Composer,
        KF::Length, KF::Language, KF::AlbumArtist, KF::Subtitle, KF::LeadPerformer, KF::Arranger, KF::Conductor, KF::Director, KF::AssistantDirector,
        KF::DirectorOfPhotography, KF::SoundEngineer, KF::ArtDirector, KF::ProductionDesigner, KF::Choregrapher, KF::CostumeDesigner, KF::Actor,
        KF::Character, KF::WrittenBy, KF::ScreenplayBy, KF::EditedBy, KF::Producer, KF::Coproducer, KF::ExecutiveProducer, KF::DistributedBy,
        KF::MasteredBy, KF::EncodedBy, KF::MixedBy, KF::RemixedBy, KF::ProductionStudio, KF::ThanksTo, KF::Publisher, KF::Mood, KF::OriginalMediaType,
        KF::ContentType, KF::Subject, KF::Keywords, KF::Summary, KF::Synopsis, KF::InitialKey, KF::Period, KF::LawRating, KF::EncodingDate,
        KF::TaggingDate, KF::DigitalizationDate, KF::WritingDate, KF::PurchasingDate, KF::RecordingLocation, KF::CompositionLocation,
        KF::ComposerNationality, KF::PlayCounter, KF::Measure, KF::Tuning, KF::ISRC, KF::MCDI, KF::ISBN, KF::Barcode, KF::CatalogNumber, KF::LabelCode,
        KF::LCCN, KF::IMDB, KF::TMDB, KF::TVDB, KF::PurchaseItem, KF::PurchaseInfo, KF::PurchaseOwner, KF::PurchasePrice, KF::PurchaseCurrency,
        KF::Copyright, KF::ProductionCopyright, KF::License, KF::TermsOfUse };
    return m;
}

void caseC20(Ctx &c)
{
    auto &r = c.rng;
    if (r.chance(12))
        return merge(c);
    static const auto expected = expectedFields();
    std::vector<Obs> tags;
    std::vector<Judge> judges;
    for (auto n = 1 + r.below(3); n; --n) {
        // prefer several tags of the same kind
        const auto kind = static_cast<int>(r.below(8));
        tags.push_back(!tags.empty() && r.chance(35) && tags.front().tag->type() == TagType::Mp4Tag ? makeTag(r, 4) : makeTag(r, kind));
        judges.push_back(Judge{ c, tags.back().name + ":" });
        auto &o = tags.back();
        for (const auto f : expected.at(o.name))
            if (!o.tag->supportsField(f))
                c.failNow(strf("fields:%s:support:%s", o.name.c_str(), knownFieldName(f)), strf("%s does not support %s", o.name.c_str(), knownFieldName(f)));
        if (o.tag->fieldCount())
            c.fail("fields:initial", "new tag has fields");
        if (o.tag->type() == TagType::Mp4Tag && r.chance(30)) {
            auto &m = static_cast<T::Mp4Tag &>(*o.tag);
            auto v = utf8Value("ext label");
            m.setValue(T::Mp4TagExtendedMeanIds::iTunes, T::Mp4TagExtendedNameIds::label, v);
            o.model[KF::RecordLabel] = { v };
            judges.back().history += " (extended label)";
            judges.back().check(o, "extended");
        }
        c.mix(o.name);
        c.cover("tag:" + o.name);
    }
    unsigned ops = 0;
    for (auto n = 3 + r.below(c.thorough ? 40 : 24); n; --n) {
        const auto i = r.below(tags.size());
        if (tags.size() > 1 && r.chance(15)) {
            auto k = r.below(tags.size());
            if (k == i || (tags[k].hidden && tags[i].version != tags[k].version))
                continue;
            judges[i].history += " <" + judges[k].history + ">";
            copy(c, r, tags[k], tags[i], judges[i]);
            c.mix(strf("c%zu%zu", static_cast<std::size_t>(k), static_cast<std::size_t>(i)));
            ++ops;
        } else if (edit(c, r, tags[i], judges[i]))
            ++ops;
    }
    c.count("operations", ops);
    std::size_t values = 0;
    for (const auto &o : tags)
        for (const auto &m : o.model)
            values += m.second.size();
    c.count("values", values);
    c.nontrivial = ops > 0;
}
PropReg c20{ "C20", caseC20 };
} // namespace
} // namespace tp
