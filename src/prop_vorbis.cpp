// C08: Vorbis comments written are read back, in Ogg files and raw FLAC files.
#include "oggfmt.h"
#include "rawfmt.h"
#include "values.h"
#include "views.h"
#include <tagparser/id3/id3genres.h>

namespace tp {
void compareOgg(Ctx &c, const ogg::Info &a, const ogg::Info &b, const std::string &round, const std::set<std::uint32_t> &removed, const std::set<std::uint32_t> &added);
void compareRaw(Ctx &c, const raw::Info &a, const raw::Info &b, const std::string &round);
using KF = T::KnownField;
static const FieldSpec vorbisFields[] = {
    { KF::Album, Kind::Text, true, "ALBUM" }, { KF::Artist, Kind::Text, true, "ARTIST" }, { KF::Comment, Kind::Text, true, "COMMENT" }, { KF::Cover, Kind::Cover, true, "METADATA_BLOCK_PICTURE" },
    { KF::Cover, Kind::Cover, true, "METADATA_BLOCK_PICTURE" }, { KF::RecordDate, Kind::Date, true, "DATE" }, { KF::Title, Kind::Text, true, "TITLE" }, { KF::Genre, Kind::Genre, true, "GENRE" },
    { KF::TrackPosition, Kind::Position, true, "TRACKNUMBER" }, { KF::DiskPosition, Kind::Position, true, "DISCNUMBER" }, { KF::PartNumber, Kind::Position, true, "PARTNUMBER" }, { KF::Composer, Kind::Text, true, "COMPOSER" },
    { KF::Encoder, Kind::Text, true, "ENCODER" }, { KF::EncodedBy, Kind::Text, true, "ENCODED_BY" }, { KF::EncoderSettings, Kind::Text, true, "ENCODER_OPTIONS" }, { KF::Description, Kind::Text, true, "DESCRIPTION" },
    { KF::Grouping, Kind::Text, true, "GROUPING" }, { KF::RecordLabel, Kind::Text, true, "LABEL" }, { KF::Performers, Kind::Text, true, "PERFORMER" }, { KF::Language, Kind::Text, true, "LANGUAGE" },
    { KF::Lyricist, Kind::Text, true, "LYRICIST" }, { KF::Lyrics, Kind::Text, true, "LYRICS" }, { KF::AlbumArtist, Kind::Text, true, "ALBUMARTIST" }, { KF::Conductor, Kind::Text, true, "CONDUCTOR" },
    { KF::Copyright, Kind::Text, true, "COPYRIGHT" }, { KF::License, Kind::Text, true, "LICENSE" }, { KF::Director, Kind::Text, true, "DIRECTOR" }, { KF::ISRC, Kind::Text, true, "ISRC" },
    { KF::Rating, Kind::Rating, true, "RATING" }, { KF::Bpm, Kind::Number, true, "BPM" }, { KF::Publisher, Kind::Text, true, "PUBLISHER" }, { KF::Arranger, Kind::Text, true, "ARRANGER" },
    { KF::PublisherWebpage, Kind::Url, true, "WWWPUBLISHER" }, { KF::PerformerWebpage, Kind::Url, true, "WEBSITE" }, { KF::Invalid, Kind::Text, true, "MY FIELD" }, { KF::Invalid, Kind::Text, true, "REPLAYGAIN_TRACK_GAIN" },
    { KF::Invalid, Kind::Text, true, "x-custom" },
};
using Map = std::map<Bytes, std::vector<Bytes>>;
Bytes pictureForm(const vorbis::Picture &p)
{
    return "(" + p.mime + strf(")(%u)(", p.type) + p.desc + strf(")[%zu bytes %016llx]", p.data.size(), (unsigned long long)fnv(p.data));
}
using View = VorbisView;
View vorbisView(const vorbis::Comment &c)
{
    View v;
    v.vendor = c.vendor;
    for (auto &[id, vals] : vorbis::grouped(c))
        for (auto &x : vals)
            if (id == "METADATA_BLOCK_PICTURE")
                v.pictures.push_back(pictureForm(vorbis::parsePicture(vorbis::unbase64(x))));
            else if (!x.empty())
                v.fields[id].push_back(x);
    return v;
}
// the library merges the fields for the total number into the fields for the number and reads YEAR as DATE
void normalizeVorbisView(View &v)
{
    for (auto &[num, tot] : std::initializer_list<std::pair<const char *, const char *>>{ { "TRACKNUMBER", "TRACKTOTAL" }, { "DISCNUMBER", "DISCTOTAL" }, { "PARTNUMBER", "PARTTOTAL" } }) {
        auto t = v.fields.find(tot);
        if (t == v.fields.end())
            continue;
        auto &n = v.fields[num];
        for (std::size_t i = 0; i < t->second.size(); ++i)
            if (i >= n.size())
                n.push_back("/" + t->second[i]);
            else if (n[i].find('/') == Bytes::npos)
                n[i] += "/" + t->second[i];
        v.fields.erase(t);
    }
}
static Bytes viewText(const View &v)
{
    Bytes s = "vendor=" + v.vendor;
    for (auto &[id, vals] : v.fields)
        for (auto &x : vals)
            s += "\n" + id + "=" + x;
    for (auto &p : v.pictures)
        s += "\nPICTURE=" + p;
    return s;
}
struct VEdit {
    const FieldSpec *spec;
    std::vector<Bytes> forms;
};
static std::vector<VEdit> editVorbis(Ctx &c, T::VorbisComment *t, View &want, std::string &ed, const View &now)
{
    auto &r = c.rng;
    std::vector<VEdit> edits;
    if (r.chance(5)) {
        t->removeAllFields();
        want.fields.clear();
        want.pictures.clear();
        ed += "removeAll ";
    }
    if (r.chance(20)) {
        want.vendor = randomText(r, 30);
        if (want.vendor.empty())
            want.vendor = "v";
        t->setValue(KF::Vendor, textValue(r, want.vendor));
        ed += "vendor ";
    }
    std::set<Bytes> used;
    for (auto n = r.below(7); n; --n) {
        auto &s = vorbisFields[r.below(std::size(vorbisFields))];
        if (!used.insert(vorbis::upper(s.id)).second)
            continue;
        if (!strcmp(s.id, "DATE") && want.fields.count("YEAR"))
            continue;
        ValueCaps caps;
        caps.commentMeta = false;
        caps.maxChars = r.chance(8) ? 70000 : r.chance(30) ? 700 : 60;
        caps.ratingScale = T::TagType::VorbisComment;
        caps.mimes.push_back("image/gif");
        VEdit e{ &s, {} };
        auto count = r.chance(15) ? 0u : r.chance(35) ? static_cast<unsigned>(r.range(2, 5)) : 1u;
        std::vector<Bytes> file;
        std::vector<T::TagValue> vals;
        std::vector<unsigned> types;
        for (unsigned k = 0; k < count; ++k) {
            Val v;
            do
                v = randomVal(r, s.kind, caps);
            while (s.kind == Kind::Text && v.form.empty());
            switch (s.kind) {
            case Kind::Genre:
                if (v.b) {
                    v.form = Bytes(T::Id3Genres::stringFromIndex(static_cast<int>(v.a)));
                    file.push_back(v.form);
                } else
                    file.push_back(v.form);
                e.forms.push_back(v.form);
                break;
            case Kind::Rating: {
                T::Popularity p;
                v.a = static_cast<long>(r.below(101));
                auto scale = r.below(3);
                if (!v.a)
                    scale = 0;
                p.scale = scale == 1 ? T::TagType::Unspecified : T::TagType::VorbisComment;
                if (scale == 1)
                    v.a = v.a / 20 * 20;
                if (!v.a)
                    v.a = 20;
                p.rating = scale == 1 ? static_cast<double>(v.a) / 20 : static_cast<double>(v.a);
                v.value.assignPopularity(p);
                file.push_back(std::to_string(v.a));
                e.forms.push_back(strf("|%ld|0", v.a));
                break;
            }
            case Kind::Cover:
                file.push_back("(" + v.mime + strf(")(%ld)(", v.a) + v.desc + strf(")[%zu bytes %016llx]", v.data.size(), (unsigned long long)fnv(v.data)));
                e.forms.push_back(v.form + strf(" type %ld", v.a));
                types.push_back(static_cast<unsigned>(v.a));
                break;
            default:
                file.push_back(v.form);
                e.forms.push_back(v.form);
            }
            vals.push_back(v.value);
        }
        auto firstOnly = false;
        if (s.kind == Kind::Cover) {
            t->fields().erase(s.id);
            for (std::size_t k = 0; k < vals.size(); ++k) {
                T::VorbisCommentField f(s.id, vals[k]);
                f.setTypeInfo(types[k]);
                t->fields().emplace(s.id, std::move(f));
            }
        } else if (count == 1 && r.coin()) {
            if (s.field == KF::Invalid)
                t->setValue(Bytes(s.id), vals[0]);
            else
                t->setValue(s.field, vals[0]);
            firstOnly = true;
        } else if (s.field == KF::Invalid)
            t->setValues(Bytes(s.id), vals);
        else
            t->setValues(s.field, vals);
        ed += std::string(s.id) + strf("x%u%s ", count, firstOnly ? "(first)" : "");
        if (s.kind == Kind::Cover)
            want.pictures = file;
        else {
            auto &w = want.fields[vorbis::upper(s.id)];
            if (firstOnly && w.size() > 1) {
                w[0] = file[0];
                e.forms.clear(); // the API view of the rest is judged when assigned only
            } else
                w = file;
            if (w.empty())
                want.fields.erase(vorbis::upper(s.id));
        }
        c.cover(std::string(s.id) + strf(" x%u", std::min(count, 2u)));
        if (!firstOnly || !e.forms.empty())
            edits.push_back(std::move(e));
    }
    (void)now;
    return edits;
}
static void judge(Ctx &c, View want, View got, bool raw, bool picsEdited, const std::string &round, const char *key)
{
    if (raw && !picsEdited) {
        std::sort(want.pictures.begin(), want.pictures.end());
        std::sort(got.pictures.begin(), got.pictures.end());
    }
    auto a = viewText(want), b = viewText(got);
    if (a != b)
        c.fail(key, round + "comment expected vs. comment in file: " + firstDiff(a, b));
    c.count("entries-compared", got.pictures.size() + got.fields.size());
}
static void apiCheck(Ctx &c, T::VorbisComment *t, const std::vector<VEdit> &edits, const View &want, const std::string &round)
{
    if (!t)
        c.failNow("reread", round + "Vorbis comment not found again");
    auto vendor = utf8Of(t->value(KF::Vendor));
    if (vendor != want.vendor)
        c.fail("api-vendor", round + "vendor read back as " + quote(vendor) + " instead of " + quote(want.vendor));
    for (auto &e : edits) {
        ValueCaps caps;
        caps.commentMeta = false;
        caps.ratingScale = T::TagType::VorbisComment;
        std::vector<Bytes> got;
        if (e.spec->kind == Kind::Cover) {
            auto range = t->fields().equal_range(e.spec->id);
            for (auto i = range.first; i != range.second; ++i)
                got.push_back(formOf(Kind::Cover, i->second.value(), caps) + strf(" type %u", i->second.typeInfo()));
        } else
            for (auto *v : e.spec->field == KF::Invalid ? t->values(Bytes(e.spec->id)) : t->values(e.spec->field))
                got.push_back(formOf(e.spec->kind, *v, caps));
        if (got != e.forms) {
            Bytes a, b;
            for (auto &x : e.forms) a += "{" + x + "}";
            for (auto &x : got) b += "{" + x + "}";
            c.fail(std::string("api-") + e.spec->id, round + e.spec->id + ": assigned " + a.substr(0, 200) + " read back " + b.substr(0, 200) + " (" + firstDiff(a, b) + ")");
        }
        c.count("values-compared", e.forms.size());
    }
}
static void addTotals(Rng &r, vorbis::Comment &cm)
{
    auto has = [&](const char *n) { return std::any_of(cm.fields.begin(), cm.fields.end(), [&](auto &f) { return vorbis::upper(f.first) == n; }); };
    if (r.chance(15) && !has("TRACKNUMBER")) {
        cm.fields.emplace_back("TRACKTOTAL", std::to_string(r.range(1, 300)));
        if (r.chance(80))
            cm.fields.emplace_back("TRACKNUMBER", std::to_string(r.range(1, 300)));
    }
    if (r.chance(10) && !has("DISCNUMBER")) {
        cm.fields.emplace_back("DISCNUMBER", std::to_string(r.range(1, 9)));
        cm.fields.emplace_back("DISCTOTAL", std::to_string(r.range(1, 9)));
    }
    if (r.chance(10) && !has("DATE"))
        cm.fields.emplace_back("YEAR", std::to_string(r.range(1900, 2100)));
}
static void caseOgg(Ctx &c)
{
    auto &r = c.rng;
    ogg::GOptions go;
    go.codec = r.coin() ? "" : r.pick({ "vorbis", "opus", "flac" });
    go.unknown = r.chance(20);
    go.maxPackets = 6;
    go.bigPackets = r.chance(30);
    auto g = ogg::generate(r, go);
    auto path = c.path("f.ogg");
    writeFile(path, g.file);
    c.artifact("input.ogg", g.file);
    c.note(g.desc);
    auto before = ogg::inspect(g.file);
    auto rounds = r.range(1, 3);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        Media m(path);
        applyCfg(m.info, cfg);
        m.info.setPreferredPadding(r.chance(60) ? 0 : r.below(3000));
        auto res = m.parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok || m.info.tagsParsingStatus() != T::ParsingStatus::Ok)
            c.failNow("parse", round + res.what + res.diagText());
        auto *container = static_cast<T::OggContainer *>(m.info.container());
        std::map<std::uint32_t, T::OggVorbisComment *> tags;
        for (std::size_t i = 0; i < container->tagCount(); ++i)
            tags[static_cast<std::uint32_t>(container->tag(i)->target().tracks().front())] = container->tag(i);
        std::map<std::uint32_t, View> want;
        std::vector<std::uint32_t> serials;
        std::set<std::uint32_t> added;
        for (auto &s : before.streams) {
            if (s.tag) {
                want[s.serial] = vorbisView(*s.tag);
                normalizeVorbisView(want[s.serial]);
                if (!tags.count(s.serial))
                    c.failNow("tag-missing", round + strf("no tag for stream %u", s.serial));
                serials.push_back(s.serial);
            } else if ((s.codec == "vorbis" || s.codec == "opus") && r.coin())
                if (auto *t = container->createTag(T::TagTarget(50, { s.serial }))) {
                    tags[s.serial] = t;
                    want[s.serial] = View();
                    added.insert(s.serial);
                    serials.push_back(s.serial);
                }
        }
        if (serials.empty())
            return;
        std::string ed;
        std::map<std::uint32_t, std::vector<VEdit>> edits;
        for (auto s : serials)
            if (serials.size() == 1 || r.chance(60) || added.count(s)) {
                ed += strf("[%u] ", s);
                edits[s] = editVorbis(c, tags[s], want[s], ed, want[s]);
                if (added.count(s) && want[s].vendor.empty()) {
                    want[s].vendor = "w";
                    tags[s]->setVendor(utf8Value("w"));
                }
            }
        c.note(" | " + round + ed);
        auto ap = m.apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.ogg", k), bytes);
        ogg::Info after;
        try {
            after = ogg::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        compareOgg(c, before, after, round + ed, {}, added);
        Media n(path);
        auto pr = n.parse();
        if (pr.outcome != Outcome::Ok || !n.info.container())
            c.failNow("reread", round + ed + pr.what);
        auto *nc = static_cast<T::OggContainer *>(n.info.container());
        for (auto &[serial, w] : want) {
            auto *s = after.stream(serial);
            auto id = round + ed + strf("stream %u: ", serial);
            if (!s || !s->tag)
                c.failNow("comment-missing", id + "no comment readable");
            try {
                judge(c, w, vorbisView(*s->tag), false, false, id, edits.count(serial) ? "comment" : "other-comment");
            } catch (const Malformed &e) {
                c.fail("picture", id + "picture is malformed: " + e.what());
            }
            T::OggVorbisComment *t = nullptr;
            for (std::size_t i = 0; i < nc->tagCount(); ++i)
                if (nc->tag(i)->target().tracks().front() == serial)
                    t = nc->tag(i);
            apiCheck(c, t, edits[serial], w, id);
        }
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
        before = after;
    }
}
static View rawView(const raw::Info &i)
{
    auto v = i.comment ? vorbisView(*i.comment) : View();
    for (auto &p : i.pictures)
        v.pictures.push_back(pictureForm(p));
    return v;
}
static void caseFlac(Ctx &c)
{
    auto &r = c.rng;
    raw::GOptions go;
    go.format = "flac";
    go.maxStream = 2000;
    go.v2 = r.chance(20);
    go.v1 = go.ape = r.chance(10);
    auto g = raw::generate(r, go);
    auto path = c.path("f.flac");
    writeFile(path, g.file);
    c.artifact("input.flac", g.file);
    c.note(g.desc);
    auto before = raw::inspect(g.file);
    auto rounds = r.range(1, 3);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        Media m(path);
        applyCfg(m.info, cfg);
        auto res = m.parse();
        auto round = strf("flac round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok || m.info.tagsParsingStatus() != T::ParsingStatus::Ok)
            c.failNow("parse", round + res.what + res.diagText());
        auto want = rawView(before);
        normalizeVorbisView(want);
        auto *t = m.info.vorbisComment();
        auto created = false;
        if (!t) {
            t = m.info.createVorbisComment();
            created = true;
        }
        if (!t)
            c.failNow("create", round + "can not create Vorbis comment");
        if (!before.comment)
            want.vendor = utf8Of(t->vendor());
        std::string ed = created ? "new comment " : "";
        auto edits = editVorbis(c, t, want, ed, want);
        c.note(" | " + round + ed);
        auto ap = m.apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.flac", k), bytes);
        raw::Info after;
        try {
            after = raw::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        compareRaw(c, before, after, round + ed);
        if (!after.comment)
            c.failNow("comment-missing", round + ed + "no Vorbis comment block");
        auto picsEdited = std::any_of(edits.begin(), edits.end(), [](auto &e) { return e.spec->kind == Kind::Cover; });
        judge(c, want, rawView(after), true, picsEdited, round + ed, "comment");
        Media n(path);
        auto pr = n.parse();
        if (pr.outcome != Outcome::Ok)
            c.failNow("reread", round + ed + pr.what);
        apiCheck(c, n.info.vorbisComment(), edits, want, round + ed);
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
        before = after;
    }
}
static void caseC08(Ctx &c)
{
    if (c.rng.chance(65))
        caseOgg(c);
    else
        caseFlac(c);
}
static PropReg regC08("C08", caseC08);
} // namespace tp
