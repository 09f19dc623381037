// C07: values assigned to Matroska tags are read back; targets, languages and nested fields are kept.
#include "mkvfmt.h"
#include "values.h"
#include "views.h"
#include <algorithm>
#include <tagparser/id3/id3genres.h>

namespace tp {
void compareMkv(Ctx &c, const mkv::Info &a, const mkv::Info &b, const std::string &round);
using KF = T::KnownField;
static const FieldSpec mkvFields[] = {
    { KF::Artist, Kind::Text, true, "ARTIST" }, { KF::Album, Kind::Text, true, "ALBUM" }, { KF::Comment, Kind::Text, true, "COMMENT" }, { KF::RecordDate, Kind::Date, true, "DATE_RECORDED" },
    { KF::ReleaseDate, Kind::Date, true, "DATE_RELEASED" }, { KF::Title, Kind::Text, true, "TITLE" }, { KF::Title, Kind::Text, true, "TITLE" }, { KF::Genre, Kind::Genre, true, "GENRE" },
    { KF::PartNumber, Kind::Number, true, "PART_NUMBER" }, { KF::TotalParts, Kind::Number, true, "TOTAL_PARTS" }, { KF::Encoder, Kind::Text, true, "ENCODER" }, { KF::EncoderSettings, Kind::Text, true, "ENCODER_SETTINGS" },
    { KF::Bpm, Kind::Number, true, "BPM" }, { KF::Rating, Kind::Rating, true, "RATING" }, { KF::Rating, Kind::Rating, true, "RATING" }, { KF::Description, Kind::Text, true, "DESCRIPTION" },
    { KF::Lyrics, Kind::Text, true, "LYRICS" }, { KF::RecordLabel, Kind::Text, true, "LABEL" }, { KF::Performers, Kind::Text, true, "ACTOR" }, { KF::Lyricist, Kind::Text, true, "LYRICIST" },
    { KF::Composer, Kind::Text, true, "COMPOSER" }, { KF::AlbumArtist, Kind::Text, true, "ACCOMPANIMENT" }, { KF::Subtitle, Kind::Text, true, "SUBTITLE" }, { KF::LeadPerformer, Kind::Text, true, "LEAD_PERFORMER" },
    { KF::Arranger, Kind::Text, true, "ARRANGER" }, { KF::Conductor, Kind::Text, true, "CONDUCTOR" }, { KF::Director, Kind::Text, true, "DIRECTOR" }, { KF::AssistantDirector, Kind::Text, true, "ASSISTANT_DIRECTOR" },
    { KF::DirectorOfPhotography, Kind::Text, true, "DIRECTOR_OF_PHOTOGRAPHY" }, { KF::SoundEngineer, Kind::Text, true, "SOUND_ENGINEER" }, { KF::ArtDirector, Kind::Text, true, "ART_DIRECTOR" },
    { KF::ProductionDesigner, Kind::Text, true, "PRODUCTION_DESIGNER" }, { KF::Choregrapher, Kind::Text, true, "CHOREGRAPHER" }, { KF::CostumeDesigner, Kind::Text, true, "COSTUME_DESIGNER" },
    { KF::Character, Kind::Text, true, "CHARACTER" }, { KF::WrittenBy, Kind::Text, true, "WRITTEN_BY" }, { KF::ScreenplayBy, Kind::Text, true, "SCREENPLAY_BY" }, { KF::EditedBy, Kind::Text, true, "EDITED_BY" },
    { KF::Producer, Kind::Text, true, "PRODUCER" }, { KF::Coproducer, Kind::Text, true, "COPRODUCER" }, { KF::ExecutiveProducer, Kind::Text, true, "EXECUTIVE_PRODUCER" }, { KF::DistributedBy, Kind::Text, true, "DISTRIBUTED_BY" },
    { KF::MasteredBy, Kind::Text, true, "MASTERED_BY" }, { KF::EncodedBy, Kind::Text, true, "ENCODED_BY" }, { KF::MixedBy, Kind::Text, true, "MIXED_BY" }, { KF::RemixedBy, Kind::Text, true, "REMIXED_BY" },
    { KF::ProductionStudio, Kind::Text, true, "PRODUCTION_STUDIO" }, { KF::ThanksTo, Kind::Text, true, "THANKS_TO" }, { KF::Publisher, Kind::Text, true, "PUBLISHER" }, { KF::Mood, Kind::Text, true, "MOOD" },
    { KF::OriginalMediaType, Kind::Text, true, "ORIGINAL_MEDIA_TYPE" }, { KF::ContentType, Kind::Text, true, "CONTENT_TYPE" }, { KF::Subject, Kind::Text, true, "SUBJECT" }, { KF::Keywords, Kind::Text, true, "KEYWORDS" },
    { KF::Summary, Kind::Text, true, "SUMMARY" }, { KF::Synopsis, Kind::Text, true, "SYNOPSIS" }, { KF::InitialKey, Kind::Text, true, "INITIAL_KEY" }, { KF::Period, Kind::Text, true, "PERIOD" },
    { KF::LawRating, Kind::Text, true, "LAW_RATING" }, { KF::EncodingDate, Kind::Date, true, "DATE_ENCODED" }, { KF::TaggingDate, Kind::Date, true, "DATE_TAGGED" }, { KF::DigitalizationDate, Kind::Date, true, "DATE_DIGITIZED" },
    { KF::WritingDate, Kind::Date, true, "DATE_WRITTEN" }, { KF::PurchasingDate, Kind::Date, true, "DATE_PURCHASED" }, { KF::RecordingLocation, Kind::Text, true, "RECORDING_LOCATION" },
    { KF::CompositionLocation, Kind::Text, true, "COMPOSITION_LOCATION" }, { KF::ComposerNationality, Kind::Text, true, "COMPOSER_NATIONALITY" }, { KF::PlayCounter, Kind::Counter, true, "PLAY_COUNTER" },
    { KF::Measure, Kind::Text, true, "MEASURE" }, { KF::Tuning, Kind::Text, true, "TUNING" }, { KF::ISRC, Kind::Text, true, "ISRC" }, { KF::MCDI, Kind::Binary, true, "MCDI" }, { KF::ISBN, Kind::Text, true, "ISBN" },
    { KF::Barcode, Kind::Text, true, "BARCODE" }, { KF::CatalogNumber, Kind::Text, true, "CATALOG_NUMBER" }, { KF::LabelCode, Kind::Text, true, "LABEL_CODE" }, { KF::LCCN, Kind::Text, true, "LCCN" },
    { KF::IMDB, Kind::Text, true, "IMDB" }, { KF::TMDB, Kind::Text, true, "TMDB" }, { KF::TVDB, Kind::Text, true, "TVDB" }, { KF::PurchaseItem, Kind::Url, true, "PURCHASE_ITEM" }, { KF::PurchaseInfo, Kind::Url, true, "PURCHASE_INFO" },
    { KF::PurchaseOwner, Kind::Text, true, "PURCHASE_OWNER" }, { KF::PurchasePrice, Kind::Text, true, "PURCHASE_PRICE" }, { KF::PurchaseCurrency, Kind::Text, true, "PURCHASE_CURRENCY" }, { KF::Copyright, Kind::Text, true, "COPYRIGHT" },
    { KF::ProductionCopyright, Kind::Text, true, "PRODUCTION_COPYRIGHT" }, { KF::License, Kind::Text, true, "LICENSE" }, { KF::TermsOfUse, Kind::Text, true, "TERMS_OF_USE" },
    { KF::Invalid, Kind::Text, true, "CUSTOM_FIELD" }, { KF::Invalid, Kind::Text, true, "Mixed Case field" }, { KF::Invalid, Kind::Binary, true, "BINARY_FIELD" }, { KF::Invalid, Kind::Text, true, "TITLE" },
    { KF::Invalid, Kind::Text, true, "URL" },
};
static Bytes upper(Bytes s)
{
    for (auto &ch : s)
        if (ch >= 'a' && ch <= 'z')
            ch = static_cast<char>(ch - 32);
    return s;
}
static bool known(const Bytes &id)
{
    static const auto ids = [] {
        std::set<Bytes> s{ "ACTOR", "BPS", "DURATION", "LANGUAGE" };
        for (auto &f : mkvFields)
            if (f.field != KF::Invalid)
                s.insert(f.id);
        return s;
    }();
    return ids.count(id);
}
static void ratingForm(mkv::SimpleTag &t)
{
    if (t.name == "RATING" && t.str) {
        char *end = nullptr;
        auto d = strtod(t.str->c_str(), &end);
        if (!t.str->empty() && !*end)
            t.str = strf("%.4g", d);
    }
    for (auto &n : t.nested)
        ratingForm(n);
}
static bool blank(const mkv::SimpleTag &t)
{
    return (!t.str || t.str->empty()) && (!t.bin || t.bin->empty());
}
// what the tags of a file say: IDs of known fields upper-case, grouped by ID
std::vector<mkv::TagEl> mkvTagView(const mkv::Info &i)
{
    auto tags = i.tags;
    for (auto &t : tags) {
        for (auto &f : t.fields) {
            if (known(upper(f.name)))
                f.name = upper(f.name);
            ratingForm(f);
        }
        t.fields.erase(std::remove_if(t.fields.begin(), t.fields.end(), [](auto &f) { return blank(f) && f.nested.empty(); }), t.fields.end());
        std::stable_sort(t.fields.begin(), t.fields.end(), [](auto &a, auto &b) { return a.name < b.name; });
        if (t.hasLevel && !t.level)
            t.level = 50;
    }
    return tags;
}
std::string mkvTagText(const std::vector<mkv::TagEl> &tags)
{
    std::string s;
    for (auto &t : tags)
        s += t.text();
    return s;
}
struct TEdit {
    std::size_t tag;
    const FieldSpec *spec;
    std::vector<Bytes> forms;
};
struct TModel {
    std::vector<mkv::TagEl> tags;
    std::vector<std::set<Bytes>> edited; // IDs per tag
    std::vector<TEdit> edits;
};
static void editTag(Ctx &c, T::MatroskaTag *t, TModel &m, std::size_t idx, std::string &ed)
{
    auto &r = c.rng;
    auto &tag = m.tags[idx];
    auto &fields = tag.fields;
    if (r.chance(5)) {
        t->removeAllFields();
        fields.clear();
        ed += "removeAll ";
    }
    if (r.chance(12)) {
        auto level = r.pick({ 10u, 30u, 50u, 60u, 300u });
        auto &target = t->target();
        target.setLevel(level);
        tag.level = level;
        if (r.coin()) {
            tag.type = r.coin() ? Bytes() : Bytes(r.pick({ "PART", "SEASON", "VOLUME" }));
            target.setLevelName(tag.type);
        }
        if (r.coin()) {
            target.tracks() = tag.tracks = { r.next() >> r.below(60) };
            target.chapters() = tag.chapters = {};
            target.editions() = tag.editions = { r.next() | 1, 1 + r.below(70000) };
        }
        ed += "target ";
    }
    std::set<Bytes> used;
    for (auto n = r.below(7); n; --n) {
        auto &s = mkvFields[r.below(std::size(mkvFields))];
        Bytes id = s.id;
        if (!used.insert(id).second)
            continue;
        ValueCaps caps;
        caps.commentMeta = false;
        caps.maxChars = r.chance(8) ? 20000 : r.chance(30) ? 300 : 60;
        TEdit e{ idx, &s, {} };
        auto count = r.chance(15) ? 0u : r.chance(35) ? static_cast<unsigned>(r.range(2, 4)) : 1u;
        std::vector<mkv::SimpleTag> file;
        std::vector<T::TagValue> vals;
        for (unsigned k = 0; k < count; ++k) {
            Val v;
            do
                v = randomVal(r, s.kind, caps);
            while (s.kind == Kind::Text && v.form.empty());
            mkv::SimpleTag f;
            f.name = id;
            switch (s.kind) {
            case Kind::Genre:
                if (v.b)
                    v.form = Bytes(T::Id3Genres::stringFromIndex(static_cast<int>(v.a)));
                f.str = v.form;
                break;
            case Kind::Binary:
                f.bin = v.data;
                break;
            case Kind::Rating: {
                // the scale of Matroska is 0 to 5, the generic one 1 to 5
                T::Popularity p;
                auto how = r.below(3);
                auto generic = how == 1;
                auto q = static_cast<double>(r.below(17)) / 4;
                p.rating = generic ? 1 + q : q * 1.25;
                auto file = strf("%.4g", q * 1.25);
                p.scale = generic ? T::TagType::Unspecified : T::TagType::MatroskaTag;
                if (how == 2)
                    v.value = utf8Value(file);
                else
                    v.value.assignPopularity(p);
                f.str = file;
                v.form = file;
                break;
            }
            default:
                f.str = v.form;
            }
            if (r.chance(25) && s.kind != Kind::Binary) {
                T::Locale l;
                if (r.chance(70)) {
                    f.lang = r.pick({ "eng", "ger", "jpn", "fre" });
                    l.emplace_back(Bytes(f.lang), T::LocaleFormat::ISO_639_2_B);
                }
                if (r.chance(50)) {
                    f.bcp = r.pick({ "en-US", "de-AT", "ja", "zh-Hant" });
                    l.emplace_back(Bytes(f.bcp), T::LocaleFormat::BCP_47);
                }
                v.value.setLocale(l);
                c.cover("locale");
            }
            e.forms.push_back(v.form);
            vals.push_back(v.value);
            file.push_back(std::move(f));
        }
        auto first = count == 1 && r.coin();
        if (first) {
            if (s.field == KF::Invalid)
                t->setValue(id, vals[0]);
            else
                t->setValue(s.field, vals[0]);
        } else if (s.field == KF::Invalid)
            t->setValues(id, vals);
        else
            t->setValues(s.field, vals);
        ed += id + strf("x%u%s ", count, first ? "(first)" : "");
        m.edited[idx].insert(id);
        std::vector<mkv::SimpleTag *> have;
        for (auto &f : fields)
            if (f.name == id)
                have.push_back(&f);
        std::vector<mkv::SimpleTag> extra;
        for (std::size_t k = 0; k < std::max(file.size(), have.size()); ++k) {
            if (first && k)
                continue;
            if (k >= have.size())
                extra.push_back(file[k]);
            else {
                have[k]->str.reset();
                have[k]->bin.reset();
                if (k < file.size()) {
                    have[k]->str = file[k].str;
                    have[k]->bin = file[k].bin;
                    have[k]->lang = file[k].lang;
                    have[k]->bcp = file[k].bcp;
                }
            }
        }
        auto rest = first ? have.size() > 1 : false;
        fields.insert(fields.end(), extra.begin(), extra.end());
        // nested fields
        if (count && r.chance(20)) {
            auto range = t->fields().equal_range(id);
            auto text = "n" + randomText(r, 20);
            if (range.first != range.second) {
                auto &nested = range.first->second.nestedFields();
                nested.emplace_back("SORT_WITH", utf8Value(text));
                nested.back().setDefault(true);
                for (auto &f : fields)
                    if (f.name == id) {
                        mkv::SimpleTag x;
                        x.name = "SORT_WITH";
                        x.str = text;
                        f.nested.push_back(x);
                        break;
                    }
                ed += "nested ";
            }
        }
        c.cover(id + strf(" x%u", std::min(count, 2u)));
        if (!rest)
            m.edits.push_back(std::move(e));
    }
}
static void clearUnspecified(std::vector<mkv::TagEl> &tags, const std::vector<std::set<Bytes>> &edited)
{
    for (std::size_t i = 0; i < tags.size() && i < edited.size(); ++i) {
        auto &f = tags[i].fields;
        for (auto &x : f)
            if (edited[i].count(x.name)) {
                x.def = true;
                ratingForm(x);
                if (blank(x))
                    x.name.clear();
            }
        f.erase(std::remove_if(f.begin(), f.end(), [](auto &x) { return x.name.empty() || (blank(x) && x.nested.empty()); }), f.end());
        std::stable_sort(f.begin(), f.end(), [](auto &a, auto &b) { return a.name < b.name; });
    }
}
static void caseC07(Ctx &c)
{
    auto &r = c.rng;
    mkv::GOptions o;
    o.maxClusters = 3;
    o.maxBlocks = 3;
    o.foreign = r.coin();
    auto g = mkv::generate(r, o);
    auto path = c.path("f.mkv");
    writeFile(path, g.file);
    c.artifact("input.mkv", g.file);
    c.note(g.desc);
    auto before = mkv::inspect(g.file);
    auto rounds = r.range(1, 3);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        Media m(path);
        applyCfg(m.info, cfg);
        auto res = m.parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok || m.info.tagsParsingStatus() == T::ParsingStatus::CriticalFailure)
            c.failNow("parse", round + res.what + res.diagText());
        auto *container = dynamic_cast<T::MatroskaContainer *>(m.info.container());
        if (!container)
            c.failNow("container", round + "no Matroska container");
        TModel mo;
        mo.tags = mkvTagView(before);
        if (container->tagCount() != mo.tags.size())
            c.failNow("tag-count", round + strf("%zu tags in file, %zu parsed", mo.tags.size(), container->tagCount()));
        mo.edited.resize(mo.tags.size());
        std::string ed;
        if (mo.tags.size() > 1 && r.chance(12)) {
            auto i = r.below(mo.tags.size());
            container->removeTag(container->tag(i));
            mo.tags.erase(mo.tags.begin() + static_cast<std::ptrdiff_t>(i));
            mo.edited.pop_back();
            ed += strf("removeTag(%llu) ", (unsigned long long)i);
        }
        if (mo.tags.empty() || r.chance(25)) {
            T::TagTarget target;
            mkv::TagEl x;
            if (r.chance(80)) {
                x.level = r.pick({ 20u, 40u, 70u, 1000u });
                target.setLevel(x.level);
                if (r.coin())
                    target.tracks() = x.tracks = { 1 + r.below(1000000), r.next() >> 7 };
                if (r.coin())
                    target.chapters() = x.chapters = { 1 + r.below(100) };
                if (r.chance(30))
                    target.attachments() = x.attachments = { r.next() };
            }
            auto n = container->tagCount();
            container->createTag(target);
            if (container->tagCount() > n) {
                mo.tags.push_back(x);
                mo.edited.emplace_back();
                ed += "createTag ";
            }
        }
        auto which = r.below(mo.tags.size());
        for (std::size_t i = 0; i < mo.tags.size(); ++i)
            if (i == which || r.chance(30)) {
                ed += strf("#%zu ", i);
                editTag(c, container->tag(i), mo, i, ed);
            }
        c.note(" | " + round + ed);
        auto ap = m.apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.mkv", k), bytes);
        mkv::Info after;
        try {
            after = mkv::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        auto want = mo.tags, got = mkvTagView(after);
        clearUnspecified(want, mo.edited);
        clearUnspecified(got, mo.edited);
        // tags without any fields might be omitted
        auto prune = [](std::vector<mkv::TagEl> &v) { v.erase(std::remove_if(v.begin(), v.end(), [](auto &x) { return x.fields.empty(); }), v.end()); };
        auto numTags = mo.tags.size();
        auto gotAll = got;
        prune(want);
        prune(got);
        auto a = mkvTagText(want), b = mkvTagText(got);
        if (a != b)
            c.fail("tags", round + ed + "tags expected vs. tags in file: " + firstDiff(a, b));
        c.count("tags-compared", got.size());
        for (auto &p : after.problems)
            c.fail("problem", round + ed + p);
        Media n(path);
        auto pr = n.parse();
        if (pr.outcome != Outcome::Ok || !n.info.container())
            c.failNow("reread", round + ed + pr.what);
        auto *nc = static_cast<T::MatroskaContainer *>(n.info.container());
        if (nc->tagCount() == numTags && gotAll.size() == numTags)
            for (auto &e : mo.edits) {
                auto *nt = nc->tag(e.tag);
                ValueCaps caps;
                caps.commentMeta = false;
                std::vector<Bytes> values;
                for (auto *v : e.spec->field == KF::Invalid ? nt->values(Bytes(e.spec->id)) : nt->values(e.spec->field)) {
                    if (e.spec->kind == Kind::Rating) {
                        try {
                            auto p = v->toScaledPopularity(T::TagType::MatroskaTag);
                            values.push_back(strf("%.4g", p.rating));
                            auto q = v->toScaledPopularity();
                            if (v->type() == T::TagDataType::Popularity && std::abs(q.rating - (p.rating / 1.25 + 1)) > 1e-6)
                                c.fail("api-rating-scale", round + strf("rating %g in the scale of Matroska but %g in the generic scale", p.rating, q.rating));
                        } catch (const std::exception &x) {
                            values.push_back(x.what());
                        }
                    } else
                        values.push_back(formOf(e.spec->kind == Kind::Counter ? Kind::Text : e.spec->kind, *v, caps));
                }
                if (values != e.forms) {
                    Bytes x, y;
                    for (auto &z : e.forms) x += "{" + z + "}";
                    for (auto &z : values) y += "{" + z + "}";
                    c.fail(std::string("api-") + e.spec->id, round + ed + e.spec->id + ": assigned " + x.substr(0, 200) + " read back " + y.substr(0, 200) + " (" + firstDiff(x, y) + ")");
                }
                c.count("values-compared", e.forms.size());
            }
        for (std::size_t i = 0; i < gotAll.size() && i < nc->tagCount(); ++i) {
            auto &t = nc->tag(i)->target();
            auto &w = gotAll[i];
            if (t.level() != w.level || t.levelName() != w.type || t.tracks() != w.tracks || t.chapters() != w.chapters || t.editions() != w.editions || t.attachments() != w.attachments)
                c.fail("api-target", round + ed + strf("target of tag %zu read differently than in the file", i));
        }
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
        before = after;
    }
}
static PropReg regC07("C07", caseC07);
} // namespace tp
