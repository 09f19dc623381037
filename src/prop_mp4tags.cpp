// C06: values assigned to MP4 tags are read back.
#include "mp4fmt.h"
#include "values.h"
#include "views.h"
#include <algorithm>
#include <tagparser/id3/id3genres.h>
#include <tagparser/mp4/mp4ids.h>

namespace tp {
void compareMp4(Ctx &c, const mp4::Info &a, const mp4::Info &b, const std::string &round);
using KF = T::KnownField;
static const FieldSpec mp4Fields[] = {
    { KF::Album, Kind::Text, true, "\xa9" "alb" }, { KF::Artist, Kind::Text, true, "\xa9" "ART" }, { KF::Comment, Kind::Text, true, "\xa9" "cmt" }, { KF::RecordDate, Kind::Date, true, "\xa9" "day" },
    { KF::Title, Kind::Text, true, "\xa9" "nam" }, { KF::Genre, Kind::Genre, true, "\xa9" "gen" }, { KF::Genre, Kind::Genre, true, "\xa9" "gen" }, { KF::TrackPosition, Kind::Position, true, "trkn" },
    { KF::DiskPosition, Kind::Position, true, "disk" }, { KF::Composer, Kind::Text, true, "\xa9" "wrt" }, { KF::Encoder, Kind::Text, true, "\xa9" "too" }, { KF::EncodedBy, Kind::Text, true, "\xa9" "enc" },
    { KF::Bpm, Kind::Number, true, "tmpo" }, { KF::Cover, Kind::Cover, true, "covr" }, { KF::Cover, Kind::Cover, true, "covr" }, { KF::Grouping, Kind::Text, true, "\xa9" "grp" },
    { KF::Description, Kind::Text, true, "desc" }, { KF::Lyrics, Kind::Text, true, "\xa9" "lyr" }, { KF::RecordLabel, Kind::Text, true, "\xa9" "lab" }, { KF::RecordLabel, Kind::Text, true, "\xa9" "lab" },
    { KF::Performers, Kind::Text, true, "\xa9" "prf" }, { KF::Lyricist, Kind::Text, true, "\xa9swf" }, { KF::AlbumArtist, Kind::Text, true, "aART" }, { KF::Copyright, Kind::Text, true, "cprt" },
    { KF::Conductor, Kind::Text, true, "@con" }, { KF::Director, Kind::Text, true, "@dir" }, { KF::Publisher, Kind::Text, true, "\xa9" "pub" }, { KF::SoundEngineer, Kind::Text, true, "\xa9" "sne" },
    { KF::Producer, Kind::Text, true, "\xa9" "prd" }, { KF::ExecutiveProducer, Kind::Text, true, "\xa9" "xpd" }, { KF::ArtDirector, Kind::Text, true, "\xa9" "ard" }, { KF::Arranger, Kind::Text, true, "\xa9" "arg" },
    { KF::StoreDescription, Kind::Text, true, "sdes" }, { KF::Synopsis, Kind::Text, true, "ldes" }, { KF::MediaType, Kind::Counter, true, "stik" }, { KF::ContentRating, Kind::Counter, true, "rtng" },
    { KF::EncoderSettings, Kind::Text, true, "cdec" }, { KF::EncoderSettings, Kind::Text, true, "cdec" },
};
static const std::pair<const char *, int> mediaTypes[] = { { "Movie", 0 }, { "Music", 1 }, { "Audiobook", 2 }, { "Whacked Bookmark", 5 }, { "Music Video", 6 }, { "Short Film", 9 }, { "TV Show", 10 }, { "Booklet", 11 }, { "Ringtone", 14 }, { "Podcast", 21 } };
static Bytes from16be(std::string_view d)
{
    std::vector<std::uint32_t> cps;
    for (std::size_t i = 0; i + 1 < d.size(); i += 2) {
        auto u = static_cast<std::uint32_t>(rbe(d, i, 2));
        if (u >= 0xD800 && u < 0xDC00 && i + 3 < d.size()) {
            auto l = static_cast<std::uint32_t>(rbe(d, i + 2, 2));
            u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
            i += 2;
        }
        cps.push_back(u);
    }
    return fromCodePoints(cps);
}
static Bytes intForm(const Bytes &id, std::string_view d, bool sign)
{
    if (d.empty() || d.size() > 8 || (d.size() > 4 && d.size() < 8))
        return strf("R%d:%zu bytes %016llx", sign ? 21 : 22, d.size(), (unsigned long long)fnv(d));
    auto v = rbe(d, 0, static_cast<int>(d.size()));
    auto sv = static_cast<std::int64_t>(v);
    if (sign)
        sv = static_cast<std::int64_t>(v << (64 - d.size() * 8)) >> (64 - d.size() * 8);
    if (id == "rtng")
        return v == 0 ? "rating none" : v == 2 ? "rating clean" : v < 256 ? "rating explicit" : strf("I:%lld", (long long)sv);
    if (id == "gnre")
        return strf("G:%lld", (long long)sv - 1);
    return sign ? strf("I:%lld", (long long)sv) : strf("I:%llu", (unsigned long long)v);
}
static Bytes dataForm(const Bytes &id, const mp4::DataAtom &d)
{
    Bytes l = d.locale ? strf(" {locale %08x}", d.locale) : "";
    switch (d.type) {
    case 1:
        return "T:" + d.data + l;
    case 2:
        return "T:" + from16be(d.data) + l;
    case 21:
    case 22:
        return intForm(id, d.data, d.type == 21) + l;
    case 0:
        if ((id == "trkn" || id == "disk") && d.data.size() >= 6)
            return strf("P:%d/%d", (int)rbe(d.data, 0, 4), (int)rbe(d.data, 4, 2)) + l;
        if (id == "gnre" && d.data.size() >= 2)
            return intForm(id, d.data, true) + l;
    }
    return strf("R%u:%zu bytes %016llx", d.type, d.data.size(), (unsigned long long)fnv(d.data)) + l;
}
using Item = Mp4Item;
using Items = Mp4Items;
Items mp4Items(const mp4::Info &i)
{
    Items r;
    for (auto &it : i.items) {
        auto key = it.id;
        if (key == "----")
            key += "|" + it.mean + "|" + it.name;
        Item x;
        for (auto &d : it.data)
            if (!d.data.empty())
                x.push_back(dataForm(it.id, d));
        if (!x.empty())
            r[key].push_back(x);
    }
    return r;
}
Bytes itemsText(const Items &i)
{
    Bytes s;
    for (auto &[k, v] : i)
        for (auto &item : v) {
            s += k + ":";
            for (auto &d : item)
                s += " [" + d + "]";
            s += "\n";
        }
    return s;
}
struct MEdit {
    const FieldSpec *spec;
    std::vector<Bytes> forms;
};
static const Bytes labelKey = "----|com.apple.iTunes|LABEL", cdecKey = "----|com.apple.iTunes|cdec";
static std::vector<MEdit> editMp4(Ctx &c, T::Mp4Tag *t, Items &want, std::set<Bytes> &edited, std::string &ed)
{
    auto &r = c.rng;
    std::vector<MEdit> edits;
    if (r.chance(5)) {
        t->removeAllFields();
        want.clear();
        ed += "removeAll ";
    }
    std::set<Bytes> used;
    for (auto n = r.below(7); n; --n) {
        auto &s = mp4Fields[r.below(std::size(mp4Fields))];
        if (!used.insert(s.id).second)
            continue;
        ValueCaps caps;
        caps.commentMeta = false;
        caps.pictureMeta = false;
        caps.pictureType = false;
        caps.maxPos = 65535;
        caps.maxChars = r.chance(8) ? 20000 : 60;
        caps.mimes.push_back("image/gif");
        caps.mimes.push_back("image/bmp");
        MEdit e{ &s, {} };
        auto count = r.chance(15) ? 0u : r.chance(35) ? static_cast<unsigned>(r.range(2, 4)) : 1u;
        std::vector<Bytes> file;
        std::vector<T::TagValue> vals;
        Bytes key = s.field == KF::EncoderSettings ? cdecKey : Bytes(s.id);
        auto genreIndex = -1L;
        for (unsigned k = 0; k < count; ++k) {
            Val v;
            if (s.field == KF::MediaType) {
                auto &m = mediaTypes[r.below(std::size(mediaTypes))];
                v.value = r.chance(70) ? textValue(r, m.first) : T::TagValue(m.second);
                file.push_back(strf("I:%d", m.second));
                e.forms.push_back(m.first);
                vals.push_back(v.value);
                continue;
            }
            if (s.field == KF::ContentRating) {
                auto name = r.pick({ "None", "Clean", "Explicit" });
                v.value = textValue(r, name);
                auto low = Bytes(name);
                low[0] = static_cast<char>(low[0] + 32);
                file.push_back("rating " + low);
                e.forms.push_back(name);
                vals.push_back(v.value);
                continue;
            }
            do
                v = randomVal(r, s.kind, caps);
            while (s.kind == Kind::Text && v.form.empty());
            switch (s.kind) {
            case Kind::Genre:
                if (v.b && count == 1) {
                    genreIndex = v.a;
                    file.push_back(strf("G:%ld", v.a));
                } else {
                    if (v.b)
                        v.form = Bytes(T::Id3Genres::stringFromIndex(static_cast<int>(v.a)));
                    file.push_back("T:" + v.form);
                }
                break;
            case Kind::Number:
                file.push_back(strf("I:%ld", v.a));
                break;
            case Kind::Position:
                file.push_back(strf("P:%ld/%ld", v.a, v.b));
                break;
            case Kind::Cover:
                file.push_back(strf("R%d:%zu bytes %016llx", v.mime == "image/jpeg" ? 13 : v.mime == "image/png" ? 14 : v.mime == "image/gif" ? 12 : 27, v.data.size(), (unsigned long long)fnv(v.data)));
                break;
            default:
                file.push_back("T:" + v.form);
            }
            e.forms.push_back(v.form);
            vals.push_back(v.value);
        }
        auto firstOnly = count == 1 && r.coin();
        if (firstOnly)
            t->setValue(s.field, vals[0]);
        else
            t->setValues(s.field, vals);
        ed += std::string(s.id) + strf("x%u%s ", count, firstOnly ? "(first)" : "");
        auto assign = [&](const Bytes &k, bool first, bool updateOnly) {
            auto &w = want[k];
            edited.insert(k);
            if (first && !w.empty())
                w[0][0] = file[0];
            else if (updateOnly) {
                for (std::size_t i = 0; i < w.size(); ++i)
                    w[i] = i < file.size() ? Item{ file[i] } : Item();
                w.erase(std::remove_if(w.begin(), w.end(), [](auto &x) { return x.empty(); }), w.end());
            } else {
                w.clear();
                for (auto &f : file)
                    w.push_back({ f });
            }
            if (w.empty())
                want.erase(k);
        };
        if (s.field == KF::Genre) {
            if (genreIndex >= 0) {
                want.erase(key);
                edited.insert(key);
                assign("gnre", true, false);
                if (!want.count("gnre"))
                    want["gnre"].push_back({ file[0] });
            } else {
                want.erase("gnre");
                edited.insert("gnre");
                assign(key, firstOnly, false);
            }
        } else {
            assign(key, firstOnly, false);
            if (s.field == KF::RecordLabel && want.count(labelKey))
                assign(labelKey, firstOnly, true);
        }
        // with additional values left the API returns more than what has been assigned
        if (firstOnly && genreIndex < 0) {
            std::size_t left = 0;
            for (auto &x : want[key])
                left += x.size();
            if (left != 1)
                continue;
        }
        c.cover(std::string(s.id) + strf(" x%u", std::min(count, 2u)));
        edits.push_back(std::move(e));
    }
    return edits;
}
static void dropLocale(Items &i, const std::set<Bytes> &keys)
{
    for (auto &[k, v] : i)
        if (keys.count(k))
            for (auto &item : v)
                for (auto &d : item)
                    if (auto p = d.rfind(" {locale "); p != Bytes::npos)
                        d.erase(p);
}
static void caseC06(Ctx &c)
{
    auto &r = c.rng;
    mp4::GOptions o;
    o.tracks = static_cast<int>(r.range(1, 2));
    auto g = mp4::generate(r, o);
    auto path = c.path("f.mp4");
    writeFile(path, g.file);
    c.artifact("input.mp4", g.file);
    c.note(g.desc);
    auto before = mp4::inspect(g.file);
    auto rounds = r.range(1, 3);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        Media m(path);
        applyCfg(m.info, cfg);
        auto res = m.parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok || m.info.tagsParsingStatus() == T::ParsingStatus::CriticalFailure)
            c.failNow("parse", round + res.what + res.diagText());
        m.info.createAppropriateTags();
        auto *t = m.info.mp4Tag();
        if (!t)
            c.failNow("no-tag", round + "no MP4 tag present or created");
        auto want = mp4Items(before);
        std::string ed;
        std::set<Bytes> edited;
        auto edits = editMp4(c, t, want, edited, ed);
        c.note(" | " + round + ed);
        auto ap = m.apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.mp4", k), bytes);
        mp4::Info after;
        try {
            after = mp4::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        auto got = mp4Items(after);
        dropLocale(want, edited);
        dropLocale(got, edited);
        auto a = itemsText(want), b = itemsText(got);
        if (a != b)
            c.fail("items", round + ed + "items expected vs. items in file: " + firstDiff(a, b));
        c.count("items-compared", got.size());
        Media n(path);
        auto pr = n.parse();
        if (pr.outcome != Outcome::Ok)
            c.failNow("reread", round + ed + pr.what);
        auto *nt = n.info.mp4Tag();
        if (!nt && !want.empty())
            c.failNow("reread", round + ed + "tag not found again");
        for (auto &e : edits) {
            ValueCaps caps;
            caps.commentMeta = caps.pictureMeta = false;
            std::vector<Bytes> values;
            if (nt)
                for (auto *v : nt->values(e.spec->field))
                    values.push_back(formOf(e.spec->kind == Kind::Counter ? Kind::Text : e.spec->kind, *v, caps));
            if (values != e.forms) {
                Bytes x, y;
                for (auto &z : e.forms) x += "{" + z + "}";
                for (auto &z : values) y += "{" + z + "}";
                c.fail(std::string("api-") + e.spec->id, round + ed + e.spec->id + ": assigned " + x.substr(0, 200) + " read back " + y.substr(0, 200) + " (" + firstDiff(x, y) + ")");
            }
            c.count("values-compared", e.forms.size());
        }
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
        before = after;
    }
}
static PropReg regC06("C06", caseC06);
} // namespace tp
