// C04 (ID3v1), C05 (ID3v2): values written are read back through the API and by an independent reader.
#include "edits.h"
#include "rawfmt.h"
#include "values.h"
#include <tagparser/id3/id3v2frameids.h>
namespace tp {
void compareRaw(Ctx &c, const raw::Info &a, const raw::Info &b, const std::string &round);

static bool parsedOk(T::MediaFileInfo &f)
{
    auto ok = [](T::ParsingStatus s) { return s == T::ParsingStatus::Ok || s == T::ParsingStatus::NotSupported; };
    return ok(f.tagsParsingStatus()) && ok(f.tracksParsingStatus());
}
// --- ID3v1
struct V1Want {
    bool set = false;
    Bytes text; // UTF-8
    T::TagTextEncoding enc = T::TagTextEncoding::Utf8;
};
static Bytes decodeSlot(const Bytes &s)
{
    if (s.size() >= 3 && s.substr(0, 3) == "\xEF\xBB\xBF")
        return s.substr(3);
    std::vector<std::uint32_t> cps;
    for (auto ch : s)
        cps.push_back(static_cast<unsigned char>(ch));
    return fromCodePoints(cps);
}
static void caseC04(Ctx &c)
{
    auto &r = c.rng;
    raw::GOptions go;
    go.maxStream = 6000;
    auto g = raw::generate(r, go);
    if (g.format == "flac" && r.coin()) {
        go.format = "mp3";
        g = raw::generate(r, go);
    }
    auto path = c.path("f.bin");
    writeFile(path, g.file);
    c.artifact("input.bin", g.file);
    c.note(g.desc);
    auto keepJunk = g.format == "unknown";
    auto before = raw::inspect(g.file, keepJunk);
    auto rounds = r.range(1, 3);
    auto m = std::make_unique<Media>(path);
    static const T::KnownField texts[] = { T::KnownField::Title, T::KnownField::Artist, T::KnownField::Album, T::KnownField::RecordDate, T::KnownField::Comment };
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        if (r.coin())
            m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        auto res = m->parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok || !parsedOk(m->info))
            c.failNow("parse", round + res.what + res.diagText());
        // what the tag holds now
        auto want = before.v1.value_or(id3::V1());
        auto had = before.v1.has_value();
        if (!had)
            want = id3::V1();
        std::string ed;
        if (had && r.chance(10)) {
            m->info.removeId3v1Tag();
            ed = "remove";
            want = id3::V1();
            had = false;
        } else {
            auto *t = m->info.createId3v1Tag();
            if (!t)
                c.failNow("create", round + "ID3v1 tag can not be created");
            if (had != (before.v1.has_value()))
                c.fail("create", round + "state");
            had = true;
            V1Want w[5];
            long track = -1, genre = -1;
            bool trackSet = false, genreSet = false, warn = false;
            ValueCaps caps;
            caps.utf16le = caps.utf16be = false; // not supported by the format (ID3v1Tag::canEncodingBeUsed)
            caps.allowNewline = false;
            for (unsigned i = 0; i < 5; ++i) {
                if (!r.chance(60))
                    continue;
                w[i].set = true;
                if (r.chance(12)) {
                    t->setValue(texts[i], T::TagValue());
                    ed += strf("clear%u ", i);
                    continue;
                }
                caps.maxChars = texts[i] == T::KnownField::RecordDate ? r.pick({ 4u, 4u, 4u, 6u }) : r.pick({ 3u, 28u, 31u, 40u, 200u });
                if (texts[i] == T::KnownField::RecordDate && r.chance(30)) {
                    auto d = randomVal(r, Kind::Date, caps);
                    t->setValue(texts[i], d.value);
                    w[i].text = d.form;
                    w[i].enc = T::TagTextEncoding::Latin1;
                } else {
                    auto v = randomVal(r, Kind::Text, caps);
                    if (r.chance(25)) { // exactly at the limit
                        Bytes s;
                        for (auto n = texts[i] == T::KnownField::RecordDate ? 4u : texts[i] == T::KnownField::Comment ? 28u : 30u; n; --n)
                            s += static_cast<char>(r.range('a', 'z'));
                        v.text = s + Bytes(r.below(2), 'z');
                        v.value = utf8Value(v.text);
                    }
                    t->setValue(texts[i], v.value);
                    w[i].text = v.text;
                    w[i].enc = v.value.dataEncoding();
                }
                ed += strf("set%u(%zu) ", i, w[i].text.size());
            }
            if (r.chance(50)) {
                trackSet = true;
                track = r.chance(80) ? static_cast<long>(r.range(1, 255)) : static_cast<long>(r.range(256, 70000));
                if (r.coin())
                    t->setValue(T::KnownField::TrackPosition, T::TagValue(T::PositionInSet(static_cast<int>(track), static_cast<int>(r.below(300)))));
                else
                    t->setValue(T::KnownField::TrackPosition, utf8Value(std::to_string(track)));
                ed += strf("track %ld ", track);
            } else if (r.chance(10)) {
                trackSet = true;
                track = 0;
                t->setValue(T::KnownField::TrackPosition, T::TagValue());
            }
            if (r.chance(50)) {
                genreSet = true;
                T::TagValue gv;
                genre = static_cast<long>(r.below(192));
                switch (r.below(4)) {
                case 0:
                    gv.assignStandardGenreIndex(static_cast<int>(genre));
                    break;
                case 1:
                    gv = utf8Value(std::to_string(genre));
                    break;
                case 2: {
                    T::TagValue x;
                    x.assignStandardGenreIndex(static_cast<int>(genre));
                    gv = utf8Value(x.toString(T::TagTextEncoding::Utf8)); // by name
                    break;
                }
                default:
                    if (r.coin())
                        gv = utf8Value("no standard genre"), genre = -2;
                    else
                        genre = 255;
                }
                t->setValue(T::KnownField::Genre, gv);
                ed += strf("genre %ld ", genre);
            }
            emptyDirExcept(c.dir, "f.bin");
            auto ap = m->apply();
            c.count(std::string("apply-") + outcomeName(ap.outcome));
            c.note(" | " + round + ed);
            if (ap.outcome != Outcome::Ok)
                c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
            auto bytes = readFile(path);
            c.artifact(strf("after%u.bin", k), bytes);
            raw::Info after;
            try {
                after = raw::inspect(bytes, keepJunk);
            } catch (const std::exception &e) {
                c.failNow("malformed-output", round + ed + e.what());
            }
            compareRaw(c, before, after, round + ed);
            if (!after.v1)
                c.failNow("missing", round + ed + "no ID3v1 tag at the end of the file");
            auto &v = *after.v1;
            auto rawTag = bytes.substr(bytes.size() - 128);
            const Bytes *slots[] = { &v.title, &v.artist, &v.album, &v.year, &v.comment };
            const Bytes *olds[] = { &want.title, &want.artist, &want.album, &want.year, &want.comment };
            const std::size_t caps2[] = { 30, 30, 30, 4, 28 };
            for (unsigned i = 0; i < 5; ++i) {
                if (!w[i].set) {
                    if (i == 4 && olds[i]->size() > 28) {
                        if (slots[i]->substr(0, 28) != olds[i]->substr(0, 28) && decodeSlot(*slots[i]) != decodeSlot(olds[i]->substr(0, 28)))
                            c.fail("kept-slot", round + ed + "unedited comment changed");
                        warn = true;
                    } else if (decodeSlot(*slots[i]) != decodeSlot(*olds[i]))
                        c.fail("kept-slot", round + ed + strf("unedited slot %u changed from %s to %s", i, olds[i]->c_str(), slots[i]->c_str()));
                    continue;
                }
                auto got = decodeSlot(*slots[i]);
                auto plain = isLatin1(w[i].text) && (w[i].enc == T::TagTextEncoding::Latin1 || w[i].text.size() == utf8ToLatin1(w[i].text).size());
                auto bom = slots[i]->substr(0, 3) == "\xEF\xBB\xBF";
                auto need = bom ? w[i].text.size() + 3 : isLatin1(w[i].text) ? utf8ToLatin1(w[i].text).size() : w[i].text.size() + 3;
                if (need <= caps2[i]) {
                    auto trimmed = w[i].text;
                    if (got != trimmed)
                        c.fail("slot", round + ed + strf("slot %u is '%s', '%s' expected", i, got.c_str(), w[i].text.c_str()));
                } else {
                    warn = true;
                    auto room = caps2[i];
                    auto expect = bom ? w[i].text.substr(0, room - 3) : isLatin1(w[i].text) ? decodeSlot(utf8ToLatin1(w[i].text).substr(0, room)) : Bytes();
                    while (!expect.empty() && expect.back() == ' ')
                        expect.pop_back();
                    // a multi-byte character may be left out completely
                    auto fits = got == expect || (bom && got.size() + 3 >= expect.size() && expect.compare(0, got.size(), got) == 0 && (static_cast<unsigned char>(w[i].text[got.size()]) & 0xC0) != 0x80);
                    if (!fits)
                        c.fail("cut-slot", round + ed + strf("slot %u is '%s' which is not '%s' cut to the slot", i, got.c_str(), w[i].text.c_str()));
                }
                (void)plain;
            }
            if (trackSet && track > 255)
                warn = true;
            if (!v.v11)
                c.fail("v11", round + ed + "track byte not separated by zero");
            if (v.track != static_cast<unsigned>(trackSet ? (track > 255 ? 0 : track) : want.v11 ? want.track : 0))
                c.fail("track", round + ed + strf("track is %u", v.track));
            if (genreSet && genre == -2)
                warn = true;
            if (v.genre != static_cast<unsigned>(genreSet ? (genre < 0 ? 255 : genre) : want.genre))
                c.fail("genre", round + ed + strf("genre is %u", v.genre));
            if (warn && ap.level() < T::DiagLevel::Warning)
                c.fail("no-warning", round + ed + "value has been cut or dropped without a diagnostic message");
            // padding bytes of slots
            std::size_t offs[] = { 3, 33, 63, 93, 97 };
            for (unsigned i = 0; i < 5; ++i) {
                auto slot = rawTag.substr(offs[i], caps2[i]);
                auto z = slot.find('\0');
                if (z != Bytes::npos && slot.find_first_not_of('\0', z) != Bytes::npos)
                    c.fail("slot-garbage", round + ed + strf("slot %u contains data behind its terminator", i));
            }
            if (bytes.size() >= 256 && bytes.substr(bytes.size() - 256, 3) == "TAG" && !before.v1 && before.stream.substr(before.stream.size() > 128 ? before.stream.size() - 128 : 0, 3) != "TAG" && before.ape.empty())
                c.fail("duplicate", round + ed + "two ID3v1 tags");
            // through the API
            Media n(path);
            auto pr = n.parse();
            auto *nt = n.info.id3v1Tag();
            if (pr.outcome != Outcome::Ok || !nt)
                c.failNow("reread", round + ed + "ID3v1 tag not found again " + pr.what);
            for (unsigned i = 0; i < 5; ++i) {
                auto &val = nt->value(texts[i]);
                auto s = val.isEmpty() ? Bytes() : utf8Of(val);
                auto d = decodeSlot(*slots[i]);
                if (s != d && !(w[i].set && d.size() && s.compare(0, d.size() - std::min<std::size_t>(3, d.size()), d, 0, d.size() - std::min<std::size_t>(3, d.size())) == 0))
                    c.fail("api-text", round + ed + strf("API reports '%s' for slot %u, file has '%s'", s.c_str(), i, d.c_str()));
            }
            if (!v.track ? !nt->value(T::KnownField::TrackPosition).isEmpty() && nt->value(T::KnownField::TrackPosition).toPositionInSet().position() : nt->value(T::KnownField::TrackPosition).toPositionInSet().position() != static_cast<int>(v.track))
                c.fail("api-track", round + ed + "API reports wrong track");
            if (v.genre < 192 && nt->value(T::KnownField::Genre).toStandardGenreIndex() != static_cast<int>(v.genre))
                c.fail("api-genre", round + ed + "API reports wrong genre");
            c.count("slots-compared", 7);
            c.cover(strf("bom %d cut %d", v.title.substr(0, 1) == "\xEF", warn));
            before = after;
            c.mix(rawTag);
            c.nontrivial = true;
            if (!c.failures.empty())
                return;
            continue;
        }
        emptyDirExcept(c.dir, "f.bin");
        auto ap = m->apply();
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        auto bytes = readFile(path);
        auto after = raw::inspect(bytes, keepJunk);
        compareRaw(c, before, after, round + ed);
        if (after.v1)
            c.fail("not-removed", round + "ID3v1 tag left");
        before = after;
        if (!c.failures.empty())
            return;
    }
}
static PropReg regC04("C04", caseC04);

// --- ID3v2
static const FieldSpec id3v2Fields[] = {
    { T::KnownField::Title, Kind::Text, true, "TIT2" }, { T::KnownField::Album, Kind::Text, true, "TALB" }, { T::KnownField::Artist, Kind::Text, true, "TPE1" },
    { T::KnownField::AlbumArtist, Kind::Text, true, "TPE2" }, { T::KnownField::Composer, Kind::Text, true, "TCOM" }, { T::KnownField::Publisher, Kind::Text, true, "TPUB" },
    { T::KnownField::Grouping, Kind::Text, true, "TIT1" }, { T::KnownField::Subtitle, Kind::Text, true, "TIT3" }, { T::KnownField::Lyricist, Kind::Text, true, "TEXT" },
    { T::KnownField::RemixedBy, Kind::Text, true, "TPE4" }, { T::KnownField::Copyright, Kind::Text, true, "TCOP" }, { T::KnownField::EncoderSettings, Kind::Text, true, "TSSE" },
    { T::KnownField::Encoder, Kind::Text, true, "TENC" }, { T::KnownField::InitialKey, Kind::Text, true, "TKEY" }, { T::KnownField::OriginalMediaType, Kind::Text, true, "TMED" },
    { T::KnownField::Mood, Kind::Text, true, "TMOO", 4 }, { T::KnownField::Language, Kind::Text, true, "TLAN" },
    { T::KnownField::Bpm, Kind::Number, false, "TBPM" }, { T::KnownField::TrackPosition, Kind::Position, false, "TRCK" }, { T::KnownField::DiskPosition, Kind::Position, false, "TPOS" },
    { T::KnownField::Length, Kind::Duration, false, "TLEN" }, { T::KnownField::Genre, Kind::Genre, true, "TCON" }, { T::KnownField::RecordDate, Kind::Date, false, "TDRC" },
    { T::KnownField::ReleaseDate, Kind::Date, false, "TDRL", 4 }, { T::KnownField::TaggingDate, Kind::Date, false, "TDTG", 4 }, { T::KnownField::EncodingDate, Kind::Date, false, "TDEN", 4 },
    { T::KnownField::OriginalReleaseDate, Kind::Date, false, "TDOR", 4 },
    { T::KnownField::Comment, Kind::Comment, true, "COMM" }, { T::KnownField::Lyrics, Kind::Comment, true, "USLT" }, { T::KnownField::Cover, Kind::Cover, true, "APIC" },
    { T::KnownField::Rating, Kind::Rating, true, "POPM" }, { T::KnownField::PlayCounter, Kind::Counter, false, "PCNT" },
    { T::KnownField::PublisherWebpage, Kind::Url, false, "WPUB" }, { T::KnownField::PerformerWebpage, Kind::Url, true, "WOAR" }, { T::KnownField::PurchaseItem, Kind::Url, false, "WPAY", 3 },
};
using Canon = std::vector<std::pair<Bytes, Bytes>>;
static std::uint32_t idOf(const Bytes &s)
{
    return static_cast<std::uint32_t>(rbe(s, 0, static_cast<unsigned>(s.size())));
}
static void eraseId(Canon &v, const Bytes &id)
{
    v.erase(std::remove_if(v.begin(), v.end(), [&](auto &e) { return e.first == id; }), v.end());
}
struct Edit {
    const FieldSpec *spec = nullptr;
    std::vector<Val> vals;
    std::vector<Bytes> forms;
};
// sets random values and returns what is expected afterwards; `want` is updated accordingly
static std::vector<Edit> editId3v2(Ctx &c, T::Id3v2Tag *t, unsigned version, Canon &want, std::string &ed)
{
    auto &r = c.rng;
    std::vector<Edit> edits;
    auto n = r.range(1, 6);
    std::set<const FieldSpec *> used;
    for (unsigned i = 0; i < n; ++i) {
        auto &s = id3v2Fields[r.below(std::size(id3v2Fields))];
        if (s.minVersion > version || !used.insert(&s).second)
            continue;
        ValueCaps caps;
        caps.utf8 = version >= 4;
        caps.utf16be = version >= 4;
        caps.maxPos = 30000;
        caps.ratingScale = T::TagType::Id3v2Tag;
        caps.seconds = version >= 4;
        caps.allowNewline = s.field == T::KnownField::Comment || s.field == T::KnownField::Lyrics;
        caps.maxChars = r.chance(10) ? 5000 : 100;
        if (version >= 3)
            caps.mimes.push_back("image/gif");
        Edit e;
        e.spec = &s;
        auto count = r.chance(15) ? 0u : s.multi && r.chance(35) ? static_cast<unsigned>(r.range(2, 4)) : 1u;
        for (unsigned k = 0; k < count; ++k)
            e.vals.push_back(randomVal(r, s.kind, caps));
        // assign
        if (s.kind == Kind::Cover) {
            auto id = idOf(version < 3 ? "PIC" : "APIC");
            t->fields().erase(id);
            for (auto &v : e.vals) {
                T::Id3v2Frame f(id, v.value);
                f.setTypeInfo(static_cast<std::uint8_t>(v.a));
                t->fields().emplace(id, std::move(f));
            }
        } else if (e.vals.size() == 1 && r.coin()) {
            if (t->values(s.field).size() > 1)
                t->setValues(s.field, std::vector<T::TagValue>{ e.vals[0].value });
            else
                t->setValue(s.field, e.vals[0].value);
        } else {
            std::vector<T::TagValue> vs;
            for (auto &v : e.vals)
                vs.push_back(v.value);
            t->setValues(s.field, vs);
        }
        ed += std::string(s.id) + strf("x%u ", count);
        // expectation
        Bytes id = s.id;
        Canon add;
        Bytes joined;
        for (auto &v : e.vals) {
            e.forms.push_back(v.form);
            switch (s.kind) {
            case Kind::Comment:
                add.emplace_back(id, "(" + v.lang + ")(" + v.desc + ")[" + v.text + "]");
                break;
            case Kind::Cover:
                add.emplace_back(id, "(" + v.mime + strf(")(%ld)(", v.a) + v.desc + ")[" + v.data + "]");
                e.forms.back() += strf(" type %ld", v.a);
                break;
            case Kind::Rating:
                add.emplace_back(id, v.form);
                break;
            case Kind::Counter:
                add.emplace_back(id, v.form);
                break;
            case Kind::Url:
                add.emplace_back(id, "[" + v.form + "]");
                break;
            case Kind::Duration:
                joined += strf("[%ld]", v.a);
                break;
            default:
                joined += "[" + v.form + "]";
            }
        }
        if (id == "TDRC") {
            for (auto *x : { "TDRC", "TYER", "TDAT", "TIME", "TRDA" })
                eraseId(want, x);
            if (version >= 4) {
                if (!joined.empty())
                    want.emplace_back(id, joined);
            } else if (!e.vals.empty()) {
                auto &v = e.vals[0];
                want.emplace_back("TYER", strf("[%04d]", v.year));
                if (v.month)
                    want.emplace_back("TDAT", strf("[%02d%02d]", v.day, v.month));
                if (v.hour >= 0)
                    want.emplace_back("TIME", strf("[%02d%02d]", v.hour, v.minute));
            }
        } else {
            eraseId(want, id);
            for (auto &a : add)
                want.push_back(a);
            if (!joined.empty())
                want.emplace_back(id, joined);
        }
        c.cover(std::string(s.id) + strf(" v2.%u x%u", version, std::min(count, 2u)));
        edits.push_back(std::move(e));
    }
    std::stable_sort(want.begin(), want.end(), [](auto &a, auto &b) { return a.first < b.first; });
    return edits;
}
// removes what is said about a frame's flags
static void dropFlags(Canon &v, const std::set<Bytes> &ids)
{
    for (auto &e : v)
        if (ids.count(e.first))
            for (auto *f : { " {discard-tag}", " {discard-file}", " {read-only}", " {group " })
                if (auto p = e.second.rfind(f); p != Bytes::npos)
                    e.second.erase(p, e.second.find('}', p) - p + 1);
}
static void compareCanon(Ctx &c, const Canon &want, const Canon &got, const std::string &what, const std::string &key)
{
    for (std::size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
        auto w = i < want.size() ? want[i].first + "=" + want[i].second : Bytes("nothing");
        auto g = i < got.size() ? got[i].first + "=" + got[i].second : Bytes("nothing");
        if (w != g) {
            c.fail(key + "-" + (i < want.size() ? want[i].first : got[i].first), what + "expected " + w.substr(0, 160) + " but file has " + g.substr(0, 160) + " (" + firstDiff(w, g) + ")");
            return;
        }
    }
}
static void caseC05(Ctx &c)
{
    auto &r = c.rng;
    raw::GOptions go;
    go.format = r.pick({ "mp3", "mp3", "adts", "flac", "wavpack", "aiff" });
    go.maxStream = 3000;
    go.v1 = r.chance(20);
    auto g = raw::generate(r, go);
    auto path = c.path("f.bin");
    writeFile(path, g.file);
    c.artifact("input.bin", g.file);
    c.note(g.desc);
    auto before = raw::inspect(g.file);
    auto rounds = r.range(1, 3);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        Media m(path);
        applyCfg(m.info, cfg);
        auto res = m.parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok || !parsedOk(m.info))
            c.failNow("parse", round + res.what + res.diagText());
        if (m.info.id3v2Tags().size() != before.tags.size())
            c.failNow("tag-count", round + strf("%zu ID3v2 tags found, %zu expected", m.info.id3v2Tags().size(), before.tags.size()));
        std::vector<Canon> want;
        for (auto &t : before.tags)
            want.push_back(id3::canonTag(t));
        std::string ed;
        T::Id3v2Tag *t = nullptr;
        unsigned version = 0;
        std::size_t ti = 0;
        if (before.tags.empty()) {
            t = m.info.createId3v2Tag();
            version = r.pick({ 2u, 3u, 4u });
            t->setVersion(static_cast<std::uint8_t>(version), 0);
            want.emplace_back();
            ed = "new tag ";
        } else {
            ti = r.below(before.tags.size());
            t = m.info.id3v2Tags()[ti].get();
            version = before.tags[ti].version;
            if (t->majorVersion() != version)
                c.failNow("version", round + "wrong version reported");
        }
        for (std::size_t i = 0; i < want.size(); ++i) // "recording dates" are superseded by the year
            if (std::any_of(want[i].begin(), want[i].end(), [](auto &e) { return e.first == "TYER"; }))
                eraseId(want[i], "TRDA");
        if (r.chance(5)) {
            t->removeAllFields();
            want[ti].clear();
            ed += "removeAll ";
        }
        auto edits = editId3v2(c, t, version, want[ti], ed);
        c.note(" | " + round + strf("tag %zu v2.%u ", ti, version) + ed);
        emptyDirExcept(c.dir, "f.bin");
        auto ap = m.apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.bin", k), bytes);
        raw::Info after;
        try {
            after = raw::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        compareRaw(c, before, after, round + ed);
        if (after.tags.size() != want.size())
            c.failNow("id3v2-count", round + ed + strf("%zu ID3v2 tags expected, %zu present", want.size(), after.tags.size()));
        for (std::size_t i = 0; i < want.size(); ++i) {
            auto ev = i == ti ? version : before.tags[i].version;
            if (after.tags[i].version != ev)
                c.fail("version", round + ed + strf("version became 2.%u", after.tags[i].version));
            // flags of frames which have been edited or converted are not specified
            std::set<Bytes> flagless;
            if (i == ti)
                for (auto &e : edits)
                    flagless.insert(e.spec->id);
            if (ev < 4)
                flagless.insert({ "TYER", "TDAT", "TIME" });
            auto got = id3::canonTag(after.tags[i]);
            dropFlags(got, flagless);
            dropFlags(want[i], flagless);
            compareCanon(c, want[i], got, round + ed + strf("tag %zu (v2.%u): ", i, ev), i == ti ? "frame" : "other-tag");
            c.count("frames-compared", want[i].size());
        }
        // through the API
        Media n(path);
        auto pr = n.parse();
        if (pr.outcome != Outcome::Ok || n.info.id3v2Tags().size() != want.size())
            c.failNow("reread", round + ed + "tags not found again " + pr.what);
        auto *nt = n.info.id3v2Tags()[ti].get();
        for (auto &e : edits) {
            ValueCaps caps;
            caps.ratingScale = T::TagType::Id3v2Tag;
            std::vector<Bytes> got;
            if (e.spec->kind == Kind::Cover) {
                auto range = nt->fields().equal_range(idOf(version < 3 ? "PIC" : "APIC"));
                for (auto i = range.first; i != range.second; ++i)
                    got.push_back(formOf(Kind::Cover, i->second.value(), caps) + strf(" type %u", i->second.typeInfo()));
            } else
                for (auto *v : nt->values(e.spec->field))
                    got.push_back(formOf(e.spec->kind, *v, caps));
            if (got != e.forms) {
                Bytes a, b;
                for (auto &x : e.forms) a += "{" + x + "}";
                for (auto &x : got) b += "{" + x + "}";
                c.fail(std::string("api-") + e.spec->id, round + ed + strf("v2.%u %s: assigned ", version, e.spec->id) + a.substr(0, 200) + " read back " + b.substr(0, 200) + " (" + firstDiff(a, b) + ")");
            }
            c.count("values-compared", e.forms.size());
        }
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
        before = after;
    }
}
static PropReg regC05("C05", caseC05);
} // namespace tp
