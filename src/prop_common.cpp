// C13, C14: what must hold for every format when tags are edited or files just written again.
#include "any.h"
#include "edits.h"
namespace tp {
using KF = T::KnownField;
static const KF editable[] = { KF::Title, KF::Artist, KF::Album, KF::Comment, KF::Composer, KF::AlbumArtist, KF::Lyrics, KF::Cover };
struct Touched {
    std::set<Bytes> keys;
    std::set<Bytes> prefixes;
    bool operator()(const Bytes &k) const
    {
        return keys.count(k) || prefixes.count(k.substr(0, k.find('|')));
    }
};
// edits existing tags only; records what has been touched
static std::string editTags(Rng &r, T::MediaFileInfo &f, Touched &t, bool removal)
{
    std::string d;
    for (auto *tag : f.tags()) {
        auto prefix = tagPrefix(f, tag);
        if (removal && r.chance(4)) {
            tag->removeAllFields();
            t.prefixes.insert(prefix);
            d += prefix + ".removeAllFields ";
            continue;
        }
        for (auto n = r.below(4); n; --n) {
            auto field = r.pick(editable);
            auto id = fieldKey(tag, field);
            if (id.empty())
                continue;
            if (r.chance(25)) {
                tag->setValues(field, {});
                d += prefix + " clear " + knownFieldName(field) + " ";
            } else if (field == KF::Cover) {
                auto p = Bytes("\x89PNG\r\n\x1A\n", 8) + r.payload(r.size(3000));
                T::TagValue v(p.data(), p.size(), T::TagDataType::Picture);
                v.setMimeType("image/png");
                tag->setValue(field, v);
                d += prefix + strf(" cover(%zu) ", p.size());
            } else {
                auto s = randomText(r, r.chance(10) ? 20000 : 300, tag->type() == T::TagType::Id3v1Tag ? 1 : -1);
                tag->setValue(field, utf8Value(s));
                d += prefix + " set " + knownFieldName(field) + strf("(%zu) ", s.size());
            }
            t.keys.insert(prefix + "|" + id);
            t.keys.insert(prefix + "|"); // a tag without any fields might be omitted
        }
    }
    return d;
}
static bool editable_(T::MediaFileInfo &f)
{
    auto ok = [](T::ParsingStatus s) { return s == T::ParsingStatus::Ok || s == T::ParsingStatus::NotSupported; };
    return ok(f.tagsParsingStatus()) && ok(f.tracksParsingStatus());
}
static Snap snapOf(Ctx &c, const AnyGen &g, const Bytes &b, const std::string &round)
{
    try {
        return snap(g, b);
    } catch (const std::exception &e) {
        c.failNow("malformed-output", round + e.what());
    }
}
static void caseC13(Ctx &c)
{
    auto &r = c.rng;
    auto g = anyFile(r);
    auto path = c.path(g.name);
    writeFile(path, g.file);
    c.artifact("input", g.file);
    c.note(g.format + " " + g.desc);
    auto before = snap(g, g.file);
    auto rounds = r.range(1, 3);
    auto m = std::make_unique<Media>(path);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        if (r.coin())
            m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        auto res = m->parse();
        auto round = g.format + strf(" round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok || !editable_(m->info))
            c.failNow("parse", round + res.what + res.diagText());
        Touched touched;
        auto ed = editTags(r, m->info, touched, true);
        c.note(" | " + round + ed);
        emptyDirExcept(c.dir, g.name);
        auto ap = m->apply();
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u", k), bytes);
        auto after = snapOf(c, g, bytes, round + ed);
        if (auto d = factsDiff(before.foreign, after.foreign); !d.empty())
            c.fail("foreign", round + ed + d);
        if (auto d = factsDiff(before.media, after.media); !d.empty())
            c.fail("media", round + ed + d);
        auto skip = [&](const Bytes &key) { return touched(key) || (key == "vorbis|vendor" && !before.tags.count(key)); };
        if (auto d = factsDiff(before.tags, after.tags, skip); !d.empty())
            c.fail("untouched-fields", round + ed + d);
        c.count("foreign-facts", after.foreign.size());
        c.count("media-facts", after.media.size());
        c.count("untouched-fields", after.tags.size());
        for (auto &[k2, v] : after.foreign) {
            Bytes s;
            for (auto ch : k2)
                s += ch >= '0' && ch <= '9' ? '#' : ch;
            c.cover(g.format + " " + s);
        }
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
        before = after;
    }
}
static PropReg regC13("C13", caseC13);

// --- C14
static std::string parsedDump(Ctx &c, Media &m, const std::string &round)
{
    auto res = m.parse();
    if (res.outcome != Outcome::Ok)
        c.failNow("parse", round + res.what + res.diagText());
    return dumpAll(m.info, true) + "status " + std::to_string(static_cast<int>(m.info.tagsParsingStatus())) + std::to_string(static_cast<int>(m.info.tracksParsingStatus()))
        + std::to_string(static_cast<int>(m.info.chaptersParsingStatus())) + std::to_string(static_cast<int>(m.info.attachmentsParsingStatus())) + "\ndiag " + res.diagText(T::DiagLevel::None);
}
static void caseC14(Ctx &c)
{
    auto &r = c.rng;
    auto g = anyFile(r);
    auto path = c.path(g.name);
    writeFile(path, g.file);
    c.artifact("input", g.file);
    c.note(g.format + " " + g.desc);
    auto cfg = randomCfg(r);
    auto round = g.format + " " + cfg.toString() + ": ";
    c.note(round);
    auto m = std::make_unique<Media>(path);
    // parsing is deterministic and does not depend on the object's history
    applyCfg(m->info, cfg);
    auto d1 = parsedDump(c, *m, round);
    {
        Media o(path);
        applyCfg(o.info, cfg);
        if (auto d = parsedDump(c, o, round); d != d1)
            c.fail("parse-second-object", round + firstDiff(d1, d));
    }
    m->info.clearParsingResults();
    if (auto d = parsedDump(c, *m, round); d != d1)
        c.fail("parse-after-clear", round + firstDiff(d1, d));
    if (r.chance(50)) { // re-use the object for another file in between
        auto other = anyFile(r);
        auto op = c.path("other-" + other.name);
        writeFile(op, other.file);
        m->info.setPath(op);
        m->parse();
        m->info.setPath(path);
        if (auto d = parsedDump(c, *m, round); d != d1)
            c.fail("parse-after-other-file", round + firstDiff(d1, d));
        c.cover("object re-used for other file");
    }
    if (!editable_(m->info))
        c.failNow("parse", round + "not editable");
    if (r.chance(30)) {
        Touched t;
        c.note(editTags(r, m->info, t, true));
        emptyDirExcept(c.dir, g.name);
        if (auto ap = m->apply(); ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ap.what + " " + ap.diagText());
        c.cover("edited before");
    }
    Bytes last;
    Snap before = snapOf(c, g, readFile(path), round);
    std::string api, trackDump; // tracks: the first write might change the size an estimated duration is based on
    auto n = r.range(3, 4);
    auto fresh = r.coin(), lower = false, wasEmpty = false;
    // names of known Matroska fields are written in upper case and might be interpreted from then on
    if (g.fam == Fam::Mkv)
        for (auto *name : { "rating", "Rating" })
            lower |= g.file.find(name) != Bytes::npos;
    // ID3v1.0 becomes ID3v1.1 which has less room for the comment
    if (auto b = readFile(path); g.fam == Fam::Raw && b.size() >= 128 && b.substr(b.size() - 128, 3) == "TAG" && b[b.size() - 3])
        lower = true;
    for (unsigned k = 0; k < n; ++k) {
        auto unsettled = wasEmpty;
        wasEmpty = false;
        auto at = round + strf("write %u: ", k);
        if (fresh || r.chance(20)) {
            m = std::make_unique<Media>(path);
            applyCfg(m->info, cfg);
        }
        if (auto res = m->parse(); res.outcome != Outcome::Ok)
            c.failNow("parse", at + res.what + res.diagText());
        // a tag without any fields might be dropped by a subsequent write
        auto tags = dumpTags(m->info);
        auto empty = std::remove_if(tags.begin(), tags.end(), [](auto &t) { return t.fields.empty(); });
        if (empty != tags.end())
            unsettled = wasEmpty = true;
        tags.erase(empty, tags.end());
        for (auto &t : tags) // attributes of converted date frames are not specified
            for (auto &f : t.fields)
                if (auto p = f.value.find("|grp="); p != std::string::npos && g.fam == Fam::Raw && (f.id[0] == 'T' && (f.id[1] == 'Y' || f.id[1] == 'D' || f.id[1] == 'I' || f.id[1] == 'R')))
                    f.value.erase(p);
        auto dump = textOf(tags) + dumpChapters(m->info) + dumpAttachments(m->info);
        if (auto tracks = dumpTracks(m->info); k && (k > 1 || !lower) && (dump != api || (k > 1 && tracks != trackDump)))
            c.fail("api-drift", at + firstDiff(api + trackDump, dump + tracks));
        else
            trackDump = tracks;
        api = dump;
        emptyDirExcept(c.dir, g.name);
        if (auto ap = m->apply(); ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", at + ap.what + " " + ap.diagText());
        auto bytes = readFile(path);
        c.artifact(strf("after%u", k), bytes);
        auto after = snapOf(c, g, bytes, at);
        for (auto what : { &Snap::foreign, &Snap::media })
            if (auto d = factsDiff(before.*what, after.*what); !d.empty())
                c.fail("content", at + d);
        if (auto d = factsDiff(before.tags, after.tags, [&](const Bytes &key) { return key == "vorbis|vendor" && !before.tags.count(key); }); !d.empty())
            c.fail("tags", at + d);
        if (k > 1 && !unsettled && bytes != last)
            c.fail("drift", at + strf("size %zu -> %zu; ", last.size(), bytes.size()) + firstDiff(last, bytes));
        if (k && bytes == last)
            c.count("fixed-points");
        last = bytes;
        before = after;
        c.count("no-edit-writes");
        if (!c.failures.empty())
            return;
    }
    c.cover(g.format);
    c.cover(cfg.forceRewrite ? "forced rewrite" : "in place if possible");
    c.mix(last);
    c.nontrivial = true;
}
static PropReg regC14("C14", caseC14);
} // namespace tp
