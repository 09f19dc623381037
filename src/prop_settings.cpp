// C22: attachments, chapters and track settings are kept and edited faithfully.
#include "lib.h"
#include "mkvfmt.h"
#include "mp4fmt.h"
#include <algorithm>
#include <filesystem>
#include <map>
#include <set>

namespace tp {
void compareMkv(Ctx &c, const mkv::Info &a, const mkv::Info &b, const std::string &round);
void compareMp4(Ctx &c, const mp4::Info &a, const mp4::Info &b, const std::string &round);
namespace {
using U = unsigned long long;
std::string shortText(Rng &r)
{
    auto s = r.chance(15) ? std::string() : r.chance(15) ? std::string(r.pick({ 126u, 127u, 128u, 200u, 16382u, 16383u, 16384u }), 'x') : randomText(r, 40);
    s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
    return s;
}
Bytes attachmentBytes(Rng &r)
{
    return r.payload(r.pick({ r.range(1, 300), r.range(1, 20), std::uint64_t(126), std::uint64_t(127), std::uint64_t(128), std::uint64_t(16382), std::uint64_t(16383), std::uint64_t(16384), r.range(300, 40000) }));
}
T::Locale mkvLocale(Rng &r, std::string &lang, std::string &bcp)
{
    T::Locale l;
    lang = "und", bcp.clear();
    if (r.chance(75)) {
        lang = r.pick({ "ger", "eng", "fre", "jpn", "chi", "und", "mul" });
        l.emplace_back(T::LocaleDetail(lang, T::LocaleFormat::ISO_639_2_B));
    }
    if (r.chance(40)) {
        bcp = r.pick({ "de-DE", "en", "zh-Hant-TW", "fr-CA" });
        l.emplace_back(T::LocaleDetail(bcp, T::LocaleFormat::BCP_47));
    }
    return l;
}
std::vector<std::string> targets(const mkv::Info &i)
{
    std::vector<std::string> res;
    for (auto &t : i.tags) {
        if (t.fields.empty())
            continue;
        auto s = strf("level %llu ", (U)t.level) + t.type;
        for (auto *l : { &t.tracks, &t.editions, &t.chapters, &t.attachments }) {
            s += " /";
            for (auto u : *l)
                s += strf(" %llu", (U)u);
        }
        res.push_back(s);
    }
    std::sort(res.begin(), res.end());
    return res;
}
void mkvSettings(Ctx &c)
{
    auto &r = c.rng;
    mkv::GOptions o;
    o.maxClusters = 3, o.maxBlocks = 4;
    auto g = mkv::generate(r, o);
    auto path = c.path("f.mkv");
    writeFile(path, g.file);
    c.artifact("input.mkv", g.file);
    c.note(g.desc);
    auto want = mkv::inspect(g.file);
    auto m = std::make_unique<Media>(path);
    std::set<std::string> keep{ "f.mkv" };
    unsigned fileNo = 0;
    for (auto rounds = r.range(1, 3), k = std::uint64_t(); k < rounds; ++k) {
        auto cfg = randomCfg(r);
        cfg.savePath.clear();
        if (r.chance(40))
            m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        auto round = strf("round %llu ", (U)k) + cfg.toString() + ": ";
        auto res = m->parse();
        if (res.outcome != Outcome::Ok || m->info.tracksParsingStatus() != T::ParsingStatus::Ok || m->info.attachmentsParsingStatus() != T::ParsingStatus::Ok)
            c.failNow("parse", round + "tracks or attachments not parsed: " + res.what + res.diagText());
        auto *ct = static_cast<T::MatroskaContainer *>(m->info.container());
        // what is reported before editing
        if (ct->attachmentCount() != want.attachments.size())
            c.failNow("attachment-count", round + strf("%zu attachments in the file, %zu reported", want.attachments.size(), ct->attachmentCount()));
        if (ct->trackCount() != want.tracks.size())
            c.failNow("track-count", round + strf("%zu tracks in the file, %zu reported", want.tracks.size(), ct->trackCount()));
        for (std::size_t i = 0; i < want.attachments.size(); ++i) {
            auto *a = ct->attachment(i);
            auto &w = want.attachments[i];
            if (a->name() != w.name || a->description() != w.desc || a->mimeType() != w.mime || a->id() != w.uid || attachmentData(*a) != w.data)
                c.fail("attachment-read", round + strf("attachment %zu is reported as ", i) + a->label() + " instead of " + quote(w.name) + strf(" %llu", (U)w.uid));
        }
        for (std::size_t i = 0; i < want.tracks.size(); ++i) {
            auto *t = ct->track(i);
            auto &w = want.tracks[i];
            if (t->name() != w.name || t->isEnabled() != w.enabled || t->isDefault() != w.def || t->isForced() != w.forced || t->id() != w.uid || t->trackNumber() != w.number)
                c.fail("track-read", round + strf("track %zu is reported as ", i) + t->label() + " instead of " + quote(w.name) + strf(" %llu", (U)w.uid));
        }
        if (!c.failures.empty())
            return;
        // edit
        std::string ed;
        std::set<std::size_t> ignored;
        std::set<std::uint64_t> uids;
        for (auto &a : want.attachments)
            uids.insert(a.uid);
        for (auto n = r.below(6); n; --n) {
            auto file = [&](T::MatroskaAttachment &a, mkv::Attachment &w) {
                auto name = r.pick({ "cover.jpg", "font.ttf", "a.bin", "text ä.txt", "no-extension" });
                auto dir = c.path(strf("in%u", fileNo++));
                std::filesystem::create_directories(dir);
                keep.insert(dir.substr(dir.rfind('/') + 1));
                auto data = attachmentBytes(r);
                writeFile(dir + "/" + name, data);
                auto rr = m->run([&](T::Diagnostics &d) { a.setFile(dir + "/" + name, d, m->progress); });
                if (rr.outcome != Outcome::Ok)
                    c.failNow("setfile", round + "unable to use a file as attachment: " + rr.what);
                if (a.name() != name)
                    c.fail("setfile-name", round + "name of attachment is " + quote(a.name()) + " after assigning file " + name);
                w.name = name, w.data = data, w.mime = a.mimeType();
                ed += strf("file(%zu) ", data.size());
            };
            switch (r.below(8)) {
            case 0: { // add
                auto count = r.chance(4) ? r.range(100, 400) : 1; // many: IDs need to stay unique
                for (std::uint64_t i = 0; i < count; ++i) {
                    auto *a = ct->createAttachment();
                    if (!a || !uids.insert(a->id()).second)
                        c.failNow("id-unique", round + ed + strf("ID %llu of a new attachment is already in use", (U)(a ? a->id() : 0)));
                    want.attachments.emplace_back();
                    auto &w = want.attachments.back();
                    w.uid = a->id();
                    file(*a, w);
                    if (r.coin())
                        a->setName(w.name = "n" + shortText(r));
                    if (r.coin())
                        a->setDescription(w.desc = shortText(r));
                    if (r.coin() || w.mime.empty())
                        a->setMimeType(w.mime = r.pick({ "image/png", "font/sfnt", "application/octet-stream" }));
                    c.count("attachments added");
                }
                ed += strf("add %llu ", (U)count);
                break;
            }
            case 1: // change
            case 2:
                if (!want.attachments.empty()) {
                    auto i = r.below(want.attachments.size());
                    auto *a = ct->attachment(i);
                    auto &w = want.attachments[i];
                    if (r.coin())
                        a->setName(w.name = shortText(r));
                    if (r.coin())
                        a->setDescription(w.desc = shortText(r));
                    if (r.coin())
                        a->setMimeType(w.mime = r.pick({ "image/png", "font/sfnt", "application/octet-stream", "text/plain" }));
                    if (r.chance(25)) {
                        auto id = r.pick({ r.range(1, 300), r.next() | 1 });
                        if (uids.insert(id).second) {
                            uids.erase(w.uid);
                            a->setId(w.uid = id);
                        }
                    }
                    if (r.chance(30))
                        file(*a, w);
                    else if (r.chance(15)) { // a file which does not exist
                        auto rr = m->run([&](T::Diagnostics &d) { a->setFile(c.path("missing/file"), d, m->progress); });
                        if (rr.outcome == Outcome::Ok)
                            c.fail("setfile-missing", round + "assigning a file which does not exist succeeds");
                        c.cover("attachment file missing");
                    }
                    ed += strf("change #%llu ", (U)i);
                    c.count("attachments changed");
                }
                break;
            case 3: // remove
                if (!want.attachments.empty()) {
                    auto i = r.below(want.attachments.size());
                    auto ignore = !ignored.count(i) || r.coin();
                    ct->attachment(i)->setIgnored(ignore);
                    if (ignore)
                        ignored.insert(i);
                    else
                        ignored.erase(i); // changed one's mind
                    ed += strf("remove #%llu %d ", (U)i, ignore);
                    c.count("attachments removed");
                }
                break;
            case 4:
                if (ct->titles().size() == 1) {
                    auto t = shortText(r);
                    ct->setTitle(t);
                    want.title.reset();
                    if (!t.empty())
                        want.title = t;
                    ed += "title ";
                }
                break;
            default:
                if (!want.tracks.empty()) {
                    auto i = r.below(want.tracks.size());
                    auto *t = ct->track(i);
                    auto &w = want.tracks[i];
                    if (r.coin())
                        t->setName(w.name = shortText(r));
                    if (r.coin())
                        t->setLocale(mkvLocale(r, w.lang, w.bcp));
                    if (r.coin())
                        t->setEnabled(w.enabled = r.coin());
                    if (r.coin())
                        t->setDefault(w.def = r.coin());
                    if (r.coin())
                        t->setForced(w.forced = r.coin());
                    ed += strf("track #%llu ", (U)i);
                    c.count("tracks changed");
                }
            }
        }
        c.note(" | " + round + ed);
        if (!c.failures.empty())
            return;
        std::vector<mkv::Attachment> rest;
        for (std::size_t i = 0; i < want.attachments.size(); ++i)
            if (!ignored.count(i))
                rest.push_back(want.attachments[i]);
        want.attachments = rest;
        // apply and compare
        auto ap = m->apply();
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        auto bytes = readFile(path);
        c.artifact(strf("after%llu.mkv", (U)k), bytes);
        mkv::Info got;
        try {
            got = mkv::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        compareMkv(c, want, got, round + ed);
        if (got.attachments.size() != want.attachments.size())
            c.fail("attachment-count", round + ed + strf("%zu attachments expected, %zu found", want.attachments.size(), got.attachments.size()));
        else
            for (std::size_t i = 0; i < want.attachments.size(); ++i) {
                auto &x = want.attachments[i], &y = got.attachments[i];
                auto bad = x.uid != y.uid ? "ID" : x.name != y.name ? "name" : x.mime != y.mime ? "MIME type" : x.desc != y.desc ? "description" : x.data != y.data ? "data" : x.other != y.other ? "other children" : nullptr;
                if (bad)
                    c.fail(std::string("attachment-") + bad, round + ed + strf("%s of attachment %zu differs", bad, i));
            }
        if (got.tracks.size() != want.tracks.size())
            c.fail("track-count", round + ed + strf("%zu tracks expected, %zu found", want.tracks.size(), got.tracks.size()));
        else
            for (std::size_t i = 0; i < want.tracks.size(); ++i) {
                auto &x = want.tracks[i], &y = got.tracks[i];
                auto bad = x.uid != y.uid ? "UID" : x.number != y.number ? "number" : x.name != y.name ? "name" : x.bcp != y.bcp ? "language (IETF)" : x.lang != y.lang ? "language" : x.enabled != y.enabled ? "enabled" : x.def != y.def ? "default" : x.forced != y.forced ? "forced" : x.other != y.other ? "other children" : nullptr;
                if (bad)
                    c.fail(std::string("track-") + bad, round + ed + strf("%s of track %zu differs (name %s vs %s, language %s/%s vs %s/%s)", bad, i, quote(x.name).c_str(), quote(y.name).c_str(), x.lang.c_str(), x.bcp.c_str(), y.lang.c_str(), y.bcp.c_str()));
            }
        if (got.chapters != want.chapters)
            c.fail("chapters", round + ed + strf("chapters differ (%zu vs %zu)", want.chapters.size(), got.chapters.size()));
        if (got.title.value_or("") != want.title.value_or(""))
            c.fail("title", round + ed + "title is " + quote(got.title.value_or("")) + " instead of " + quote(want.title.value_or("")));
        if (targets(got) != targets(want)) {
            std::string a, b;
            for (auto &s : targets(want))
                a += s + "; ";
            for (auto &s : targets(got))
                b += s + "; ";
            c.fail("tag-targets", round + ed + "targets of tags differ: " + firstDiff(a, b));
        }
        c.count("attachments compared", got.attachments.size());
        c.count("tracks compared", got.tracks.size());
        c.count("chapters compared", got.chapters.size());
        c.mix(bytes);
        if (!ed.empty())
            c.nontrivial = true;
        c.cover(std::string("mkv ") + (fileExists(path + ".bak") ? "rewritten" : "in-place"));
        if (!c.failures.empty())
            return;
        want = std::move(got);
        for (auto &f : { path + ".bak" })
            std::filesystem::remove(f);
        if (r.coin())
            m = std::make_unique<Media>(path);
        else
            m->info.clearParsingResults();
    }
}
std::uint16_t langCode(std::string_view l)
{
    return l.empty() ? 0 : static_cast<std::uint16_t>((l[0] - 0x60) << 10 | (l[1] - 0x60) << 5 | (l[2] - 0x60));
}
void mp4Settings(Ctx &c)
{
    auto &r = c.rng;
    mp4::GOptions o;
    auto g = mp4::generate(r, o);
    auto path = c.path("f.mp4");
    writeFile(path, g.file);
    c.artifact("input.mp4", g.file);
    c.note(g.desc);
    auto want = mp4::inspect(g.file);
    std::vector<std::unique_ptr<Media>> others; // sources of added tracks
    auto m = std::make_unique<Media>(path);
    for (auto rounds = r.range(1, 3), k = std::uint64_t(); k < rounds; ++k) {
        auto cfg = randomCfg(r);
        cfg.savePath.clear();
        if (r.chance(40))
            m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        auto round = strf("round %llu ", (U)k) + cfg.toString() + ": ";
        auto res = m->parse();
        if (res.outcome != Outcome::Ok || m->info.tracksParsingStatus() != T::ParsingStatus::Ok)
            c.failNow("parse", round + "tracks not parsed: " + res.what + res.diagText());
        auto *ct = static_cast<T::Mp4Container *>(m->info.container());
        if (ct->trackCount() != want.tracks.size())
            c.failNow("track-count", round + strf("%zu tracks in the file, %zu reported", want.tracks.size(), ct->trackCount()));
        std::string ed;
        bool altered = false;
        for (auto n = r.below(6); n; --n) {
            switch (r.below(10)) {
            case 0: // remove
                if (!g.fragmented && want.tracks.size() > 1) {
                    auto i = r.below(want.tracks.size());
                    auto *t = ct->track(i);
                    if (!ct->removeTrack(t))
                        c.fail("remove", round + "track not removed");
                    delete t;
                    want.tracks.erase(want.tracks.begin() + static_cast<std::ptrdiff_t>(i));
                    altered = true;
                    ed += strf("remove #%llu ", (U)i);
                    c.count("tracks removed");
                }
                break;
            case 1: // add from other file
                if (!g.fragmented) {
                    mp4::GOptions oo;
                    oo.allowFragmented = false;
                    auto og = mp4::generate(r, oo);
                    auto src = mp4::inspect(og.file);
                    auto opath = c.path(strf("src%zu.mp4", others.size()));
                    writeFile(opath, og.file);
                    c.artifact(strf("src%zu.mp4", others.size()), og.file);
                    auto om = std::make_unique<Media>(opath);
                    auto ores = om->parse();
                    auto *oc = static_cast<T::Mp4Container *>(om->info.container());
                    if (!oc || oc->trackCount() != src.tracks.size() || src.tracks.empty())
                        break;
                    auto j = r.below(src.tracks.size());
                    auto *t = oc->track(j);
                    oc->removeTrack(t);
                    if (!ct->addTrack(t)) {
                        c.fail("add", round + "track not added");
                        break;
                    }
                    auto w = src.tracks[j];
                    auto used = [&](std::uint64_t id) { return std::any_of(want.tracks.begin(), want.tracks.end(), [&](auto &x) { return x.id == id; }); };
                    while (used(w.id))
                        ++w.id;
                    if (t->id() != w.id)
                        c.fail("id", round + ed + strf("ID of added track is %llu instead of %u", (U)t->id(), w.id));
                    w.tkhdDuration = ~0ull; // in unit of the movie
                    want.tracks.push_back(w);
                    others.push_back(std::move(om));
                    altered = true;
                    ed += "add ";
                    c.count("tracks added");
                }
                break;
            default:
                if (!want.tracks.empty()) {
                    auto i = r.below(want.tracks.size());
                    auto *t = ct->track(i);
                    auto &w = want.tracks[i];
                    if (r.coin())
                        t->setName(w.name = shortText(r));
                    if (r.coin()) {
                        std::string l = r.pick({ "deu", "eng", "fra", "jpn", "und", "mul", "" });
                        t->setLocale(l.empty() ? T::Locale() : T::Locale(l, T::LocaleFormat::ISO_639_2_T));
                        w.lang = langCode(l);
                    }
                    if (r.coin()) {
                        auto e = r.coin();
                        t->setEnabled(e);
                        w.tkhdFlags = (w.tkhdFlags & ~1u) | e;
                    }
                    ed += strf("track #%llu ", (U)i);
                    c.count("tracks changed");
                }
            }
        }
        c.note(" | " + round + ed);
        auto ap = m->apply();
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        auto bytes = readFile(path);
        c.artifact(strf("after%llu.mp4", (U)k), bytes);
        mp4::Info got;
        try {
            got = mp4::inspect(bytes);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        auto ref = want;
        for (std::size_t i = 0; i < ref.tracks.size() && i < got.tracks.size(); ++i)
            if (ref.tracks[i].tkhdDuration == ~0ull)
                ref.tracks[i].tkhdDuration = got.tracks[i].tkhdDuration;
        compareMp4(c, ref, got, round + ed);
        std::set<std::uint32_t> ids;
        for (auto &t : got.tracks)
            if (!ids.insert(t.id).second)
                c.fail("id-unique", round + ed + strf("ID %u is used by more than one track", t.id));
        if (altered)
            c.cover("tracks altered");
        c.cover(std::string("mp4 ") + (fileExists(path + ".bak") ? "rewritten" : "in-place") + (g.fragmented ? " fragmented" : ""));
        c.count("tracks compared", got.tracks.size());
        c.mix(bytes);
        if (!ed.empty())
            c.nontrivial = true;
        if (!c.failures.empty())
            return;
        want = std::move(got);
        std::filesystem::remove(path + ".bak");
        if (r.coin()) {
            m = std::make_unique<Media>(path);
            others.clear();
        } else
            m->info.clearParsingResults();
    }
}
void settingsCase(Ctx &c)
{
    if (c.rng.chance(65))
        mkvSettings(c);
    else
        mp4Settings(c);
}
PropReg reg("C22", settingsCase);
} // namespace
} // namespace tp
