// C25: separate objects in separate threads (results as when run one after another; no data races), aborting from another thread.
#include "any.h"
#include "edits.h"
#include "values.h"
#include "hostile.h"
#include <tagparser/localehelper.h>
#include <tagparser/id3/id3genres.h>
#include <tagparser/signature.h>
#include <atomic>
#include <chrono>
#include <filesystem>
#include <sched.h>
#include <thread>
namespace fs = std::filesystem;
// the dynamic loader (used by iconv to load converters) isn't instrumented; its own locking is unknown to ThreadSanitizer
extern "C" __attribute__((used, visibility("default"))) const char *__tsan_default_suppressions()
{
    return "race:_dl_\nrace:__gconv\ncalled_from_lib:ld-linux-x86-64.so.2\n";
}
namespace tp {
namespace {
using KF = T::KnownField;

struct Job {
    AnyGen g;
    Bytes file;
    Cfg cfg;
    std::uint64_t editSeed = 0;
    bool saveAs = false, backups = false, damaged = false;
    unsigned rounds = 1;
    unsigned yields = 0; // injected delays: a bit mask deciding on which callbacks to yield
};
struct Done {
    std::string text; // everything reported
    std::map<std::string, Bytes> files; // everything left behind
    bool applied = false, threw = false;
};
template <class F> std::string guarded(T::Diagnostics &diag, F &&f)
{
    try {
        f();
        return "ok";
    } catch (const T::OperationAbortedException &) {
        return "aborted";
    } catch (const std::exception &e) {
        return std::string("exception: ") + e.what();
    }
}
void addDiag(std::string &text, const T::Diagnostics &diag)
{
    for (const auto &d : diag)
        text += strf("  %s | %s | %s\n", d.levelName().data(), d.context().c_str(), d.message().c_str());
}
// uses of the API besides parsing and applying changes
void useApi(Rng &r, T::MediaFileInfo &f, std::string &text)
{
    static constexpr KF fields[] = { KF::Title, KF::Album, KF::Artist, KF::Genre, KF::Comment, KF::RecordDate, KF::TrackPosition, KF::DiskPosition, KF::Rating, KF::Cover, KF::Lyrics, KF::Language, KF::Length, KF::Bpm,
        KF::Encoder, KF::Composer, KF::AlbumArtist, KF::MediaType, KF::ContentRating };
    auto tags = f.tags();
    for (auto *t : tags) {
        for (auto n = r.below(6); n; --n) {
            const auto field = r.pick(fields);
            if (r.chance(20)) {
                t->setValue(field, T::TagValue());
                continue;
            }
            ValueCaps caps;
            caps.maxChars = 60;
            const auto kind = field == KF::Cover ? Kind::Cover
                : field == KF::Rating            ? Kind::Rating
                : field == KF::RecordDate        ? Kind::Date
                : field == KF::Genre             ? Kind::Genre
                : field == KF::TrackPosition || field == KF::DiskPosition ? Kind::Position
                : field == KF::Length            ? Kind::Duration
                : field == KF::Bpm               ? Kind::Number
                                                 : Kind::Text;
            std::vector<T::TagValue> values;
            for (auto k = r.range(1, 2); k; --k)
                values.emplace_back(randomVal(r, kind, caps).value);
            t->setValues(field, values);
        }
        for (auto field = T::firstKnownField; field != T::KnownField::Invalid; field = T::nextKnownField(field)) {
            text += strf("%d%d%d", t->supportsField(field), t->supportsMultipleValues(field), t->hasField(field));
            text += std::to_string(static_cast<int>(t->proposedDataType(field)));
            for (const auto *v : t->values(field))
                text += " " + quote(v->toDisplayString());
        }
        text += "\n" + t->toString() + "\n";
        if (r.chance(30))
            t->ensureTextValuesAreProperlyEncoded();
    }
    if (tags.size() > 1 && r.chance(50))
        tags[0]->insertValues(*tags[1], r.coin());
    for (auto *t : f.tracks()) {
        text += t->label() + "|" + t->description() + "|" + std::string(t->mediaTypeName()) + "|" + std::string(t->locale().someAbbreviatedName()) + "|" + t->locale().fullName() + "\n";
        if (r.chance(20))
            t->setName(randomText(r, 30));
    }
    text += f.technicalSummary() + "\n";
    for (const auto &l : f.availableLanguages(T::MediaType::Audio))
        text += l + " ";
    for (auto n = r.below(4); n; --n) {
        const auto iso = r.pick({ "eng", "ger", "jpn", "und", "zzz", "fre" });
        text += std::string(iso) + "=" + T::Locale(std::string(iso), T::LocaleFormat::ISO_639_2_B).fullName() + " ";
        const auto g = r.below(200);
        text += std::string(T::Id3Genres::stringFromIndex(static_cast<int>(g)));
        text += std::to_string(T::Id3Genres::indexFromString(r.pick({ "Rock", "Pop", "nothing", "Dance" }))) + "\n";
    }
}
Done runJob(const Job &j, const std::string &dir, std::atomic<bool> *go)
{
    Done d;
    if (go)
        while (!go->load(std::memory_order_relaxed))
            sched_yield();
    Rng r(j.editSeed);
    auto file = dir + "/" + j.g.name;
    auto calls = 0u;
    auto cb = [&](T::AbortableProgressFeedback &p) {
        if ((j.yields >> (++calls % 32)) & 1)
            sched_yield();
        d.text += strf("[%s]", p.step().c_str());
    };
    auto quiet = [&](T::AbortableProgressFeedback &) {
        if ((j.yields >> (++calls % 32)) & 1)
            sched_yield();
    };
    for (unsigned round = 0; round < j.rounds; ++round) {
        T::MediaFileInfo f{ std::string_view(file) };
        applyCfg(f, j.cfg);
        T::Diagnostics diag;
        T::AbortableProgressFeedback p(cb, quiet);
        d.text += "parse: " + guarded(diag, [&] { f.parseEverything(diag, p); }) + "\n";
        addDiag(d.text, diag);
        diag.clear();
        d.text += guarded(diag, [&] { d.text += dumpAll(f, true); }) + "\n";
        if (!f.areTagsSupported() && f.containerFormat() != T::ContainerFormat::Unknown)
            continue;
        d.text += guarded(diag, [&] {
            T::TagCreationSettings s;
            s.id3v2MajorVersion = static_cast<std::uint8_t>(r.range(2, 4));
            if (r.coin())
                s.flags = T::TagCreationFlags::TreatUnknownFilesAsMp3Files | T::TagCreationFlags::Id3InitOnCreate;
            if (r.coin())
                f.createAppropriateTags(s);
            useApi(r, f, d.text);
        }) + "\n";
        if (j.backups)
            f.setBackupDirectory(dir + "/backups");
        if (j.saveAs)
            f.setSaveFilePath(dir + "/saved-" + std::to_string(round) + j.g.name);
        auto res = guarded(diag, [&] { f.applyChanges(diag, p); });
        d.applied = d.applied || res == "ok";
        d.threw = d.threw || res != "ok";
        d.text += "apply: " + res + "\n";
        addDiag(d.text, diag);
        d.text += guarded(diag, [&] { d.text += dumpAll(f, true); }) + "\n";
        if (j.saveAs)
            file = f.path();
    }
    for (auto &e : fs::recursive_directory_iterator(dir))
        if (e.is_regular_file())
            d.files[fs::relative(e.path(), dir)] = readFile(e.path());
    return d;
}
std::string setupJob(const Job &j, const std::string &base, std::size_t i)
{
    // the directories have names of the same length: paths are part of messages
    auto dir = base + "/" + std::to_string(i);
    fs::remove_all(dir);
    fs::create_directories(dir + "/backups");
    writeFile(dir + "/" + j.g.name, j.file);
    return dir;
}

void concurrentCase(Ctx &c)
{
    auto &r = c.rng;
    std::vector<Job> jobs(r.range(2, 5));
    const bool same = r.chance(30); // all threads do exactly the same
    for (std::size_t i = 0; i < jobs.size(); ++i) {
        auto &j = jobs[i];
        if (same && i) {
            j = jobs[0];
            continue;
        }
        AnyOptions o;
        o.small = true;
        j.g = anyFile(r, o);
        j.file = j.g.file;
        if (r.chance(15) && j.file.size() > 40) {
            j.damaged = true;
            for (auto n = r.range(1, 6); n; --n)
                j.file[r.below(std::min<std::size_t>(j.file.size(), 4000))] = static_cast<char>(r.next());
            if (r.chance(30))
                j.file.resize(r.below(j.file.size()));
        }
        j.cfg = randomCfg(r);
        j.editSeed = r.next();
        j.saveAs = r.chance(25);
        j.backups = r.chance(25);
        j.rounds = static_cast<unsigned>(r.range(1, 2));
        j.yields = r.chance(50) ? static_cast<unsigned>(r.next()) : 0;
        c.mix(j.file);
        c.mix(j.cfg.toString());
        c.note(j.g.format + (j.damaged ? "(damaged)" : "") + " " + j.cfg.toString() + "; ");
    }
    c.artifact("file0", jobs[0].file);
    const auto base = c.path("r");
    std::vector<std::string> dirs(jobs.size());
    auto setup = [&] {
        for (std::size_t i = 0; i < jobs.size(); ++i)
            dirs[i] = setupJob(jobs[i], base, i);
    };
    // at the same time first: what is initialised on first use has to be initialised by threads at the same time
    setup();
    std::vector<Done> concurrent(jobs.size()), sequential(jobs.size());
    std::atomic<bool> go{ false };
    {
        std::vector<std::thread> threads;
        for (std::size_t i = 0; i < jobs.size(); ++i)
            threads.emplace_back([&, i] { concurrent[i] = runJob(jobs[i], dirs[i], &go); });
        go.store(true, std::memory_order_relaxed);
        for (auto &t : threads)
            t.join();
    }
    setup();
    for (std::size_t i = 0; i < jobs.size(); ++i)
        sequential[i] = runJob(jobs[i], dirs[i], nullptr);
    std::size_t applied = 0;
    for (std::size_t i = 0; i < jobs.size(); ++i) {
        if (jobs[i].damaged)
            c.count("damaged");
        applied += sequential[i].applied;
        c.cover(jobs[i].g.format + (sequential[i].applied ? ":written" : ":not-written"));
        if (concurrent[i].text != sequential[i].text) {
            c.artifact("file", jobs[i].file);
            c.failNow("reports:" + jobs[i].g.format, "thread " + std::to_string(i) + " of " + std::to_string(jobs.size()) + ": " + firstDiff(sequential[i].text, concurrent[i].text));
        }
        if (concurrent[i].files != sequential[i].files) {
            c.artifact("file", jobs[i].file);
            std::string what;
            for (auto &[n, b] : sequential[i].files)
                if (!concurrent[i].files.count(n))
                    what += "missing " + n + " ";
                else if (concurrent[i].files[n] != b)
                    what += n + " differs ";
            c.failNow("files:" + jobs[i].g.format, "thread " + std::to_string(i) + ": " + what);
        }
    }
    c.count("jobs", jobs.size());
    c.count("jobs-written", applied);
    if (applied >= 2)
        c.nontrivial = true;
}

// abort requested by another thread
void abortCase(Ctx &c)
{
    auto &r = c.rng;
    Job j;
    AnyOptions o;
    o.small = true;
    j.g = anyFile(r, o);
    j.file = j.g.file;
    j.cfg = randomCfg(r);
    j.cfg.savePath.clear();
    c.mix(j.file);
    c.note("abort " + j.g.format + " " + j.cfg.toString());
    c.artifact("file", j.file);
    const auto base = c.path("r");
    for (auto n = r.range(3, 6); n; --n) {
        const auto dir = setupJob(j, base, 0);
        const auto path = dir + "/" + j.g.name;
        const bool parsing = r.chance(30);
        const auto abortAt = r.chance(15) ? 0u : static_cast<unsigned>(r.range(1, 12)); // 0: any time, otherwise at the callback
        const auto edit = r.next();
        T::MediaFileInfo f{ std::string_view(path) };
        applyCfg(f, j.cfg);
        // an undisturbed run tells what is to be expected
        std::vector<std::string> steps;
        std::atomic<unsigned> reached{ 0 }, requested{ 0 }, stop{ 0 };
        std::atomic<unsigned> polls{ 0 };
        unsigned calls = 0, callsAfter = 0, blocked = 0;
        bool dummy = false;
        auto cb = [&](T::AbortableProgressFeedback &) {
            ++calls;
            if (requested.load(std::memory_order_relaxed) == 1 && calls > abortAt)
                ++callsAfter;
            if (calls != abortAt)
                return;
            // relaxed: nothing but the flag itself may order the two threads
            reached.store(1, std::memory_order_relaxed);
            for (; !requested.load(std::memory_order_relaxed); ++blocked)
                sched_yield();
        };
        T::AbortableProgressFeedback p(cb, r.coin() ? cb : T::AbortableProgressFeedback::Callback());
        T::Diagnostics diag;
        if (!parsing) {
            T::AbortableProgressFeedback other;
            auto res = guarded(diag, [&] { f.parseEverything(diag, other); });
            if (res != "ok") {
                c.count("unparsable");
                return;
            }
            T::TagCreationSettings s;
            f.createAppropriateTags(s);
            Rng er(edit);
            randomEdit(er, f);
        }
        (void)dummy;
        std::thread other([&] {
            while (!stop.load(std::memory_order_relaxed)) {
                if (abortAt ? reached.load(std::memory_order_relaxed) != 0 : polls.load(std::memory_order_relaxed) > edit % 50) {
                    p.tryToAbort();
                    break;
                }
                if (p.isAborted())
                    break;
                polls.fetch_add(1, std::memory_order_relaxed);
                sched_yield();
            }
            requested.store(1, std::memory_order_relaxed);
            while (!stop.load(std::memory_order_relaxed)) {
                if (p.isAborted())
                    polls.fetch_add(1, std::memory_order_relaxed);
                sched_yield();
            }
        });
        auto res = guarded(diag, [&] {
            if (parsing)
                f.parseEverything(diag, p);
            else
                f.applyChanges(diag, p);
        });
        stop.store(1, std::memory_order_relaxed);
        other.join();
        c.count(parsing ? "abort-parse" : "abort-apply");
        const bool was = abortAt && calls >= abortAt;
        if (was && !p.isAborted())
            c.failNow("flag", "flag isn't set after an abort has been requested from another thread");
        if (!was && abortAt) {
            if (p.isAborted() || res == "aborted")
                c.failNow("not-requested", "operation is considered aborted though nobody requested it");
            continue;
        }
        if (was)
            c.count("requested-at-callback");
        if (parsing) {
            const auto allOk = f.tagsParsingStatus() != T::ParsingStatus::NotParsedYet && f.chaptersParsingStatus() != T::ParsingStatus::NotParsedYet && f.attachmentsParsingStatus() != T::ParsingStatus::NotParsedYet
                && f.tracksParsingStatus() != T::ParsingStatus::NotParsedYet;
            if (was && abortAt == 1 && allOk)
                c.failNow("parse-not-aborted:" + j.g.format, "abort requested at the first step of parsing, everything has been parsed nevertheless: " + res);
            c.count(allOk ? "parse-finished" : "parse-aborted");
            if (readFile(path) != j.file)
                c.failNow("parse-modified", "aborted parsing modified the file");
        } else {
            c.count(res == "aborted" ? "apply-aborted" : res == "ok" ? "apply-finished" : "apply-failed");
            if (res == "aborted" && was)
                c.count("aborted-of-requested");
            if (res == "aborted" && readFile(path) != j.file)
                c.failNow("apply-modified:" + j.g.format, "file isn't what it was before though writing has been aborted");
            if (was && res != "aborted" && callsAfter > 6)
                c.failNow("apply-not-aborted:" + j.g.format, strf("abort requested at callback %u by another thread, %u callbacks followed and the operation ended: %s", abortAt, callsAfter, res.c_str()));
            if (was && abortAt == 1 && res != "aborted")
                c.failNow("apply-not-aborted-first:" + j.g.format, "abort requested at the first callback by another thread, operation ended: " + res);
            if (res.compare(0, 9, "exception") == 0)
                c.failNow("apply-exception:" + j.g.format, "abort leads to " + res);
        }
        c.cover(j.g.format + (parsing ? ":parse" : ":apply") + (res == "aborted" ? ":aborted" : ":finished"));
        c.nontrivial = true;
    }
}

void run(Ctx &c)
{
    return c.rng.chance(70) ? concurrentCase(c) : abortCase(c);
}
PropReg reg("C25", run);
}
}
