// C12: audio data and foreign metadata of files without container object. C04/C05: ID3v1/ID3v2 tags.
#include "edits.h"
#include "lib.h"
#include "rawfmt.h"

namespace tp {
// describes what must not change when tags are edited
void compareRaw(Ctx &c, const raw::Info &a, const raw::Info &b, const std::string &round)
{
    for (auto &p : b.problems)
        if (std::find(a.problems.begin(), a.problems.end(), p) == a.problems.end())
            c.fail("structure-" + p.substr(0, p.find(' ')), round + p);
    if (a.stream != b.stream) {
        std::size_t k = 0;
        while (k < a.stream.size() && k < b.stream.size() && a.stream[k] == b.stream[k])
            ++k;
        c.fail("stream", round + strf("audio data of %zu bytes became %zu bytes, first difference at %zu", a.stream.size(), b.stream.size(), k));
    }
    if (a.ape != b.ape)
        c.fail("ape", round + strf("APE tag of %zu bytes became %zu bytes", a.ape.size(), b.ape.size()));
    if (a.flac != b.flac)
        c.failNow("flac-gone", round + "FLAC stream not at its place");
    if (a.foreign.size() != b.foreign.size())
        c.failNow("flac-block-count", round + strf("%zu other metadata blocks before, %zu after", a.foreign.size(), b.foreign.size()));
    for (std::size_t k = 0; k < a.foreign.size(); ++k)
        if (!(a.foreign[k] == b.foreign[k]))
            c.fail("flac-block", round + strf("metadata block %zu of type %u (%zu bytes) became type %u (%zu bytes)", k, a.foreign[k].type, a.foreign[k].data.size(), b.foreign[k].type, b.foreign[k].data.size()));
}
static T::TagCreationFlags randomCreationFlags(Rng &r)
{
    auto f = T::TagCreationFlags::None;
    if (r.chance(80)) f = f | T::TagCreationFlags::TreatUnknownFilesAsMp3Files;
    if (r.coin()) f = f | T::TagCreationFlags::Id3InitOnCreate;
    if (r.coin()) f = f | T::TagCreationFlags::Id3TransferValuesOnRemoval;
    if (r.coin()) f = f | T::TagCreationFlags::MergeMultipleSuccessiveId3v2Tags;
    if (r.coin()) f = f | T::TagCreationFlags::KeepExistingId3v2Version;
    return f;
}
std::string editRawTags(Rng &r, T::MediaFileInfo &f)
{
    std::string d;
    if (r.chance(60)) {
        T::TagCreationSettings s;
        s.flags = randomCreationFlags(r);
        s.id3v1usage = r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting, T::TagUsage::Never });
        s.id3v2usage = r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting, T::TagUsage::Never });
        s.id3v2MajorVersion = r.pick({ std::uint8_t(3), std::uint8_t(4), std::uint8_t(2) });
        f.createAppropriateTags(s);
        d += strf("createTags(v1 %d, v2 %d, 2.%d) ", (int)s.id3v1usage, (int)s.id3v2usage, (int)s.id3v2MajorVersion);
    }
    if (r.chance(8)) {
        f.removeId3v1Tag();
        d += "removeV1 ";
    }
    if (r.chance(8)) {
        f.removeAllId3v2Tags();
        d += "removeV2 ";
    }
    if (r.chance(5)) {
        f.removeVorbisComment();
        d += "removeVorbis ";
    }
    return d + randomEdit(r, f);
}
static void caseC12(Ctx &c)
{
    auto &r = c.rng;
    auto g = raw::generate(r);
    auto keepJunk = g.format == "unknown";
    auto path = c.path("f.bin");
    writeFile(path, g.file);
    c.artifact("input.bin", g.file);
    c.note(g.desc);
    auto before = raw::inspect(g.file, keepJunk);
    auto rounds = r.range(1, 3);
    auto m = std::make_unique<Media>(path);
    for (unsigned k = 0; k < rounds; ++k) {
        auto cfg = randomCfg(r);
        if (r.chance(30))
            m = std::make_unique<Media>(path);
        applyCfg(m->info, cfg);
        auto res = m->parse();
        auto round = strf("round %u ", k) + cfg.toString() + ": ";
        if (res.outcome != Outcome::Ok)
            c.failNow("parse-throws", round + res.what);
        auto ok = [](T::ParsingStatus s) { return s == T::ParsingStatus::Ok || s == T::ParsingStatus::NotSupported; };
        if (!ok(m->info.tagsParsingStatus()) || !ok(m->info.tracksParsingStatus()))
            c.failNow("parse-status", round + "tracks or tags not parsed: " + res.diagText());
        auto ed = editRawTags(r, m->info);
        auto wantV2 = m->info.id3v2Tags().size();
        auto wantV1 = m->info.hasId3v1Tag();
        auto *flac = m->info.containerFormat() == T::ContainerFormat::Flac && m->info.trackCount() ? static_cast<T::FlacStream *>(m->info.tracks().front()) : nullptr;
        auto wantComment = flac && flac->vorbisComment();
        c.note(" | " + round + ed);
        emptyDirExcept(c.dir, "f.bin");
        auto ap = m->apply();
        c.count(std::string("apply-") + outcomeName(ap.outcome));
        auto bytes = readFile(path);
        if (ap.outcome != Outcome::Ok)
            c.failNow("apply-throws", round + ed + ap.what + " " + ap.diagText());
        c.artifact(strf("after%u.bin", k), bytes);
        raw::Info after;
        try {
            after = raw::inspect(bytes, keepJunk);
        } catch (const std::exception &e) {
            c.failNow("malformed-output", round + ed + e.what());
        }
        compareRaw(c, before, after, round + ed);
        if (after.tags.size() != wantV2)
            c.fail("id3v2-count", round + ed + strf("%zu ID3v2 tags expected, %zu present", wantV2, after.tags.size()));
        if (after.v1.has_value() != wantV1)
            c.fail("id3v1-presence", round + ed + (wantV1 ? "ID3v1 tag missing" : "ID3v1 tag left"));
        if (before.flac && after.comment.has_value() != wantComment)
            c.fail("comment-presence", round + ed + (wantComment ? "Vorbis comment missing" : "Vorbis comment left"));
        c.count("stream-bytes-compared", after.stream.size());
        c.count("foreign-blocks-compared", after.foreign.size() + (after.ape.empty() ? 0 : 1));
        c.cover(g.format + strf(" v2 %zu v1 %d ape %d", after.tags.size(), after.v1.has_value(), !after.ape.empty()));
        for (auto &b : after.foreign)
            c.cover(strf("block %u", b.type < 7 ? b.type : 7));
        c.mix(bytes);
        c.nontrivial = true;
        if (!c.failures.empty())
            return;
    }
}
static PropReg regC12("C12", caseC12);
} // namespace tp
