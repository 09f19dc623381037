#include "hostile.h"
#include "oggfmt.h"
#include <sys/resource.h>
#include <tagparser/avc/avcconfiguration.h>
#include <tagparser/av1/av1configuration.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/matroska/matroskaid.h>
namespace tp {
// files with a huge number of elements on the same level or nested into each other
static Bytes ebmlSize(std::uint64_t n)
{
    n |= 1ull << 49;
    Bytes b;
    for (int k = 6; k >= 0; --k)
        b += static_cast<char>(n >> (8 * k));
    return b;
}
static Bytes ebmlEl(const Bytes &id, const Bytes &data)
{
    return id + ebmlSize(data.size()) + data;
}
static Bytes be32(std::uint64_t n)
{
    return Bytes{ static_cast<char>(n >> 24), static_cast<char>(n >> 16), static_cast<char>(n >> 8), static_cast<char>(n) };
}
static Bytes repeated(const Bytes &b, std::size_t n)
{
    Bytes res;
    res.reserve(b.size() * n);
    for (; n; --n)
        res += b;
    return res;
}
static Bytes nested(std::size_t depth, Bytes inner, const std::function<Bytes(std::size_t)> &header)
{
    std::vector<Bytes> headers;
    auto size = inner.size();
    for (std::size_t k = 0; k < depth; ++k) {
        headers.emplace_back(header(size));
        size += headers.back().size();
    }
    Bytes res;
    for (auto i = headers.rbegin(); i != headers.rend(); ++i)
        res += *i;
    return res + inner;
}
static void scaleFile(Rng &r, HostileFile &h)
{
    const auto wide = r.range(100000, 250000), deep = r.coin() ? r.range(20000, 120000) : r.range(90, 400);
    auto variant = r.below(40) ? r.below(9) : 9;
    if (variant == 9) { // Ogg file which is so big that pages are skipped
        ogg::GOptions o;
        o.multi = false;
        auto g = ogg::generate(r, o);
        auto pages = ogg::inspect(g.file).pages;
        auto serial = pages.back().serial;
        auto seq = pages.back().seq;
        auto count = r.range(1640, 2200);
        h.bytes = g.file;
        h.bytes.reserve(count * 65307 + g.file.size());
        for (std::uint64_t k = 0; k < count; ++k) {
            W w;
            w.be32(0x4F676753).u8(0).u8(0).le64(k).le32(serial).le32(static_cast<std::uint32_t>(++seq)).le32(0).u8(255);
            h.bytes += w.b;
            h.bytes.append(255, '\xff');
            h.bytes.append(65025, '\0');
        }
        h.g.fam = Fam::Ogg;
        h.g.name = "scale.ogg";
        h.g.format = "ogg";
        h.how = strf("scale %u pages", (unsigned)count);
        struct rlimit old { };
        getrlimit(RLIMIT_FSIZE, &old);
        auto raised = old;
        raised.rlim_cur = old.rlim_max;
        setrlimit(RLIMIT_FSIZE, &raised);
        h.limit = std::shared_ptr<void>(nullptr, [old](void *) { setrlimit(RLIMIT_FSIZE, &old); });
        h.scale = true;
        return;
    }
    static const Bytes atomIds[] = { "moov", "udta", "meta", "trak", "mdia", "minf", "stbl", "stsd", "ilst", "moof", "traf", "dinf", "mvex", "edts" };
    auto mkv = [](const Bytes &body) {
        auto info = ebmlEl("\x15\x49\xa9\x66", ebmlEl("\x2a\xd7\xb1", Bytes("\x0f\x42\x40")));
        return ebmlEl("\x1a\x45\xdf\xa3", ebmlEl("\x42\x82", "matroska") + ebmlEl("\x42\x87", "\2") + ebmlEl("\x42\x85", "\2")) + ebmlEl("\x18\x53\x80\x67", info + body);
    };
    auto atom = [](const Bytes &id, const Bytes &data) { return be32(data.size() + 8) + id + data; };
    auto mp4 = [&](const Bytes &moov, const Bytes &after) { return atom("ftyp", Bytes("isom\0\0\0\0isom", 12)) + atom("moov", atom("mvhd", Bytes(100, '\0')) + moov) + after; };
    auto isMkv = variant < 5;
    switch (variant) {
    case 0: // void elements
        h.bytes = mkv(repeated(Bytes("\xec\x80", 2), wide));
        break;
    case 1: // empty tags
        h.bytes = mkv(ebmlEl("\x12\x54\xc3\x67", repeated(Bytes("\x73\x73\x80", 3), wide / 20)));
        break;
    case 2: // nested simple tags
        h.bytes = mkv(ebmlEl("\x12\x54\xc3\x67", ebmlEl("\x73\x73", nested(deep, ebmlEl("\x45\xa3", "A"), [](std::size_t n) { return "\x67\xc8" + ebmlSize(n); }))));
        break;
    case 3: // nested chapters
        h.bytes = mkv(ebmlEl("\x10\x43\xa7\x70", ebmlEl("\x45\xb9", nested(deep, ebmlEl("\x73\xc4", "\1"), [](std::size_t n) { return "\xb6" + ebmlSize(n); }))));
        break;
    case 4: { // other nested elements
        auto id = r.pick({ Bytes("\x1f\x43\xb6\x75"), Bytes("\x16\x54\xae\x6b"), Bytes("\xae"), Bytes("\x1c\x53\xbb\x6b"), Bytes("\xbb"), Bytes("\x19\x41\xa4\x69"), Bytes("\x11\x4d\x9b\x74"), Bytes("\x18\x53\x80\x67"), Bytes("\xa0"), Bytes("\xe0") });
        h.bytes = mkv(nested(deep, ebmlEl("\xec", "abc"), [&](std::size_t n) { return id + ebmlSize(n); }));
        break;
    }
    case 5:
        h.bytes = mp4(Bytes(), repeated(Bytes("\0\0\0\x08" "free", 8), wide));
        break;
    case 6: { // nested atoms
        auto id = r.pick(atomIds);
        h.bytes = mp4(nested(deep, Bytes(), [&](std::size_t n) { return be32(n + 8) + id; }), nested(deep, Bytes(), [&](std::size_t n) { return be32(n + 8) + id; }));
        break;
    }
    default: { // many or nested values
        auto meta = variant == 7
            ? atom("ilst", repeated(atom("\xa9nam", atom("data", Bytes(8, '\0'))), wide / 4))
            : nested(deep, Bytes(), [](std::size_t n) { return be32(n + 8) + "ilst"; });
        h.bytes = mp4(atom("udta", atom("meta", Bytes(4, '\0') + meta)), Bytes());
    }
    }
    h.g.fam = isMkv ? Fam::Mkv : Fam::Mp4;
    h.g.name = isMkv ? "scale.mkv" : "scale.mp4";
    h.g.format = isMkv ? "matroska" : "mp4";
    h.how = strf("scale %u wide %u deep %u", (unsigned)variant, (unsigned)wide, (unsigned)deep);
    h.scale = true;
}
HostileFile hostileFile(Rng &r, unsigned soundPercent)
{
    HostileFile h;
    if (r.below(500) == 0) { // excessive number of elements
        scaleFile(r, h);
        return h;
    }
    AnyOptions o;
    o.small = r.chance(85);
    h.g = anyFile(r, o);
    h.bytes = h.g.file;
    if (r.chance(soundPercent)) {
        h.how = "sound";
        h.sound = true;
        return h;
    }
    switch (r.below(20)) {
    case 0: { // parts of two files
        AnyOptions o2;
        o2.small = true;
        auto other = anyFile(r, o2);
        auto a = r.below(h.bytes.size() + 1), b = r.below(other.file.size() + 1);
        h.bytes = h.bytes.substr(0, a) + other.file.substr(b);
        h.how = strf("splice %zu %s@%zu", static_cast<std::size_t>(a), other.format.c_str(), static_cast<std::size_t>(b));
        break;
    }
    case 1: { // nothing but a signature
        static const Bytes sigs[] = { Bytes("\x1a\x45\xdf\xa3", 4), "OggS", Bytes("\0\0\0\x18" "ftypisom", 12), "fLaC", "RIFF", Bytes("ID3\x03\0\0", 6), Bytes("ID3\x04\0\x10", 6), Bytes("\xff\xfb\x90\x64", 4), Bytes("\xff\xf1\x50\x80", 4), "DKIF", Bytes("\0\0\0\0moov", 8), Bytes("\0\0\0\1ftyp", 8), "APETAGEX", "FORM", "wvpk", Bytes("0&\xb2\x75\x8e\x66\xcf\x11", 8) };
        h.bytes = r.pick(sigs) + (r.coin() ? r.bytes(r.size(600)) : Bytes(r.size(600), r.pick({ '\0', '\xff', '\x01' })));
        h.how = "signature only";
        break;
    }
    case 2:
        h.bytes.resize(r.below(h.bytes.size() + 1));
        h.how = "truncated";
        break;
    default:
        h.how = mutate(r, h.bytes, r.chance(70) ? 3 : 12);
    }
    if (r.chance(4)) { // prefixes
        h.bytes = (r.coin() ? Bytes(r.size(0x900), '\0') : Bytes("ID3\x04\0\x10\0\0\0\0", 10) + r.bytes(10)) + h.bytes;
        h.how += " prefixed";
    }
    return h;
}
template <class E> static void walk(E *e, std::string &d, unsigned depth, unsigned &budget, T::Diagnostics &diag)
{
    for (; e && budget; e = e->nextSibling()) {
        --budget;
        try {
            e->parse(diag);
        } catch (const T::Failure &) {
            d += " !";
            return;
        } catch (const std::ios_base::failure &) {
            d += " !!";
            return;
        }
        d += strf("%u:%s@%llu+%u+%llu ", depth, e->idToString().c_str(), (unsigned long long)e->startOffset(), e->headerSize(), (unsigned long long)e->dataSize());
        if (depth < 12)
            walk(e->firstChild(), d, depth + 1, budget, diag);
    }
}
static void touchChapter(T::AbstractChapter *c, std::string &d, unsigned depth)
{
    d += c->label() + strf("%zu", c->nestedChapterCount());
    if (depth < 30)
        for (std::size_t i = 0; i < c->nestedChapterCount(); ++i)
            touchChapter(c->nestedChapter(i), d, depth + 1);
}
std::string inspectAll(T::MediaFileInfo &f, Rng &r)
{
    auto d = dumpAll(f, true);
    T::Diagnostics diag;
    d += f.technicalSummary();
    d += strf(" %f", f.overallAverageBitrate());
    for (auto t : { T::MediaType::Audio, T::MediaType::Video, T::MediaType::Text }) {
        for (auto &l : f.availableLanguages(t))
            d += l;
        d += f.hasTracksOfType(t) ? 'y' : 'n';
    }
    d += strf("%d%d%d%d%d%d", f.areTagsSupported(), f.areTracksSupported(), f.areChaptersSupported(), f.areAttachmentsSupported(), f.hasId3v1Tag(), f.hasId3v2Tag());
    d += f.containerFormatAbbreviation();
    for (auto *c : f.chapters())
        touchChapter(c, d, 0);
    for (auto *t : f.tags()) {
        d += t->toString();
        for (auto k = T::firstKnownField; k != T::KnownField::Invalid; k = T::nextKnownField(k)) {
            if (!t->supportsField(k))
                continue;
            auto vs = t->values(k);
            d += strf("%zu%d", vs.size(), t->hasField(k));
            for (auto *v : vs) {
                try {
                    d += v->toDisplayString();
                } catch (const T::Failure &) {
                } catch (const CppUtilities::ConversionException &) {
                }
            }
        }
    }
    for (auto *t : f.tracks()) {
        (d += t->label()) += t->description(); d += t->shortDescription(); d += t->formatName();
        if (t->type() == T::TrackType::Mp4Track) {
            auto *m = static_cast<T::Mp4Track *>(t);
            if (auto *i = m->mpeg4ElementaryStreamInfo())
                d += strf("%u%d", i->objectTypeId, (int)i->streamTypeId());
            if (auto *a = m->avcConfiguration())
                d += strf("avc%zu,%zu", a->spsInfos.size(), a->ppsInfos.size());
            try {
                d += strf("co%zu", m->readChunkOffsets(r.coin(), diag).size());
            } catch (const T::Failure &) {
            } catch (const std::ios_base::failure &) {
            }
            try {
                d += strf("sc%zu", m->readSampleToChunkTable(diag).size());
            } catch (const T::Failure &) {
            } catch (const std::ios_base::failure &) {
            }
            try {
                d += strf("cs%zu", m->readChunkSizes(diag).size());
            } catch (const T::Failure &) {
            } catch (const std::ios_base::failure &) {
            }
        }
    }
    if (auto *c = f.container()) {
        unsigned budget = 3000;
        try {
            d += strf("pos%d%d", (int)c->determineTagPosition(diag), (int)c->determineIndexPosition(diag));
        } catch (const T::Failure &) {
        } catch (const std::ios_base::failure &) {
        }
        switch (f.containerFormat()) {
        case T::ContainerFormat::Mp4:
        case T::ContainerFormat::QuickTime:
            walk(static_cast<T::Mp4Container *>(c)->firstElement(), d, 0, budget, diag);
            break;
        case T::ContainerFormat::Matroska:
        case T::ContainerFormat::Webm:
        case T::ContainerFormat::Ebml:
            walk(static_cast<T::MatroskaContainer *>(c)->firstElement(), d, 0, budget, diag);
            break;
        default:;
        }
    }
    return d;
}
std::string exercise(T::MediaFileInfo &f, Rng &r, bool edit, const CallFn &call)
{
    std::string d;
    auto n = r.range(2, 9);
    call("parseContainerFormat", [&](auto &diag, auto &p) { f.parseContainerFormat(diag, p); });
    for (std::uint64_t i = 0; i < n; ++i) {
        auto op = i + 1 == n ? 0 : r.below(edit ? 16 : 10);
        d += strf("%llu ", (unsigned long long)op);
        switch (op) {
        case 0:
        case 1:
            call("parseEverything", [&](auto &diag, auto &p) { f.parseEverything(diag, p); });
            break;
        case 2:
            call("parseTracks", [&](auto &diag, auto &p) { f.parseTracks(diag, p); });
            break;
        case 3:
            call("parseTags", [&](auto &diag, auto &p) { f.parseTags(diag, p); });
            break;
        case 4:
            call("parseChapters", [&](auto &diag, auto &p) { f.parseChapters(diag, p); });
            break;
        case 5:
            call("parseAttachments", [&](auto &diag, auto &p) { f.parseAttachments(diag, p); });
            break;
        case 6:
            d += strf("(%zu) ", inspectAll(f, r).size());
            break;
        case 7:
            f.clearParsingResults();
            f.setForceFullParse(r.coin());
            call("parseContainerFormat", [&](auto &diag, auto &p) { f.parseContainerFormat(diag, p); });
            break;
        case 8:
            if (auto *c = f.container(); c && r.coin()) {
                if (f.containerFormat() == T::ContainerFormat::Mp4)
                    call("validateElementStructure", [&](auto &diag, auto &p) { static_cast<T::Mp4Container *>(c)->validateElementStructure(diag, p); });
                else if (f.containerFormat() == T::ContainerFormat::Matroska || f.containerFormat() == T::ContainerFormat::Webm) {
                    call("validateElementStructure", [&](auto &diag, auto &p) { static_cast<T::MatroskaContainer *>(c)->validateElementStructure(diag, p); });
                    call("validateIndex", [&](auto &diag, auto &p) { static_cast<T::MatroskaContainer *>(c)->validateIndex(diag, p); });
                }
            }
            break;
        case 9:
            if (r.coin())
                call("reopen", [&](auto &, auto &) { f.reopen(r.coin()); });
            else {
                call("close", [&](auto &, auto &) { f.close(); f.open(r.coin()); });
            }
            // results refer to the previous stream's position only; parse anew
            f.clearParsingResults();
            call("parseContainerFormat", [&](auto &diag, auto &p) { f.parseContainerFormat(diag, p); });
            break;
        case 10: {
            T::TagCreationSettings s;
            if (r.chance(30))
                s.flags |= T::TagCreationFlags::TreatUnknownFilesAsMp3Files;
            if (r.chance(30))
                s.flags |= T::TagCreationFlags::MergeMultipleSuccessiveId3v2Tags;
            s.id3v1usage = r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting, T::TagUsage::Never });
            s.id3v2usage = r.pick({ T::TagUsage::Always, T::TagUsage::KeepExisting, T::TagUsage::Never });
            s.id3v2MajorVersion = static_cast<std::uint8_t>(r.range(2, 4));
            f.createAppropriateTags(s);
            break;
        }
        case 11:
        case 12:
            d += randomEdit(r, f);
            break;
        case 13: {
            auto tags = f.tags();
            if (tags.size() > 1 && r.coin())
                tags[0]->insertValues(*tags[1], r.coin());
            else if (!tags.empty() && r.chance(30))
                f.removeTag(tags[r.below(tags.size())]);
            else
                f.mergeId3v2Tags();
            break;
        }
        case 14:
            if (auto *c = f.container()) {
                for (std::size_t k = 0; k < c->trackCount(); ++k) {
                    auto *t = c->track(k);
                    if (r.coin())
                        t->setName(randomText(r, 60));
                    if (r.coin())
                        t->setLocale(T::Locale(std::string_view("deu"), T::LocaleFormat::ISO_639_2_T));
                    if (r.chance(30))
                        t->setEnabled(r.coin());
                }
                if (c->supportsTitle() && r.coin() && !c->titles().empty())
                    c->setTitle(randomText(r, 40), r.below(c->titles().size()));
                if (f.areAttachmentsSupported() && c->attachmentCount() && r.chance(30))
                    c->attachment(r.below(c->attachmentCount()))->setIgnored(r.coin());
                if (c->trackCount() > 1 && r.chance(15))
                    c->removeTrack(c->track(r.below(c->trackCount())));
            }
            break;
        case 15:
            if (r.chance(30))
                f.removeAllTags();
            else if (r.coin())
                f.id3v2ToId3v1();
            else
                f.id3v1ToId3v2();
            break;
        }
    }
    return d;
}
}
