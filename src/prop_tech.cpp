// C23: technical information reported matches the stream.
#include "bytes.h"
#include "lib.h"
#include "mkvfmt.h"
#include "mp4fmt.h"
#include "oggfmt.h"
#include "rawfmt.h"
#include <tagparser/adts/adtsstream.h>
#include <tagparser/aspectratio.h>
#include <tagparser/matroska/matroskachapter.h>
#include <tagparser/matroska/matroskaeditionentry.h>
#include <tagparser/mediaformat.h>
#include <tagparser/mpegaudio/mpegaudioframe.h>
#include <c++utilities/io/binaryreader.h>
#include <sstream>
#include <cmath>
#include <functional>
#include <set>
namespace tp {
namespace {
using G = T::GeneralMediaFormat;
namespace S = T::SubFormats;

// what is expected of a track; unset: not judged
struct Want {
    std::optional<std::uint64_t> id, number, samples, size, channels, bits, rate, extRate, pixW, pixH, dispW, dispH, fps, timeScale, cropL, cropR, cropT, cropB, sarN, sarD, depth;
    std::optional<std::string> name, lang, bcp, formatId, chroma, compressor;
    std::optional<G> format;
    std::optional<unsigned> sub, ext;
    std::optional<double> duration, bitrate, maxBitrate, version;
    std::optional<T::MediaType> media;
    std::optional<bool> enabled, def, forced, lacing, interlaced, presentation, preview;
    std::optional<std::uint64_t> creation, modification; // seconds since 1904
};
struct Chapter {
    std::uint64_t id = 0, start = 0, end = 0; // ns
    bool hidden = false, enabled = true;
    std::vector<std::uint64_t> tracks;
    std::vector<std::pair<std::string, std::vector<std::string>>> names; // text and languages/countries
    std::vector<Chapter> nested;
};
struct Edition {
    std::uint64_t id = 0;
    bool hidden = false, def = false, ordered = false;
    std::vector<Chapter> chapters;
};
struct File {
    std::vector<Edition> editions;
    Bytes data;
    std::string kind, name;
    T::ContainerFormat container = T::ContainerFormat::Unknown;
    std::vector<Want> tracks;
    std::optional<double> duration;
    std::optional<std::string> docType, title, muxer, writer;
    std::optional<std::uint64_t> timeScale, creation, modification; // since 1904
    struct Frame {
        std::uint64_t layer, mode, rate, kbps, samples, size, flags, frames, bytes, quality, padding;
        bool crc, xing, copyright, original;
        double version;
    };
    std::optional<Frame> frame; // first MPEG audio frame
    std::size_t frameOffset = 0;
    std::optional<double> version;
};
bool near(double a, double b, double tol)
{
    return std::fabs(a - b) <= tol + 1e-9 * std::fabs(b);
}
struct Checker {
    Ctx &c;
    const std::string &kind;
    unsigned n = 0;
    template <class A, class B> void num(const char *what, A got, const std::optional<B> &want)
    {
        if (!want)
            return;
        ++n;
        if (static_cast<std::uint64_t>(got) != static_cast<std::uint64_t>(*want))
            c.fail(kind + "-" + what, strf("%s: %s reported as %llu, stream says %llu", kind.c_str(), what, static_cast<unsigned long long>(got), static_cast<unsigned long long>(*want)));
    }
    void str(const char *what, std::string_view got, const std::optional<std::string> &want)
    {
        if (!want)
            return;
        ++n;
        if (got != *want)
            c.fail(kind + "-" + what, kind + ": " + what + " reported as " + quote(got) + ", stream says " + quote(*want));
    }
    void flt(const char *what, double got, const std::optional<double> &want, double tol)
    {
        if (!want)
            return;
        ++n;
        if (!near(got, *want, tol))
            c.fail(kind + "-" + what, strf("%s: %s reported as %.9g, stream says %.9g", kind.c_str(), what, got, *want));
    }
};
const CppUtilities::DateTime &epoch1904()
{
    static const auto e = CppUtilities::DateTime::fromDate(1904, 1, 1);
    return e;
}
void checkTrack(Checker &k, T::AbstractTrack &t, const Want &w)
{
    k.num("id", t.id(), w.id);
    k.num("number", t.trackNumber(), w.number);
    k.num("samplecount", t.sampleCount(), w.samples);
    k.num("size", t.size(), w.size);
    k.num("channels", t.channelCount(), w.channels);
    k.num("bits", t.bitsPerSample(), w.bits);
    k.num("samplingfrequency", t.samplingFrequency(), w.rate);
    k.num("extsamplingfrequency", t.extensionSamplingFrequency(), w.extRate);
    k.num("width", t.pixelSize().width(), w.pixW);
    k.num("height", t.pixelSize().height(), w.pixH);
    k.num("dispwidth", t.displaySize().width(), w.dispW);
    k.num("dispheight", t.displaySize().height(), w.dispH);
    k.num("fps", t.fps(), w.fps);
    k.num("timescale", t.timeScale(), w.timeScale);
    k.num("cropleft", t.cropping().left(), w.cropL);
    k.num("cropright", t.cropping().right(), w.cropR);
    k.num("croptop", t.cropping().top(), w.cropT);
    k.num("cropbottom", t.cropping().bottom(), w.cropB);
    k.num("sarnum", t.pixelAspectRatio().numerator, w.sarN);
    k.num("sarden", t.pixelAspectRatio().denominator, w.sarD);
    k.num("depth", t.depth(), w.depth);
    k.str("name", t.name(), w.name);
    if (w.lang || w.bcp) {
        std::string iso, bcp;
        for (const auto &l : t.locale()) {
            if (l.format == T::LocaleFormat::BCP_47)
                bcp = l;
            else
                iso = l;
        }
        k.str("language", iso, w.lang);
        k.str("ietflanguage", bcp, w.bcp);
    }
    k.str("formatid", t.formatId(), w.formatId);
    k.str("chroma", t.chromaFormat(), w.chroma);
    k.str("compressor", t.compressorName(), w.compressor);
    k.num("format", t.format().general, w.format);
    k.num("subformat", t.format().sub, w.sub);
    k.num("formatext", t.format().extension, w.ext);
    k.flt("duration", t.duration().totalSeconds(), w.duration, 3e-7);
    k.flt("bitrate", t.bitrate(), w.bitrate, w.bitrate ? *w.bitrate * (1e-4 + (w.duration && *w.duration > 0 ? 3e-7 / *w.duration : 0)) : 0);
    k.flt("maxbitrate", t.maxBitrate(), w.maxBitrate, 1e-6);
    k.flt("version", t.version(), w.version, 1e-9);
    k.num("mediatype", t.mediaType(), w.media);
    k.num("enabled", t.isEnabled(), w.enabled);
    k.num("default", t.isDefault(), w.def);
    k.num("forced", t.isForced(), w.forced);
    k.num("lacing", t.hasLacing(), w.lacing);
    k.num("interlaced", t.isInterlaced(), w.interlaced);
    k.num("used-in-presentation", bool(t.flags() & T::TrackFlags::UsedInPresentation), w.presentation);
    k.num("used-in-preview", bool(t.flags() & T::TrackFlags::UsedWhenPreviewing), w.preview);
    if (w.creation)
        k.flt("creation", (t.creationTime() - epoch1904()).totalSeconds(), static_cast<double>(*w.creation), 1e-3);
    if (w.modification)
        k.flt("modification", (t.modificationTime() - epoch1904()).totalSeconds(), static_cast<double>(*w.modification), 1e-3);
}
void checkChapter(Checker &k, const T::AbstractChapter &g, const Chapter &w)
{
    k.num("chapter-id", g.id(), std::optional(w.id));
    k.num("chapter-start", g.startTime().totalTicks(), std::optional(w.start / 100));
    if (w.end || !g.endTime().isNegative()) // negative: not specified
        k.num("chapter-end", g.endTime().totalTicks(), std::optional(w.end / 100));
    k.num("chapter-hidden", g.isHidden(), std::optional(w.hidden));
    k.num("chapter-enabled", g.isEnabled(), std::optional(w.enabled));
    std::string a, b;
    for (auto t : g.tracks())
        a += strf(" %llu", static_cast<unsigned long long>(t));
    for (auto t : w.tracks)
        b += strf(" %llu", static_cast<unsigned long long>(t));
    k.str("chapter-tracks", a, std::optional(b));
    a.clear(), b.clear();
    for (auto &n : g.names()) {
        a += n + " [";
        for (auto &d : n.locale())
            a += std::to_string(static_cast<unsigned>(d.format)) + d + " ";
        a += "] ";
    }
    for (auto &[n, langs] : w.names) {
        b += n + " [";
        for (auto &d : langs)
            b += d + " ";
        b += "] ";
    }
    k.str("chapter-names", a, std::optional(b));
    k.num("chapter-nested", g.nestedChapterCount(), std::optional(w.nested.size()));
    for (std::size_t i = 0; i < g.nestedChapterCount() && i < w.nested.size(); ++i)
        checkChapter(k, *g.nestedChapter(i), w.nested[i]);
}
void check(Ctx &c, const File &f)
{
    auto path = c.path(f.name);
    writeFile(path, f.data);
    c.artifact(f.name, f.data.size() < 400000 ? f.data : Bytes());
    Media m(path);
    if (c.rng.chance(20))
        m.info.setForceFullParse(true);
    auto r = m.parse();
    if (r.outcome != Outcome::Ok)
        c.failNow(f.kind + "-parse", "parsing failed: " + r.what + " " + r.diagText());
    Checker k{ c, f.kind };
    k.num("container", m.info.containerFormat(), std::optional(f.container));
    if (f.frame && f.kind == "mp3") {
        std::istringstream s(f.data.substr(f.frameOffset));
        CppUtilities::BinaryReader reader(&s);
        T::MpegAudioFrame frame;
        T::Diagnostics d;
        frame.parseHeader(reader, d);
        auto &w = *f.frame;
        auto n = [&](const char *what, auto got, auto want) { k.num(what, got, std::optional(want)); };
        n("frame-layer", frame.layer(), w.layer);
        n("frame-mode", frame.channelMode(), w.mode);
        n("frame-rate", frame.samplingFrequency(), w.rate);
        n("frame-bitrate", frame.bitrate(), w.kbps);
        n("frame-samples", frame.sampleCount(), w.samples);
        n("frame-size", frame.size(), w.size);
        n("frame-padding", frame.paddingSize(), w.padding);
        n("frame-crc", frame.isProtectedByCrc(), w.crc);
        n("frame-copyright", frame.hasCopyright(), w.copyright);
        n("frame-original", frame.isOriginal(), w.original);
        n("frame-xing", frame.isXingHeaderAvailable(), w.xing);
        n("frame-xingflags", frame.xingHeaderFlags(), w.flags);
        n("frame-xingframes", frame.xingFrameCount(), w.frames);
        n("frame-xingbytes", frame.xingBytesfield(), w.bytes);
        n("frame-xingquality", frame.xingQualityIndicator(), w.quality);
        k.flt("frame-version", frame.mpegVersion(), std::optional(w.version), 0);
    }
    if (f.duration && *f.duration > 1e-5)
        k.flt("overallbitrate", m.info.overallAverageBitrate(), std::optional(static_cast<double>(f.data.size()) * 8 / 1000 / m.info.duration().totalSeconds()), 1e-6);
    auto tracks = m.info.tracks();
    k.num("trackcount", tracks.size(), std::optional(f.tracks.size()));
    k.num("trackcount", m.info.trackCount(), std::optional(f.tracks.size()));
    k.flt("fileduration", m.info.duration().totalSeconds(), f.duration, 3e-7);
    if (const T::AbstractContainer *ct = m.info.container()) {
        k.str("doctype", ct->documentType(), f.docType);
        k.num("containertimescale", ct->timeScale(), f.timeScale);
        if (f.creation)
            k.flt("filecreation", (ct->creationTime() - epoch1904()).totalSeconds(), static_cast<double>(*f.creation), 1e-3);
        if (f.modification)
            k.flt("filemodification", (ct->modificationTime() - epoch1904()).totalSeconds(), static_cast<double>(*f.modification), 1e-3);
        if (f.title)
            k.str("title", ct->titles().empty() ? std::string() : ct->titles().front(), f.title);
        if (f.muxer)
            k.str("muxer", ct->muxingApplications().empty() ? std::string() : ct->muxingApplications().front(), f.muxer);
        if (f.writer)
            k.str("writer", ct->writingApplications().empty() ? std::string() : ct->writingApplications().front(), f.writer);
        k.flt("docversion", static_cast<double>(ct->doctypeVersion()), f.version, 0);
    }
    if (f.kind == "mkv") {
        if (m.info.chaptersParsingStatus() != T::ParsingStatus::Ok && !f.editions.empty())
            c.fail("mkv-chapters-status", "chapters not parsed: " + r.diagText());
        const auto &eds = static_cast<T::MatroskaContainer *>(m.info.container())->editionEntires();
        k.num("editioncount", eds.size(), std::optional(f.editions.size()));
        std::size_t total = 0;
        for (std::size_t i = 0; i < eds.size() && i < f.editions.size(); ++i) {
            auto &w = f.editions[i];
            auto &e = *eds[i];
            k.num("edition-id", e.id(), std::optional(w.id));
            k.num("edition-hidden", e.isHidden(), std::optional(w.hidden));
            k.num("edition-default", e.isDefault(), std::optional(w.def));
            k.num("edition-ordered", e.isOrdered(), std::optional(w.ordered));
            k.num("chaptercount", e.chapters().size(), std::optional(w.chapters.size()));
            for (std::size_t j = 0; j < e.chapters().size() && j < w.chapters.size(); ++j) {
                checkChapter(k, *e.chapters()[j], w.chapters[j]);
                auto *flat = m.info.container()->chapter(total + j);
                k.num("chapter-by-index", flat == e.chapters()[j].get(), std::optional(true));
            }
            total += w.chapters.size();
        }
        k.num("chapters-total", m.info.container()->chapterCount(), std::optional(total));
        k.num("chapters-total", m.info.chapters().size(), std::optional(total));
        if (total)
            c.cover("chapters");
    }
    for (std::size_t i = 0; i < tracks.size() && i < f.tracks.size(); ++i)
        checkTrack(k, *tracks[i], f.tracks[i]);
    for (auto media : { T::MediaType::Audio, T::MediaType::Video, T::MediaType::Text }) {
        bool want = false, known = true;
        for (const auto &t : f.tracks) {
            known &= t.media.has_value();
            want |= t.media == media;
        }
        if (known)
            k.num("hastracksoftype", m.info.hasTracksOfType(media), std::optional(want));
    }
    if (!f.tracks.empty())
        c.nontrivial = true;
    c.count("facts compared", k.n);
    c.count("tracks compared", f.tracks.size());
    c.mix(f.data);
    if (!c.failures.empty())
        c.note(" diag: " + r.diagText());
}

// --- bits
struct Bits {
    Bytes b;
    unsigned n = 0;
    void u(std::uint64_t v, unsigned bits)
    {
        for (; bits; --bits, ++n) {
            if (n % 8 == 0)
                b += '\0';
            if ((v >> (bits - 1)) & 1)
                b.back() = static_cast<char>(b.back() | (0x80 >> (n % 8)));
        }
    }
    void ue(std::uint64_t v)
    {
        ++v;
        unsigned len = 0;
        while (v >> (len + 1))
            ++len;
        u(0, len);
        u(v, len + 1);
    }
    void se(std::int64_t v)
    {
        ue(v > 0 ? 2 * static_cast<std::uint64_t>(v) - 1 : 2 * static_cast<std::uint64_t>(-v));
    }
    void trail()
    {
        u(1, 1);
        while (n % 8)
            u(0, 1);
    }
};
struct Avc {
    Bytes config;
    unsigned profile = 0, level = 0, chroma = 1, cropL = 0, cropR = 0, cropT = 0, cropB = 0, sarN = 0, sarD = 0;
    std::uint64_t w = 0, h = 0;
};
Bytes escapeNal(const Bytes &rbsp)
{
    Bytes out;
    unsigned zeros = 0;
    for (auto ch : rbsp) {
        if (zeros >= 2 && static_cast<unsigned char>(ch) <= 3) {
            out += '\3';
            zeros = 0;
        }
        zeros = ch ? 0 : zeros + 1;
        out += ch;
    }
    return out;
}
void hrd(Rng &r, Bits &b)
{
    auto n = r.below(3);
    b.ue(n);
    b.u(r.below(16), 4), b.u(r.below(16), 4);
    for (std::uint64_t i = 0; i <= n; ++i)
        b.ue(r.size(5000000)), b.ue(r.size(5000000)), b.u(r.below(2), 1);
    b.u(r.below(32), 5), b.u(r.below(32), 5), b.u(r.below(32), 5), b.u(r.below(32), 5);
}
Bytes sps(Rng &r, Avc &a)
{
    Bits b;
    b.u(0x67, 8);
    a.profile = r.pick({ 66u, 77u, 88u, 100u, 100u, 110u, 122u, 244u, 44u, 118u, 128u });
    a.level = r.pick({ 10u, 11u, 20u, 30u, 31u, 40u, 41u, 50u, 52u });
    b.u(a.profile, 8), b.u(r.below(64) << 2, 8), b.u(a.level, 8);
    b.ue(r.below(4)); // id
    a.chroma = 1;
    static const std::set<unsigned> high{ 100, 110, 122, 244, 44, 118, 128 };
    bool separate = false;
    if (high.count(a.profile)) {
        b.ue(a.chroma = static_cast<unsigned>(r.below(4)));
        if (a.chroma == 3)
            b.u(separate = r.coin(), 1);
        b.ue(r.below(7)), b.ue(r.below(7)), b.u(r.below(2), 1);
        bool matrix = r.chance(40);
        b.u(matrix, 1);
        if (matrix)
            for (unsigned i = 0; i < (a.chroma == 3 ? 12u : 8u); ++i) {
                bool present = r.coin();
                b.u(present, 1);
                if (!present)
                    continue;
                int last = 8, next = 8;
                for (unsigned j = 0, n = i < 6 ? 16 : 64; j < n; ++j) {
                    if (next) {
                        int target = r.chance(5) ? 0 : static_cast<int>(r.range(1, 255));
                        int delta = target - last;
                        if (delta > 127)
                            delta -= 256;
                        if (delta < -128)
                            delta += 256;
                        b.se(delta);
                        next = (last + delta + 256) % 256;
                    }
                    last = next ? next : last;
                }
            }
    }
    b.ue(r.below(13));
    auto poc = r.below(3);
    b.ue(poc);
    if (poc == 0)
        b.ue(r.below(13));
    else if (poc == 1) {
        b.u(r.below(2), 1), b.se(static_cast<std::int64_t>(r.below(2000)) - 1000), b.se(static_cast<std::int64_t>(r.below(2000)) - 1000);
        auto n = r.chance(10) ? 255 : r.below(5);
        b.ue(n);
        for (unsigned i = 0; i < n; ++i)
            b.se(static_cast<std::int64_t>(r.below(200)) - 100);
    }
    b.ue(r.below(17)), b.u(r.below(2), 1);
    auto mbw = r.range(2, 260), mbh = r.range(2, 140);
    b.ue(mbw - 1), b.ue(mbh - 1);
    bool frameOnly = r.chance(70);
    b.u(frameOnly, 1);
    if (!frameOnly)
        b.u(r.below(2), 1);
    b.u(1, 1);
    auto cx = !separate && (a.chroma == 1 || a.chroma == 2) ? 2u : 1u, cy = (!separate && a.chroma == 1 ? 2u : 1u) * (frameOnly ? 1u : 2u);
    bool crop = r.chance(60);
    b.u(crop, 1);
    if (crop) {
        a.cropL = static_cast<unsigned>(r.below(5)), a.cropR = static_cast<unsigned>(r.below(5)), a.cropT = static_cast<unsigned>(r.below(4)), a.cropB = static_cast<unsigned>(r.below(4));
        b.ue(a.cropL), b.ue(a.cropR), b.ue(a.cropT), b.ue(a.cropB);
    }
    a.w = mbw * 16 - cx * (a.cropL + a.cropR);
    a.h = mbh * 16 * (frameOnly ? 1 : 2) - cy * (a.cropT + a.cropB);
    bool vui = r.chance(70);
    b.u(vui, 1);
    if (vui) {
        bool ar = r.chance(70);
        b.u(ar, 1);
        if (ar) {
            static const unsigned sars[][2] = { { 0, 0 }, { 1, 1 }, { 12, 11 }, { 10, 11 }, { 16, 11 }, { 40, 33 }, { 24, 11 }, { 20, 11 }, { 32, 11 }, { 80, 33 }, { 18, 11 }, { 15, 11 }, { 64, 33 }, { 160, 99 }, { 4, 3 }, { 3, 2 }, { 2, 1 } };
            auto i = r.chance(30) ? 255u : static_cast<unsigned>(r.below(17));
            b.u(i, 8);
            if (i == 255) {
                b.u(a.sarN = static_cast<unsigned>(r.range(1, 65535)), 16), b.u(a.sarD = static_cast<unsigned>(r.range(1, 65535)), 16);
            } else
                a.sarN = sars[i][0], a.sarD = sars[i][1];
        }
        bool x = r.coin();
        b.u(x, 1);
        if (x)
            b.u(r.below(2), 1);
        b.u(x = r.coin(), 1);
        if (x) {
            b.u(r.below(16), 4);
            b.u(x = r.coin(), 1);
            if (x)
                b.u(r.below(1 << 24), 24);
        }
        b.u(x = r.coin(), 1);
        if (x)
            b.ue(r.below(6)), b.ue(r.below(6));
        b.u(x = r.coin(), 1);
        if (x)
            b.u(r.pick({ 1u, 1001u, 0x10000u, 0x1000000u }), 32), b.u(r.pick({ 50u, 60000u, 0x200u }), 32), b.u(r.below(2), 1);
        bool nal = r.chance(30), vcl = r.chance(20);
        b.u(nal, 1);
        if (nal)
            hrd(r, b);
        b.u(vcl, 1);
        if (vcl)
            hrd(r, b);
        if (nal || vcl)
            b.u(r.below(2), 1);
        b.u(r.below(2), 1);
        b.u(x = r.coin(), 1);
        if (x)
            b.u(1, 1), b.ue(r.below(17)), b.ue(r.below(17)), b.ue(r.below(17)), b.ue(r.below(17)), b.ue(r.below(4)), b.ue(r.range(4, 16));
    }
    b.trail();
    return escapeNal(b.b);
}
Avc makeAvc(Rng &r)
{
    Avc a;
    auto n = r.chance(15) ? r.range(1, 3) : 1;
    W w;
    std::vector<Bytes> all;
    for (unsigned i = 0; i < n; ++i)
        a = Avc(), all.push_back(sps(r, a)); // the last one counts
    w.u8(1).u8(a.profile).u8(0).u8(a.level).u8(0xFF).u8(0xE0 | n);
    for (auto &s : all)
        w.be16(s.size()).s(s);
    auto p = r.below(3);
    w.u8(p);
    for (unsigned i = 0; i < p; ++i) {
        Bits b;
        b.u(0x68, 8), b.ue(r.below(4)), b.ue(r.below(4)), b.u(r.below(2), 1), b.u(r.below(2), 1), b.ue(0), b.ue(r.below(4)), b.ue(r.below(4)), b.u(0, 1), b.u(0, 2), b.se(0), b.se(0), b.se(-2), b.u(7, 3), b.trail();
        auto e = escapeNal(b.b);
        w.be16(e.size()).s(e);
    }
    if (r.coin() && (a.profile == 100 || a.profile == 110 || a.profile == 122))
        w.u8(0xFC | a.chroma).u8(0xF8).u8(0xF8).u8(0);
    a.config = w.b;
    return a;
}
struct Asc {
    Bytes config;
    unsigned sub = 0, ext = 0, rate = 0, extRate = 0, channels = 0, chanConfig = 0;
};
Asc makeAsc(Rng &r)
{
    static const unsigned rates[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
    Asc a;
    Bits b;
    static const std::pair<unsigned, unsigned> objs[] = { { 1, S::AacMpeg4MainProfile }, { 2, S::AacMpeg4LowComplexityProfile }, { 2, S::AacMpeg4LowComplexityProfile }, { 4, S::AacMpeg4LongTermPrediction }, { 17, S::AacMpeg4ERLowComplecityProfile }, { 19, S::AacMpeg4ERLongTermPrediction }, { 23, S::AacMpeg4ERLowDelay } };
    auto [obj, sub] = r.pick(objs);
    a.sub = sub;
    a.chanConfig = static_cast<unsigned>(r.range(1, 7));
    a.channels = a.chanConfig == 7 ? 8 : a.chanConfig;
    auto rate = [&](unsigned &out) {
        if (r.chance(12)) {
            b.u(15, 4);
            b.u(out = static_cast<unsigned>(r.range(7000, 192000)), 24);
        } else {
            auto i = r.below(13);
            b.u(i, 4);
            out = rates[i];
        }
    };
    bool hier = obj == 2 && r.chance(30);
    if (hier) {
        bool ps = a.chanConfig == 1 && r.coin();
        b.u(ps ? 29 : 5, 5);
        rate(a.rate);
        b.u(a.chanConfig, 4);
        rate(a.extRate);
        b.u(obj, 5);
        a.ext = ps ? 3 : 1;
    } else {
        b.u(obj, 5);
        rate(a.rate);
        b.u(a.chanConfig, 4);
    }
    b.u(r.below(2), 1); // frame length
    bool dep = r.chance(15);
    b.u(dep, 1);
    if (dep)
        b.u(r.below(1 << 14), 14);
    bool er = obj >= 17;
    bool extFlag = er;
    b.u(extFlag, 1);
    if (extFlag)
        b.u(r.below(8), 3), b.u(0, 1);
    if (er)
        b.u(0, 2); // epConfig
    if (!hier && obj == 2 && r.chance(35)) {
        b.u(0x2B7, 11), b.u(5, 5);
        bool sbr = r.chance(80);
        b.u(sbr, 1);
        if (sbr) {
            rate(a.extRate);
            a.ext = 1;
            if (a.chanConfig == 1 && r.coin()) {
                bool ps = r.coin();
                b.u(0x548, 11), b.u(ps, 1);
                if (ps)
                    a.ext = 3;
            }
        }
    }
    a.config = b.b;
    return a;
}

// --- files
File mp3(Rng &r)
{
    static const unsigned br[5][15] = { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 }, { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384 }, { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 },
        { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 } };
    static const unsigned rates[] = { 44100, 48000, 32000 };
    File f;
    f.name = "a.mp3", f.container = T::ContainerFormat::MpegAudioFrames;
    auto version = r.pick({ 1u, 1u, 2u, 3u }); // 3: 2.5
    auto layer = r.pick({ 1u, 2u, 3u, 3u, 3u });
    auto si = r.below(3), mode = r.below(4);
    auto bi = r.range(1, 14);
    auto rate = rates[si] / (version == 1 ? 1 : version == 2 ? 2 : 4);
    bool crc = r.chance(25), copyright = r.coin(), original = r.coin();
    if (version == 1 && layer == 1)
        crc = false; // the bytes FF FE are taken for an UTF-16 byte order mark
    auto table = [&]() -> const unsigned * { return version == 1 ? br[layer - 1] : layer == 1 ? br[3] : br[4]; };
    unsigned spf = layer == 1 ? 384 : layer == 3 && version != 1 ? 576 : 1152;
    auto frameLen = [&](unsigned kbps, bool pad) { return layer == 1 ? (12000u * kbps / rate + pad) * 4u : spf / 8 * 1000u * kbps / rate + pad; };
    auto header = [&](std::uint64_t b, bool pad) {
        return W().u8(0xFF).u8(0xE0 | (version == 1 ? 3 : version == 2 ? 2 : 0) << 3 | (4 - layer) << 1 | (crc ? 0 : 1)).u8(b << 4 | si << 2 | (pad ? 2 : 0)).u8(mode << 6 | (copyright ? 8 : 0) | (original ? 4 : 0)).b;
    };
    unsigned side = version == 1 ? (mode == 3 ? 17 : 32) : (mode == 3 ? 9 : 17);
    bool xing = layer == 3 && r.chance(60);
    unsigned flags = xing ? static_cast<unsigned>(r.below(16)) : 0;
    Bytes first;
    if (xing) {
        while (frameLen(table()[bi], false) < 4 + 2 + side + 8 + 12 + 100 + 4 && bi < 14)
            ++bi;
        if (frameLen(table()[bi], false) < 4 + 2 + side + 8 + 12 + 100 + 4)
            xing = false, flags = 0;
    }
    auto n = r.range(1, 40);
    Bytes audio;
    bool vbr = xing && (flags & 1);
    File::Frame ff{ layer, mode, rate, table()[bi], spf, frameLen(table()[bi], false), 0, 0, 0, 0, 0, crc, false, copyright, original, version == 1 ? 1.0 : version == 2 ? 2.0 : 2.5 };
    for (unsigned i = xing; i < n; ++i) {
        auto b = vbr ? r.range(1, 14) : bi;
        bool pad = r.coin();
        auto h = header(b, pad);
        if (!i) {
            ff.kbps = table()[b], ff.size = frameLen(table()[b], pad);
            ff.padding = pad ? (layer == 1 ? 4 : 1) : 0;
        }
        if (crc)
            h += r.payload(2);
        auto len = frameLen(table()[b], pad);
        if (h.size() < len)
            h += r.payload(len - h.size());
        audio += h;
    }
    auto frames = n - xing;
    std::uint64_t xframes = r.chance(10) ? r.range(1, 30'000'000) : r.range(1, 20000);
    (void)frames;
    if (xing) {
        auto len = frameLen(table()[bi], false);
        first = header(bi, false) + (crc ? r.payload(2) : Bytes());
        W x;
        // the position of the Xing header is counted from the frame header; writers don't protect that frame
        if (crc) {
            first = W().u8(0xFF).u8(static_cast<unsigned char>(first[1]) | 1).s(first.substr(2, 2)).b;
            ff.crc = false;
        }
        x.zero(side).s(r.pick({ "Xing", "Info" })).be32(flags);
        if (flags & 1)
            x.be32(xframes);
        if (flags & 2)
            x.be32(len + audio.size());
        if (flags & 4)
            x.s(r.bytes(100));
        if (flags & 8)
            x.be32(ff.quality = r.below(101));
        ff.xing = true, ff.flags = flags, ff.frames = flags & 1 ? xframes : 0, ff.bytes = flags & 2 ? len + audio.size() : 0;
        first += x.b;
        first += r.coin() ? Bytes(len - first.size(), '\0') : r.payload(len - first.size());
    }
    f.data = first + audio;
    Want w;
    w.version = version == 1 ? 1.0 : version == 2 ? 2.0 : 2.5;
    w.format = G::Mpeg1Audio, w.sub = layer;
    w.channels = mode == 3 ? 1 : 2, w.rate = rate, w.media = T::MediaType::Audio;
    w.size = f.data.size();
    if (flags & 1) {
        w.duration = static_cast<double>(xframes) * spf / rate;
        w.bitrate = static_cast<double>(f.data.size()) * 8 / *w.duration / 1000;
    } else {
        w.bitrate = table()[bi];
        w.duration = static_cast<double>(f.data.size()) / (table()[bi] * 125.0);
    }
    f.duration = w.duration;
    f.kind = "mp3";
    f.tracks.push_back(w);
    if (r.chance(30)) { // tags around
        id3::TOptions to;
        to.maxText = 100;
        auto tag = id3::makeTag(id3::randomTag(r, to));
        f.frameOffset = tag.size();
        f.data = tag + f.data;
    }
    f.frame = ff;
    if (r.chance(30))
        f.data += id3::makeV1(id3::randomV1(r));
    return f;
}
File adts(Rng &r)
{
    static const unsigned rates[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
    File f;
    f.kind = "adts", f.name = "a.aac", f.container = T::ContainerFormat::Adts;
    auto si = r.below(13), ch = r.range(1, 7), mpeg2 = r.below(2), crc = r.below(2);
    auto profile = r.pick({ 0u, 1u, 1u, 2u, 3u });
    if (mpeg2 && profile == 3)
        profile = 1;
    for (unsigned i = 0, n = static_cast<unsigned>(r.range(1, 10)); i < n; ++i) {
        auto len = r.range(12, 8191);
        std::uint64_t h = 0xFFF;
        h = h << 1 | mpeg2, h = h << 2, h = h << 1 | !crc, h = h << 2 | profile, h = h << 4 | si, h = h << 1 | r.below(2), h = h << 3 | ch, h = h << 4 | r.below(16), h = h << 13 | len, h = h << 11 | r.below(2048), h = h << 2;
        f.data += W().be(h, 7).b + r.payload(len - 7);
    }
    if (f.data.size() < 16) // too small to be recognised
        return adts(r);
    Want w;
    w.media = T::MediaType::Audio;
    w.rate = rates[si];
    w.channels = ch == 7 ? 8 : ch;
    w.format = G::Aac;
    static const unsigned m4[] = { S::AacMpeg4MainProfile, S::AacMpeg4LowComplexityProfile, S::AacMpeg4ScalableSamplingRateProfile, S::AacMpeg4LongTermPrediction };
    static const unsigned m2[] = { S::AacMpeg2MainProfile, S::AacMpeg2LowComplexityProfile, S::AacMpeg2ScalableSamplingRateProfile, 0 };
    w.sub = mpeg2 ? m2[profile] : m4[profile];
    f.tracks.push_back(w);
    return f;
}
struct Wave {
    Bytes fmt;
    Want w;
    unsigned align = 1, bps = 0;
    bool mpeg = false;
};
Wave waveFormat(Rng &r, bool acm)
{
    Wave o;
    auto &w = o.w;
    auto tag = r.pick({ 1u, 1u, 3u, 0xFFFEu, 0xFFFEu, acm ? 0x55u : 2u, 2u });
    w.channels = r.range(1, 8), w.rate = r.pick({ 8000u, 11025u, 22050u, 44100u, 48000u, 96000u, 192000u });
    bool flt = tag == 3 || (tag == 0xFFFE && r.coin());
    auto bits = tag == 1 || (tag == 0xFFFE && !flt) ? r.pick({ 8u, 16u, 24u, 32u }) : flt ? r.pick({ 32u, 64u }) : 4u;
    w.bits = bits;
    o.align = static_cast<unsigned>(*w.channels) * std::max(8u, bits) / 8;
    o.bps = static_cast<unsigned>(*w.rate) * o.align;
    W fmt;
    fmt.le16(tag).le16(*w.channels).le32(*w.rate).le32(o.bps).le16(o.align).le16(bits);
    if (tag == 0xFFFE) {
        fmt.le16(22).le16(bits).le32(r.below(0x40000)).le32(flt ? 3 : 1).s(std::string_view("\x00\x00\x10\x00\x80\x00\x00\xAA\x00\x38\x9B\x71", 12));
    } else if (tag == 2 || tag == 0x55) {
        auto ex = r.pick({ 0u, 2u, 12u, 32u });
        fmt.le16(ex).s(r.payload(ex));
    } else if (r.chance(30))
        fmt.le16(0);
    if (tag == 1 || tag == 0xFFFE || tag == 3)
        w.format = G::Pcm, w.sub = flt ? S::PcmFloatIeee : S::PcmIntLe;
    else if (tag == 0x55)
        w.format = G::Mpeg1Audio, w.sub = S::Mpeg1Layer3;
    else if (!acm)
        w.format = G::Unknown;
    o.fmt = fmt.b;
    return o;
}
File wav(Rng &r)
{
    File f;
    f.kind = "wav", f.name = "a.wav", f.container = T::ContainerFormat::RiffWave;
    W b;
    b.s("WAVE");
    auto junk = [&] {
        auto n = r.below(40);
        b.s(r.pick({ "LIST", "JUNK", "fact", "bext" })).le32(n).s(r.payload(n));
        if (n % 2)
            b.u8(0);
    };
    if (r.chance(30))
        junk();
    Want w;
    Bytes data;
    if (r.chance(20)) { // MPEG audio in WAV
        File m;
        do
            m = mp3(r);
        while (m.data.compare(0, 3, "ID3") == 0 || m.data.size() > 1 << 20);
        w = m.tracks[0];
        auto len = *w.size;
        data = m.data.substr(0, len);
        b.s("fmt ").le32(30).le16(*w.sub == 3 ? 0x55 : 0x50).le16(*w.channels).le32(*w.rate).le32(static_cast<std::uint64_t>(*w.bitrate * 125)).le16(1).le16(0).le16(12).s(r.payload(12));
        f.kind = "wavmpeg";
    } else {
        auto o = waveFormat(r, false);
        b.s("fmt ").le32(o.fmt.size()).s(o.fmt);
        w = o.w;
        w.samples = r.below(2000);
        data = r.payload(*w.samples * o.align);
        w.duration = static_cast<double>(*w.samples) / static_cast<double>(*w.rate);
        w.bitrate = o.bps * 8 / 1000.0;
        w.size = data.size();
    }
    for (auto n = r.below(3); n; --n)
        junk();
    b.s("data").le32(data.size()).s(data);
    if (data.size() % 2)
        b.u8(0);
    if (r.chance(30))
        junk();
    w.media = T::MediaType::Audio;
    f.data = "RIFF" + W().le32(b.b.size()).s(b.b).b;
    f.duration = w.duration;
    f.tracks.push_back(w);
    return f;
}
File ivf(Rng &r)
{
    File f;
    f.kind = "ivf", f.name = "a.ivf", f.container = T::ContainerFormat::Ivf;
    W w;
    auto n = r.range(1, 20);
    auto [den, num] = r.pick({ std::pair(25u, 1u), std::pair(30u, 1u), std::pair(30000u, 1001u), std::pair(90000u, 3000u), std::pair(1000u, 40u), std::pair(1000u, 1u) });
    auto [cc, fmt] = r.pick({ std::pair("VP80", G::Vp8), std::pair("VP90", G::Vp9), std::pair("AV01", G::Av1) });
    Want t;
    w.s("DKIF").le16(0).le16(32).s(cc).le16(*(t.pixW = r.range(1, 65535))).le16(*(t.pixH = r.range(1, 65535))).le32(den).le32(num).le32(n).le32(0);
    for (unsigned i = 0; i < n; ++i) {
        auto d = r.payload(r.range(1, 300));
        w.le32(d.size()).le64(i).s(d);
    }
    f.data = w.b;
    t.samples = n, t.formatId = cc, t.format = fmt, t.media = T::MediaType::Video;
    t.duration = static_cast<double>(n) * num / den;
    if (num == 1)
        t.fps = den;
    f.duration = t.duration;
    f.tracks.push_back(t);
    return f;
}
File flac(Rng &r)
{
    File f;
    f.kind = "flac", f.name = "a.flac", f.container = T::ContainerFormat::Flac;
    raw::GOptions o;
    o.format = "flac";
    o.maxStream = 5000;
    auto g = raw::generate(r, o);
    f.data = g.file;
    // arbitrary values in the stream info block
    auto p = f.data.find("fLaC") + 8 + 10;
    Want w;
    w.rate = r.range(1, 655350), w.channels = r.range(1, 8), w.bits = r.range(4, 32), w.samples = r.chance(30) ? r.below(1ull << 36) : r.below(50'000'000);
    wbe(f.data, p, *w.rate << 44 | (*w.channels - 1) << 41 | (*w.bits - 1) << 36 | *w.samples, 8);
    w.format = G::Flac, w.media = T::MediaType::Audio;
    w.duration = static_cast<double>(*w.samples) / static_cast<double>(*w.rate);
    f.duration = w.duration;
    f.tracks.push_back(w);
    return f;
}
File ogg(Rng &r)
{
    File f;
    f.kind = "ogg", f.name = "a.ogg", f.container = T::ContainerFormat::Ogg;
    ogg::GOptions o;
    o.chained = false;
    auto g = ogg::generate(r, o);
    f.data = g.file;
    double longest = 0;
    bool known = true;
    for (const auto &s : g.streams) {
        Want w;
        w.id = s.serial;
        if (s.codec == "vorbis" || s.codec == "opus" || s.codec == "flac") {
            w.media = T::MediaType::Audio;
            w.channels = s.channels, w.rate = s.rate;
            if (s.codec == "flac")
                w.bits = s.bits;
            w.format = s.codec == "vorbis" ? G::Vorbis : s.codec == "opus" ? G::Opus : G::Flac;
        } else if (s.codec == "speex")
            w.format = G::Speex, w.media = T::MediaType::Audio;
        else if (s.codec == "theora")
            w.format = G::Theora, w.media = T::MediaType::Video;
        else
            w.format = G::Unknown;
        if (s.codec == "vorbis" || s.codec == "opus" || s.codec == "flac") {
            auto eff = s.codec == "opus" ? (s.samples > s.preSkip ? s.samples - s.preSkip : 0) : s.samples;
            if (eff) {
                w.samples = eff;
                w.duration = static_cast<double>(eff) / (s.codec == "opus" ? 48000.0 : s.rate);
                longest = std::max(longest, *w.duration);
            } else
                known = false;
        } else
            known = false;
        f.tracks.push_back(w);
    }
    if (known)
        f.duration = longest;
    return f;
}
Bytes full(const char *id, unsigned version, unsigned flags, std::string_view data)
{
    return mp4::atom(id, W().u8(version).be24(flags).s(data).b);
}
Bytes descriptor(Rng &r, unsigned id, std::string_view data)
{
    W w;
    w.u8(id);
    auto len = r.pick({ 1, 1, 4, 2 });
    if (data.size() > 127 && len < 2)
        len = 2;
    for (int i = len - 1; i >= 0; --i)
        w.u8(((data.size() >> (7 * i)) & 0x7F) | (i ? 0x80 : 0));
    return w.s(data).b;
}
Bytes esds(Rng &r, unsigned object, unsigned streamType, std::uint64_t avg, std::uint64_t max, std::string_view specific)
{
    W dc;
    dc.u8(object).u8(streamType << 2 | 1).be24(r.below(100000)).be32(max).be32(avg);
    if (!specific.empty())
        dc.s(descriptor(r, 5, specific));
    W es;
    auto flags = r.chance(20) ? r.below(8) << 5 : 0;
    es.be16(r.below(1000)).u8(flags | r.below(32));
    if (flags & 0x80)
        es.be16(1);
    if (flags & 0x40)
        es.u8(5).s("a:b/c");
    if (flags & 0x20)
        es.be16(2);
    es.s(descriptor(r, 4, dc.b)).s(descriptor(r, 6, "\x02"));
    return full("esds", 0, 0, descriptor(r, 3, es.b));
}
Bytes audioEntry(Rng &r, const char *cc, Want &w, const std::vector<Bytes> &kids, bool allowV1 = true)
{
    W e;
    auto version = allowV1 && r.chance(15) ? r.range(1, 1) : 0;
    e.zero(6).be16(1).be16(version).zero(6).be16(*w.channels).be16(*w.bits).be32(0).be32(*w.rate << 16);
    if (version == 1)
        e.be32(1024).be32(0).be32(0).be32(2);
    for (auto &k : kids)
        e.s(k);
    return mp4::atom(cc, e.b);
}
Bytes videoEntry(Rng &r, const char *cc, Want &w, const std::vector<Bytes> &kids)
{
    static const char *const names[] = { "", "x", "AVC Coding", "exactly thirty-one characters!!" };
    std::string name = r.pick(names);
    w.compressor = name;
    W e;
    e.zero(6).be16(1).zero(16).be16(*w.pixW).be16(*w.pixH).be32(72 << 16).be32(72 << 16).be32(0).be16(1).u8(name.size()).s(name).zero(31 - name.size()).be16(*(w.depth = r.pick({ 24u, 32u }))).be16(0xFFFF);
    for (auto &k : kids)
        e.s(k);
    return mp4::atom(cc, e.b);
}
std::string mp4Lang(Rng &r, std::uint16_t &code)
{
    static const char *const langs[] = { "eng", "ger", "deu", "jpn", "und", "fra", "zho", "qaa", "mis" };
    std::string l = r.pick(langs);
    code = static_cast<std::uint16_t>((l[0] - 0x60) << 10 | (l[1] - 0x60) << 5 | (l[2] - 0x60));
    return l;
}
Bytes mp4Sample(Rng &r, Want &w, char kind)
{
    using M = T::MediaType;
    if (kind == 'a') {
        w.media = M::Audio;
        w.rate = r.pick({ 8000u, 22050u, 44100u, 48000u, 65535u });
        w.channels = r.range(1, 8), w.bits = 16;
        switch (r.below(7)) {
        case 0:
        case 1: { // AAC
            auto a = makeAsc(r);
            auto avg = r.coin() ? r.range(100, 1000000) : 0, max = r.below(2000000);
            auto entry = audioEntry(r, "mp4a", w, { esds(r, 0x40, 5, avg, max, a.config) });
            w.rate = a.rate, w.format = G::Aac, w.sub = a.sub, w.ext = a.ext;
            if (a.ext)
                w.extRate = a.extRate;
            if (avg)
                w.bitrate = avg / 1000.0;
            w.maxBitrate = max / 1000.0, w.formatId = "mp4a";
            return entry;
        }
        case 2: { // other objects in mp4a
            static const std::tuple<unsigned, G, unsigned> objs[] = { { 0xA5, G::Ac3, 0 }, { 0xA6, G::EAc3, 0 }, { 0xA9, G::Dts, 0 }, { 0xDD, G::Vorbis, 0 }, { 0x66, G::Aac, S::AacMpeg2MainProfile }, { 0x67, G::Aac, S::AacMpeg2LowComplexityProfile }, { 0x68, G::Aac, S::AacMpeg2ScalableSamplingRateProfile } };
            auto [o, g, s] = r.pick(objs);
            auto avg = r.range(100, 1000000), max = r.below(2000000);
            w.format = g, w.sub = s;
            w.bitrate = avg / 1000.0, w.maxBitrate = max / 1000.0;
            return audioEntry(r, "mp4a", w, { esds(r, o, 5, avg, max, {}) });
        }
        case 3: w.format = G::Ac3, w.formatId = "ac-3"; return audioEntry(r, "ac-3", w, { mp4::atom("dac3", r.payload(3)) }, false);
        case 4: w.format = G::EAc3; return audioEntry(r, "ec-3", w, { mp4::atom("dec3", r.payload(5)) }, false);
        case 5: w.format = G::Alac; w.bits = r.pick({ 16u, 24u }); return audioEntry(r, "alac", w, { full("alac", 0, 0, r.payload(24)) });
        default: w.format = G::Opus; w.rate = 48000; return audioEntry(r, "Opus", w, { mp4::atom("dOps", r.payload(11)) }, false);
        }
    }
    if (kind == 'v') {
        w.media = M::Video;
        w.pixW = r.range(1, 65535), w.pixH = r.range(1, 65535);
        switch (r.below(5)) {
        case 0:
        case 1: {
            auto a = makeAvc(r);
            auto *cc = r.pick({ "avc1", "avc1", "avc3" });
            auto e = videoEntry(r, cc, w, { mp4::atom("avcC", a.config) });
            w.pixW = a.w, w.pixH = a.h, w.format = G::Avc, w.sub = a.profile, w.version = a.level / 10.0;
            w.cropL = a.cropL, w.cropR = a.cropR, w.cropT = a.cropT, w.cropB = a.cropB, w.sarN = a.sarN, w.sarD = a.sarD;
            w.chroma = a.chroma == 0 ? "monochrome" : a.chroma == 1 ? "YUV 4:2:0" : a.chroma == 2 ? "YUV 4:2:2" : "YUV 4:4:4";
            w.formatId = cc;
            return e;
        }
        case 2: w.format = G::Hevc; return videoEntry(r, r.pick({ "hvc1", "hev1" }), w, { mp4::atom("hvcC", r.payload(30)) });
        case 3: w.format = G::Av1; return videoEntry(r, "av01", w, {});
        default: {
            static const std::tuple<unsigned, G, unsigned> objs[] = { { 0x60, G::Mpeg2Video, S::Mpeg2SimpleProfile }, { 0x61, G::Mpeg2Video, S::Mpeg2MainProfile }, { 0x62, G::Mpeg2Video, S::Mpeg2SnrProfile }, { 0x63, G::Mpeg2Video, S::Mpeg2SpatialProfile }, { 0x64, G::Mpeg2Video, S::Mpeg2HighProfile }, { 0x65, G::Mpeg2Video, S::Mpeg2422Profile }, { 0x6A, G::Mpeg1Video, 0 }, { 0x20, G::Mpeg4Video, 0xF3 } };
            auto [o, g, s] = r.pick(objs);
            auto avg = r.range(100, 9000000), max = r.below(20000000);
            w.format = g, w.sub = s;
            w.bitrate = avg / 1000.0, w.maxBitrate = max / 1000.0;
            Bytes spec = o == 0x20 ? Bytes("\0\0\1\xB0\xF3\0\0\1\xB5\x09\0\0\1\0", 14) : Bytes();
            return videoEntry(r, "mp4v", w, { esds(r, o, 4, avg, max, spec) });
        }
        }
    }
    w.media = M::Text;
    w.format = G::Mpeg4TimedText;
    return mp4::atom("tx3g", W().zero(6).be16(1).zero(30).b);
}
Bytes mvTime(Rng &r, unsigned version, std::uint64_t &c, std::uint64_t &m)
{
    c = r.chance(10) ? 0 : r.range(2082844800u, 3900000000u);
    m = r.chance(10) ? c : r.range(2082844800u, 3900000000u);
    if (version && r.chance(30))
        c += 0x100000000ull;
    return version ? W().be64(c).be64(m).b : W().be32(c).be32(m).b;
}
File mp4File(Rng &r)
{
    File f;
    f.kind = "mp4", f.name = "a.mp4", f.container = T::ContainerFormat::Mp4;
    f.docType = r.pick({ "isom", "mp42", "M4A ", "qt  " });
    auto n = r.range(1, 4);
    bool frag = r.chance(30);
    auto mvScale = r.pick({ 1000u, 600u, 90000u });
    struct Tr {
        Want w;
        char kind;
        Bytes stsd;
        std::uint32_t scale;
        std::uint64_t id, duration = 0, creation = 0, modification = 0, count = 0, size = 0;
        std::uint64_t trexDur = 0, trexSize = 0;
        Bytes stsz, stts, stsc, stco;
    };
    std::vector<Tr> ts(n);
    std::set<std::uint64_t> ids;
    Bytes traks, trex;
    std::uint64_t longest = 0;
    std::vector<Bytes> moofs;
    for (auto &t : ts) {
        t.kind = r.pick({ 'a', 'a', 'v', 'v', 't' });
        do
            t.id = r.chance(20) ? r.range(1, 0xFFFFFFFFu) : r.range(1, 20);
        while (!ids.insert(t.id).second);
        t.scale = r.pick({ 1000u, 44100u, 48000u, 90000u, 30000u, 1u });
        t.stsd = mp4Sample(r, t.w, t.kind);
        t.w.id = t.id, t.w.timeScale = t.scale;
        t.count = frag ? 0 : r.below(200);
        t.duration = frag ? (r.chance(20) ? r.below(1000000) : 0) : r.chance(90) ? r.range(1, 5'000'000'000u) : 0;
        auto mode = r.below(5);
        W sz;
        std::vector<std::uint64_t> sizes;
        auto maxSize = mode == 1 ? 15 : mode == 2 ? 255 : mode == 3 ? 65535 : 3'000'000;
        auto constant = r.range(1, r.chance(20) ? 200'000'000 : 3000);
        for (std::uint64_t i = 0; i < t.count; ++i) {
            sizes.push_back(mode ? r.below(maxSize + 1) : constant);
            t.size += sizes.back();
        }
        if (!mode && t.count)
            sz.s(full("stsz", 0, 0, W().be32(constant).be32(t.count).b));
        else if (mode >= 1 && mode <= 3) {
            Bits b;
            auto bits = mode == 1 ? 4u : mode == 2 ? 8u : 16u;
            for (auto s : sizes)
                b.u(s, bits);
            sz.s(full("stz2", 0, 0, W().be24(0).u8(bits).be32(t.count).s(b.b).b));
        } else {
            W e;
            for (auto s : sizes)
                e.be32(s);
            sz.s(full("stsz", 0, 0, W().be32(0).be32(t.count).s(e.b).b));
        }
        auto vt = r.below(2), vm = r.below(2);
        if (t.duration > 0xFFFFFFFFu)
            vt = vm = 1;
        std::uint64_t mc, mm;
        unsigned flags = static_cast<unsigned>(r.below(8));
        std::uint64_t tc, tm;
        auto times = mvTime(r, vt, tc, tm);
        auto tkdur = t.duration * mvScale / t.scale;
        if (tkdur > 0xFFFFFFFFu)
            vt = 1, times = mvTime(r, vt, tc, tm);
        auto tkhd = full("tkhd", vt, flags, W().s(times).be32(t.id).be32(0).be(tkdur, vt ? 8 : 4).zero(16).zero(36).zero(8).b);
        auto mt = mvTime(r, vm, mc, mm);
        std::uint16_t lc;
        t.w.lang = mp4Lang(r, lc);
        auto mdhd = full("mdhd", vm, 0, W().s(mt).be32(t.scale).be(t.duration, vm ? 8 : 4).be16(lc).be16(0).b);
        static const char *const names[] = { "", "SoundHandler", "Mein Track \xC3\xA4", "x" };
        std::string name = r.pick(names);
        bool pascal = r.chance(25) && !name.empty();
        auto hdlr = full("hdlr", 0, 0, W().be32(0).s(t.kind == 'a' ? "soun" : t.kind == 'v' ? "vide" : "text").zero(12).s(pascal ? W().u8(name.size()).s(name).b : name + '\0').b);
        auto stbl = mp4::atom("stbl", full("stsd", 0, 0, W().be32(1).s(t.stsd).b) + full("stts", 0, 0, t.count ? W().be32(1).be32(t.count).be32(1).b : W().be32(0).b)
                + full("stsc", 0, 0, t.count ? W().be32(1).be32(1).be32(t.count).be32(1).b : W().be32(0).b) + sz.b + full("stco", 0, 0, t.count ? W().be32(1).be32(0x20).b : W().be32(0).b));
        auto minf = mp4::atom("minf", (t.kind == 'a' ? full("smhd", 0, 0, W().be32(0).b) : t.kind == 'v' ? full("vmhd", 0, 1, W().be64(0).b) : full("nmhd", 0, 0, {}))
                + mp4::atom("dinf", full("dref", 0, 0, W().be32(1).s(full("url ", 0, 1, {})).b)) + stbl);
        traks += mp4::atom("trak", tkhd + mp4::atom("mdia", mdhd + hdlr + minf));
        t.w.name = name;
        t.w.enabled = flags & 1, t.w.presentation = flags & 2, t.w.preview = flags & 4;
        t.w.creation = mc, t.w.modification = mm;
        t.trexDur = r.chance(60) ? r.range(1, 5000) : 0, t.trexSize = r.chance(60) ? r.range(1, 500) : 0;
        trex += full("trex", 0, 0, W().be32(t.id).be32(1).be32(t.trexDur).be32(t.trexSize).be32(0).b);
        longest = std::max(longest, tkdur);
    }
    std::vector<std::uint64_t> fragDur(n);
    if (frag) {
        for (unsigned k = 0, m = static_cast<unsigned>(r.range(1, 4)); k < m; ++k) {
            Bytes trafs;
            for (std::size_t i = 0; i < n; ++i) {
                auto &t = ts[i];
                if (r.chance(20))
                    continue;
                unsigned tf = 0x20000;
                std::uint64_t dur = t.trexDur, size = t.trexSize;
                W h;
                h.be32(t.id);
                if (r.chance(20))
                    tf |= 1, h.be64(0);
                if (r.chance(20))
                    tf |= 2, h.be32(1);
                if (r.chance(40))
                    tf |= 8, h.be32(dur = r.range(1, 3000));
                if (r.chance(40))
                    tf |= 0x10, h.be32(size = r.range(1, 3000));
                if (r.chance(20))
                    tf |= 0x20, h.be32(0);
                Bytes runs;
                for (unsigned q = 0, nq = static_cast<unsigned>(r.range(0, 2)); q < nq; ++q) {
                    unsigned rf = static_cast<unsigned>(r.pick({ 0u, 1u, 4u, 5u })) | (r.coin() ? 0x100 : 0) | (r.coin() ? 0x200 : 0) | (r.chance(20) ? 0x400 : 0) | (r.chance(30) ? 0x800 : 0);
                    auto cnt = r.below(10);
                    W b;
                    b.be32(cnt);
                    if (rf & 1)
                        b.be32(100);
                    if (rf & 4)
                        b.be32(0);
                    for (unsigned s = 0; s < cnt; ++s) {
                        auto d = dur, z = size;
                        if (rf & 0x100)
                            b.be32(d = r.below(5000));
                        if (rf & 0x200)
                            b.be32(z = r.below(5000));
                        if (rf & 0x400)
                            b.be32(0);
                        if (rf & 0x800)
                            b.be32(1);
                        fragDur[i] += d, t.size += z;
                    }
                    t.count += cnt;
                    runs += full("trun", 0, rf, b.b);
                }
                trafs += mp4::atom("traf", full("tfhd", 0, tf, h.b) + runs);
            }
            moofs.push_back(mp4::atom("moof", full("mfhd", 0, 0, W().be32(k + 1).b) + trafs) + mp4::atom("mdat", r.payload(r.range(1, 100))));
        }
    }
    auto v = longest > 0xFFFFFFFFu || r.coin() ? 1u : 0u;
    std::uint64_t c, m;
    auto times = mvTime(r, v, c, m);
    bool noDur = r.chance(frag ? 60 : 10);
    auto mvhd = full("mvhd", v, 0, W().s(times).be32(mvScale).be(noDur ? 0 : longest, v ? 8 : 4).zero(80 - 4).be32(100).b);
    auto moov = mp4::atom("moov", mvhd + traks + (frag ? mp4::atom("mvex", trex) : Bytes()));
    f.data = mp4::atom("ftyp", W().s(*f.docType).be32(0).s("isom").b);
    auto mdat = mp4::atom("mdat", r.payload(r.range(1, 300)));
    if (frag) {
        f.data += moov;
        for (auto &x : moofs)
            f.data += x;
    } else
        f.data += r.coin() ? moov + mdat : mdat + moov;
    double longestTrack = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto &t = ts[i];
        t.w.samples = t.count, t.w.size = t.size;
        t.w.duration = static_cast<double>(t.duration ? t.duration : fragDur[i]) / t.scale;
        if (t.duration && t.duration / t.scale > 900'000'000'000u)
            t.w.duration.reset();
        if (!t.w.bitrate && t.w.duration && *t.w.duration > 0 && (t.w.format != G::Aac))
            t.w.bitrate = static_cast<double>(t.size) * 8 / 1000 / *t.w.duration;
        if (t.w.duration)
            longestTrack = std::max(longestTrack, *t.w.duration);
        f.tracks.push_back(t.w);
    }
    f.timeScale = mvScale;
    f.creation = c, f.modification = m;
    f.duration = noDur || !longest ? longestTrack : static_cast<double>(longest) / mvScale;
    return f;
}
File mkvFile(Rng &r)
{
    using mkv::el;
    using mkv::uintEl;
    File f;
    bool webm = r.chance(25);
    f.kind = "mkv", f.name = webm ? "a.webm" : "a.mkv", f.container = webm ? T::ContainerFormat::Webm : T::ContainerFormat::Matroska;
    f.docType = webm ? "webm" : "matroska";
    auto ver = r.range(1, 4);
    f.version = static_cast<double>(ver);
    auto flt = [&](std::uint32_t id, double v) {
        std::uint64_t u;
        if (static_cast<double>(static_cast<float>(v)) == v && r.coin()) {
            float x = static_cast<float>(v);
            std::uint32_t y;
            std::memcpy(&y, &x, 4);
            return el(id, W().be32(y).b);
        }
        std::memcpy(&u, &v, 8);
        return el(id, W().be64(u).b);
    };
    auto ebml = el(0x1A45DFA3, uintEl(0x4286, 1) + uintEl(0x42F7, 1) + uintEl(0x42F2, 4) + uintEl(0x42F3, 8) + el(0x4282, *f.docType) + uintEl(0x4287, ver) + uintEl(0x4285, std::min<std::uint64_t>(ver, 2)));
    auto shuffled = [&](std::vector<Bytes> v) {
        if (r.coin())
            for (std::size_t i = v.size(); i > 1; --i)
                std::swap(v[i - 1], v[r.below(i)]);
        Bytes out;
        for (auto &x : v)
            out += x;
        return out;
    };
    // info
    std::vector<Bytes> info;
    std::uint64_t scale = 1000000;
    if (r.chance(70))
        info.push_back(uintEl(0x2AD7B1, scale = r.pick({ 1000000u, 1000u, 20833u, 1000000000u })));
    if (r.chance(85)) {
        auto d = static_cast<double>(r.range(1, 20'000'000)) / (r.coin() ? 1 : 8);
        if (scale == 1000000000u)
            d = static_cast<double>(r.range(1, 90000));
        info.push_back(flt(0x4489, d));
        f.duration = d * static_cast<double>(scale) / 1e9;
    }
    static const char *const texts[] = { "", "Some title", "\xE3\x83\x86\xE3\x82\xB9\xE3\x83\x88" };
    if (r.coin()) {
        f.title = r.pick(texts);
        info.push_back(el(0x7BA9, *f.title));
    }
    f.muxer = "libfoo " + std::to_string(r.below(100)), f.writer = "app " + std::to_string(r.below(100));
    info.push_back(el(0x4D80, *f.muxer)), info.push_back(el(0x5741, *f.writer));
    if (r.coin())
        info.push_back(el(0x4461, W().be64(r.below(1'000'000'000'000'000'000)).b));
    auto n = r.range(1, 5);
    Bytes entries;
    std::set<std::uint64_t> numbers, uids;
    for (unsigned i = 0; i < n; ++i) {
        Want w;
        std::vector<Bytes> k;
        do
            w.number = r.chance(20) ? r.range(1, 200000) : r.range(1, 20);
        while (!numbers.insert(*w.number).second);
        do
            w.id = r.chance(50) ? r.next() | 1 : r.range(1, 100);
        while (!uids.insert(*w.id).second);
        k.push_back(uintEl(0xD7, *w.number)), k.push_back(uintEl(0x73C5, *w.id));
        auto kind = r.pick({ 'v', 'v', 'a', 'a', 's' });
        k.push_back(uintEl(0x83, kind == 'v' ? 1 : kind == 'a' ? 2 : 17));
        w.media = kind == 'v' ? T::MediaType::Video : kind == 'a' ? T::MediaType::Audio : T::MediaType::Text;
        w.enabled = w.def = w.lacing = true, w.forced = false;
        if (r.coin())
            k.push_back(uintEl(0xB9, *(w.enabled = r.coin())));
        if (r.coin())
            k.push_back(uintEl(0x88, *(w.def = r.coin())));
        if (r.coin())
            k.push_back(uintEl(0x55AA, *(w.forced = r.coin())));
        if (r.coin())
            k.push_back(uintEl(0x9C, *(w.lacing = r.coin())));
        w.lang = "eng", w.name = "", w.bcp = "";
        if (r.chance(70))
            k.push_back(el(0x22B59C, *(w.lang = r.pick({ "eng", "ger", "jpn", "und", "fre" }))));
        if (r.chance(30))
            k.push_back(el(0x22B59D, *(w.bcp = r.pick({ "de-AT", "en", "zh-Hans-CN" }))));
        if (r.chance(60))
            k.push_back(el(0x536E, *(w.name = r.pick(texts))));
        std::string codec;
        Bytes priv;
        if (kind == 'v') {
            Avc a;
            bool avc = false;
            static const std::tuple<const char *, G, unsigned> codecs[] = { { "V_VP8", G::Vp8, 0 }, { "V_VP9", G::Vp9, 0 }, { "V_AV1", G::Av1, 0 }, { "V_MPEGH/ISO/HEVC", G::Hevc, 0 }, { "V_MPEG4/ISO/AVC", G::Avc, 0 }, { "V_MPEG4/ISO/AVC", G::Avc, 0 }, { "V_MPEG4/ISO/ASP", G::Mpeg4Video, S::Mpeg4AdvancedSimpleProfile1 }, { "V_MPEG1", G::Mpeg1Video, 0 }, { "V_MPEG2", G::Mpeg2Video, 0 }, { "V_THEORA", G::Theora, 0 }, { "V_PRORES", G::ProRes, 0 }, { "V_MS/VFW/FOURCC", G::Mpeg4Video, S::Mpeg4AdvancedSimpleProfile0 }, { "V_UNCOMPRESSED", G::UncompressedVideoFrames, 0 }, { "V_QUICKTIME", G::QuicktimeVideo, 0 } };
            auto [cid, g, s] = r.pick(codecs);
            codec = cid, w.format = g, w.sub = s, w.formatId = codec;
            w.pixW = r.range(1, 100000), w.pixH = r.range(1, 100000);
            std::vector<Bytes> v{ uintEl(0xB0, *w.pixW), uintEl(0xBA, *w.pixH) };
            if (codec == "V_MPEG4/ISO/AVC" && r.chance(80)) {
                a = makeAvc(r);
                avc = true;
                priv = a.config;
                w.sub = a.profile, w.version = a.level / 10.0, w.sarN = a.sarN, w.sarD = a.sarD;
                w.pixW = a.w, w.pixH = a.h;
                v = { uintEl(0xB0, *w.pixW), uintEl(0xBA, *w.pixH) };
            } else if (codec == "V_MPEG4/ISO/AVC")
                w.sub.reset();
            if (codec == "V_MS/VFW/FOURCC") {
                w.formatId = "V_MS/VFW/FOURCC \"XVID\"";
                priv = W().le32(40).le32(*w.pixW).le32(*w.pixH).le16(1).le16(24).s("XVID").le32(0).le32(0).le32(0).le32(0).le32(0).b;
            }
            w.dispW = w.pixW, w.dispH = w.pixH;
            if (r.coin())
                v.push_back(uintEl(0x54B0, *(w.dispW = r.range(1, 5000)))), v.push_back(uintEl(0x54BA, *(w.dispH = r.range(1, 5000))));
            if (r.chance(30))
                v.push_back(uintEl(0x9A, (w.interlaced = r.coin()).value()));
            else
                w.interlaced = false;
            if (avc)
                w.cropL = a.cropL, w.cropR = a.cropR, w.cropT = a.cropT, w.cropB = a.cropB;
            else if (r.coin())
                v.push_back(uintEl(0x54AA, *(w.cropB = r.below(50)))), v.push_back(uintEl(0x54BB, *(w.cropT = r.below(50)))), v.push_back(uintEl(0x54CC, *(w.cropL = r.below(50)))), v.push_back(uintEl(0x54DD, *(w.cropR = r.below(50))));
            k.push_back(el(0xE0, shuffled(v)));
            if (r.coin()) {
                auto fps = r.pick({ 25u, 50u, 40u, 10u, 100u });
                k.push_back(uintEl(0x23E383, 1000000000u / fps));
                w.fps = fps;
            }
        } else if (kind == 'a') {
            static const std::tuple<const char *, G, unsigned> codecs[] = { { "A_OPUS", G::Opus, 0 }, { "A_VORBIS", G::Vorbis, 0 }, { "A_FLAC", G::Flac, 0 }, { "A_AC3", G::Ac3, 0 }, { "A_EAC3", G::EAc3, 0 }, { "A_DTS", G::Dts, 0 }, { "A_DTS/EXPRESS", G::Dts, S::DtsExpress }, { "A_MPEG/L3", G::Mpeg1Audio, 3 }, { "A_MPEG/L2", G::Mpeg1Audio, 2 }, { "A_MPEG/L1", G::Mpeg1Audio, 1 }, { "A_PCM/INT/LIT", G::Pcm, S::PcmIntLe }, { "A_PCM/INT/BIG", G::Pcm, S::PcmIntBe }, { "A_PCM/FLOAT/IEEE", G::Pcm, S::PcmFloatIeee }, { "A_AAC", G::Aac, 0 }, { "A_AAC", G::Aac, 0 }, { "A_AAC/MPEG4/LC", G::Aac, S::AacMpeg4LowComplexityProfile }, { "A_MS/ACM", G::Pcm, 0 }, { "A_ALAC", G::Alac, 0 }, { "A_TTA1", G::Tta, 0 }, { "A_WAVPACK4", G::WavPack, 0 } };
            auto [cid, g, s] = r.pick(codecs);
            codec = cid, w.format = g, w.sub = s, w.formatId = codec;
            w.rate = r.pick({ 8000u, 44100u, 48000u, 96000u, 11025u }), w.channels = r.range(1, 8);
            if (codec == "A_AAC") {
                auto a = makeAsc(r);
                priv = a.config;
                w.rate = a.rate, w.channels = a.channels, w.sub = a.sub, w.ext = a.ext;
                if (a.ext)
                    w.extRate = a.extRate;
            }
            if (codec == "A_MS/ACM") {
                auto o = waveFormat(r, true);
                priv = o.fmt;
                w.rate = o.w.rate, w.channels = o.w.channels, w.bits = o.w.bits, w.format = o.w.format, w.sub = o.w.sub;
                w.formatId.reset();
            }
            std::vector<Bytes> v{ flt(0xB5, static_cast<double>(*w.rate)), uintEl(0x9F, *w.channels) };
            if (w.extRate)
                v.push_back(flt(0x78B5, static_cast<double>(*w.extRate)));
            if (codec != "A_MS/ACM" && r.coin())
                v.push_back(uintEl(0x6264, *(w.bits = r.pick({ 8u, 16u, 24u, 32u }))));
            k.push_back(el(0xE1, shuffled(v)));
        } else {
            static const std::tuple<const char *, G, unsigned> codecs[] = { { "S_TEXT/UTF8", G::TextSubtitle, S::PlainUtf8Subtitle }, { "S_TEXT/SSA", G::TextSubtitle, S::SubStationAlpha }, { "S_TEXT/ASS", G::TextSubtitle, S::AdvancedSubStationAlpha }, { "S_TEXT/USF", G::TextSubtitle, S::UniversalSubtitleFormat }, { "S_TEXT/WEBVTT", G::TextSubtitle, S::WebVideoTextTracksFormat }, { "S_VOBSUB", G::VobSub, 0 }, { "S_IMAGE/BMP", G::ImageSubtitle, S::ImgSubBmp } };
            auto [cid, g, s] = r.pick(codecs);
            codec = cid, w.format = g, w.sub = s, w.formatId = codec;
        }
        k.push_back(el(0x86, codec));
        if (!priv.empty())
            k.push_back(el(0x63A2, priv));
        entries += el(0xAE, shuffled(k));
        f.tracks.push_back(w);
    }
    Bytes chapters;
    if (r.chance(40)) {
        std::function<Bytes(Chapter &, int)> chapter = [&](Chapter &ch, int depth) {
            std::vector<Bytes> v{ uintEl(0x73C4, ch.id = r.next() | 1), uintEl(0x91, ch.start = r.below(1ull << r.range(1, 52))) };
            if (r.coin())
                v.push_back(uintEl(0x92, ch.end = ch.start + r.below(1ull << 40)));
            if (r.coin())
                v.push_back(uintEl(0x98, ch.hidden = r.coin()));
            if (r.coin())
                v.push_back(uintEl(0x4598, ch.enabled = r.coin()));
            if (r.chance(15))
                v.push_back(el(0x5654, "cue 1"));
            if (r.chance(30)) {
                Bytes t;
                for (auto i = r.range(1, 3); i; --i)
                    t += uintEl(0x89, ch.tracks.emplace_back(r.pick(std::vector<std::uint64_t>(uids.begin(), uids.end()))));
                v.push_back(el(0x8F, t));
            }
            Bytes last;
            for (auto i = r.below(3); i; --i) {
                auto text = r.pick({ "Intro", "\xC3\x84nfang", "Ende " });
                std::vector<Bytes> d{ el(0x85, text) };
                std::vector<std::string> l;
                static const std::pair<unsigned, unsigned> kinds[] = { { 0x437C, static_cast<unsigned>(T::LocaleFormat::ISO_639_2_B) }, { 0x437D, static_cast<unsigned>(T::LocaleFormat::BCP_47) }, { 0x437E, static_cast<unsigned>(T::LocaleFormat::DomainCountry) } };
                for (auto [id, fmt] : kinds)
                    if (r.coin()) {
                        auto x = id == 0x437C ? r.pick({ "ger", "eng", "fre" }) : id == 0x437D ? r.pick({ "de-AT", "en" }) : r.pick({ "us", "de" });
                        d.push_back(el(id, x));
                        l.push_back(std::to_string(fmt) + x);
                    }
                if (l.empty())
                    l.push_back(std::to_string(static_cast<unsigned>(T::LocaleFormat::ISO_639_2_B)) + "eng");
                ch.names.emplace_back(text, l);
                Bytes all;
                for (auto &x : d)
                    all += x;
                last += el(0x80, all);
            }
            if (depth < 3)
                while (r.chance(25)) {
                    ch.nested.emplace_back();
                    Chapter sub;
                    last += chapter(sub, depth + 1);
                    ch.nested.back() = sub;
                }
            return el(0xB6, shuffled(v) + last);
        };
        Bytes es;
        for (auto i = r.range(1, 3); i; --i) {
            Edition e;
            Bytes b = uintEl(0x45BC, e.id = r.next() | 1);
            if (r.coin())
                b += uintEl(0x45BD, e.hidden = r.coin());
            if (r.coin())
                b += uintEl(0x45DB, e.def = r.coin());
            if (r.coin())
                b += uintEl(0x45DD, e.ordered = r.coin());
            for (auto j = r.range(1, 4); j; --j) {
                Chapter ch;
                b += chapter(ch, 0);
                e.chapters.push_back(ch);
            }
            es += el(0x45B9, b);
            f.editions.push_back(e);
        }
        chapters = el(0x1043A770, es);
    }
    auto cluster = el(0x1F43B675, uintEl(0xE7, 0) + el(0xA3, W().u8(0x80 | *f.tracks[0].number % 100).be16(0).u8(0x80).s(r.payload(r.range(1, 100))).b));
    Bytes seg = el(0x1549A966, shuffled(info)) + el(0x1654AE6B, entries) + chapters + (r.coin() ? el(0xEC, Bytes(r.below(100), '\0')) : Bytes()) + cluster;
    f.data = ebml + el(0x18538067, seg);
    return f;
}
void techCase(Ctx &c)
{
    auto &r = c.rng;
    File f;
    switch (r.below(12)) {
    case 0:
    case 1: f = mp3(r); break;
    case 2: f = adts(r); break;
    case 3: f = wav(r); break;
    case 4: f = ivf(r); break;
    case 5: f = flac(r); break;
    case 6: f = ogg(r); break;
    case 7:
    case 8:
    case 9: f = mp4File(r); break;
    default: f = mkvFile(r);
    }
    c.desc = f.kind;
    c.cover("kind " + f.kind);
    for (auto &t : f.tracks)
        if (t.format)
            c.cover(strf("format %s %u/%u/%u", f.kind.c_str(), static_cast<unsigned>(*t.format), t.sub.value_or(0), t.ext.value_or(0)));
    check(c, f);
}
PropReg reg("C23", techCase);
}
}
