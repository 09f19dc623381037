// C26: recognising formats by signature, directly and behind tags, zero bytes and junk.
#include "any.h"
#include "mkvfmt.h"
#include "mp4fmt.h"
#include "oggfmt.h"
#include "rawfmt.h"

#include <tagparser/signature.h>

namespace tp {
namespace {
using CF = T::ContainerFormat;

// written down from the formats' specifications; only complete matches count
struct Pattern {
    CF format;
    std::size_t off;
    Bytes bytes;
    Bytes mask = {};
    std::size_t off2 = 0;
    Bytes bytes2 = {};
};
const std::vector<Pattern> &patterns()
{
    using namespace std::string_literals;
    static const std::vector<Pattern> p = {
        { CF::ApeTag, 0, "APETAGEX"s },
        { CF::Ar, 0, "!<arch>\n"s },
        { CF::Asf, 0, "\x30\x26\xB2\x75\x8E\x66\xCF\x11"s },
        { CF::Png, 0, "\x89PNG\r\n\x1A\n"s },
        { CF::YUV4Mpeg2, 0, "YUV4MPEG2 "s },
        { CF::Rar, 0, "Rar!\x1A\x07\0"s },
        { CF::Gif87a, 0, "GIF87a"s },
        { CF::Gif89a, 0, "GIF89a"s },
        { CF::SevenZ, 0, "7z\xBC\xAF\x27\x1C"s },
        { CF::Xz, 0, "\xFD"s + "7zXZ\0"s },
        { CF::Aiff, 0, "FORM\0"s },
        { CF::Dirac, 0, "BBCD"s },
        { CF::Elf, 0, "\x7F"s + "ELF"s },
        { CF::Flac, 0, "fLaC"s },
        { CF::Ivf, 0, "DKIF"s },
        { CF::JavaClassFile, 0, "\xCA\xFE\xBA\xBE"s },
        { CF::Ebml, 0, "\x1A\x45\xDF\xA3"s },
        { CF::Midi, 0, "MThd"s },
        { CF::MonkeysAudio, 0, "MAC "s },
        { CF::Mp4, 4, "ftyp"s },
        { CF::QuickTime, 4, "moov"s },
        { CF::Ogg, 0, "OggS"s },
        { CF::PhotoshopDocument, 0, "8BPS"s },
        { CF::Riff, 0, "RIFF"s },
        { CF::RiffWave, 0, "RIFF"s, {}, 8, "WAVE"s },
        { CF::RiffAvi, 0, "RIFF"s, {}, 8, "AVI LIST"s },
        { CF::TiffBigEndian, 0, "MM\0*"s },
        { CF::TiffLittleEndian, 0, "II*\0"s },
        { CF::Utf32Text, 0, "\xFF\xFE\0\0"s },
        { CF::WavPack, 0, "wvpk"s },
        { CF::WindowsIcon, 0, "\0\0\1\0"s },
        { CF::Lzip, 0, "LZIP"s },
        { CF::Zip, 0, "PK\3\4"s },
        { CF::Zip, 0, "PK\5\6"s },
        { CF::Zip, 0, "PK\7\x08"s },
        { CF::Zstd, 0, "\x28\xB5\x2F\xFD"s },
        { CF::Bzip2, 0, "BZh"s },
        { CF::FlashVideo, 0, "FLV"s },
        { CF::Gzip, 0, "\x1F\x8B\x08"s },
        { CF::Id3v2Tag, 0, "ID3"s },
        { CF::Utf8Text, 0, "\xEF\xBB\xBF"s },
        { CF::Ac3Frames, 0, "\x0B\x77"s },
        { CF::Jpeg, 0, "\xFF\xD8"s },
        { CF::Lha, 0, "\x1F\xA0"s },
        { CF::Lzw, 0, "\x1F\x9D"s },
        { CF::PortableExecutable, 0, "MZ"s },
        { CF::Utf16Text, 0, "\xFF\xFE"s },
        { CF::WindowsBitmap, 0, "BM"s },
        { CF::Adts, 0, "\xFF\xF0"s, "\xFF\xF6"s },
        { CF::MpegAudioFrames, 0, "\xFF\xE0"s, "\xFF\xE0"s },
    };
    return p;
}
bool matchesAt(std::string_view b, std::size_t off, const Bytes &bytes, const Bytes &mask)
{
    if (b.size() < off + bytes.size())
        return false;
    for (std::size_t i = 0; i < bytes.size(); ++i) {
        const auto m = mask.empty() ? 0xFFu : static_cast<unsigned char>(mask[i]);
        if ((static_cast<unsigned char>(b[off + i]) & m) != (static_cast<unsigned char>(bytes[i]) & m))
            return false;
    }
    return true;
}
std::set<CF> matching(std::string_view b)
{
    std::set<CF> r;
    for (const auto &p : patterns())
        if (matchesAt(b, p.off, p.bytes, p.mask) && (p.bytes2.empty() || matchesAt(b, p.off2, p.bytes2, {})))
            r.insert(p.format);
    // the second way to start an ASF file as known to the library
    if (matchesAt(b, 0, Bytes("\xA6\xD9\x00\xAA\x00\x62\xCE\x6C", 8), {}))
        r.insert(CF::Asf);
    // the more specific ones
    if (r.count(CF::RiffWave) || r.count(CF::RiffAvi))
        r.erase(CF::Riff);
    if (r.count(CF::Utf32Text))
        r.erase(CF::Utf16Text);
    if (r.count(CF::Adts))
        r.erase(CF::MpegAudioFrames);
    if (r.count(CF::Utf16Text) || r.count(CF::Utf32Text)) {
        r.erase(CF::MpegAudioFrames);
        r.erase(CF::Adts);
    }
    return r;
}
std::string nameOf(CF f)
{
    return Bytes(T::containerFormatName(f)) + strf("(%u)", static_cast<unsigned>(f));
}

void bufferCase(Ctx &c)
{
    auto &r = c.rng;
    const auto &p = r.pick(patterns());
    Bytes b = r.payload(r.below(40));
    const auto need = std::max(p.off + p.bytes.size(), p.off2 + p.bytes2.size());
    if (r.chance(70)) {
        if (b.size() < need)
            b.resize(need, static_cast<char>(r.below(256)));
        b.replace(p.off, p.bytes.size(), p.bytes);
        if (!p.mask.empty())
            for (std::size_t i = 0; i < p.bytes.size(); ++i)
                b[p.off + i] = static_cast<char>(b[p.off + i] | (static_cast<char>(r.below(256)) & ~p.mask[i]));
        if (!p.bytes2.empty())
            b.replace(p.off2, p.bytes2.size(), p.bytes2);
    }
    const char *kind = "match";
    switch (r.below(5)) {
    case 0: // nearly
        if (!b.empty()) {
            auto i = r.below(std::min<std::size_t>(b.size(), 16));
            b[i] = static_cast<char>(b[i] ^ (1 << r.below(8)));
        }
        kind = "near";
        break;
    case 1: // cut
        b.resize(r.below(std::min<std::size_t>(b.size(), 18) + 1));
        kind = "cut";
        break;
    default:;
    }
    const auto expected = matching(b);
    const auto f = b.empty() ? T::parseSignature(std::string_view()) : r.coin() ? T::parseSignature(Bytes(b).data(), b.size()) : T::parseSignature(std::string_view(Bytes(b).data(), b.size()));
    if (expected.empty() ? f != CF::Unknown : !expected.count(f))
        c.fail(strf("signature:%s:%s", kind, expected.empty() ? "unknown" : nameOf(*expected.begin()).c_str()),
            strf("%s is recognised as %s but %s is expected", hex(b).c_str(), nameOf(f).c_str(), expected.empty() ? "no format" : nameOf(*expected.begin()).c_str()));
    c.mix(b);
    c.cover("sig:" + nameOf(f));
    c.nontrivial = true;
}

struct Look {
    CF format = CF::Unknown;
    std::uint64_t offset = 0;
    std::size_t id3v2 = 0;
    Bytes tags, tracks, statuses;
    std::string diag;
    std::vector<Bytes> id3dumps;
};
Look look(Ctx &c, const Bytes &file, const Bytes &name)
{
    const auto path = c.dir + "/" + name;
    writeFile(path, file);
    Media m(path);
    auto res = m.parse();
    Look l;
    l.format = m.info.containerFormat();
    l.offset = m.info.containerOffset();
    l.id3v2 = m.info.id3v2Tags().size();
    auto dump = dumpTags(m.info);
    std::vector<TagDump> rest;
    for (auto &d : dump) {
        if (d.kind.find("ID3v2") == 0)
            l.id3dumps.push_back(textOf({ d }));
        else
            rest.push_back(d);
    }
    l.tags = textOf(rest);
    l.tracks = dumpTracks(m.info) + dumpChapters(m.info) + dumpAttachments(m.info);
    l.statuses = strf("%d %d dur=%lld", static_cast<int>(res.outcome), static_cast<int>(m.info.tracksParsingStatus()), static_cast<long long>(m.info.duration().totalTicks()));
    l.diag = res.diagText();
    ::unlink(path.c_str());
    return l;
}
const char *const names[] = { "x.bin", "x.mp3", "x.flac", "x.mp4", "x.mkv", "x.ogg", "x", "x.wav", "x.m4a", "x.txt" };

void prefixCase(Ctx &c)
{
    auto &r = c.rng;
    Bytes file, what;
    const auto kind = r.below(8);
    switch (kind) {
    case 0: { AnyOptions o; o.fam = static_cast<int>(Fam::Mp4); o.small = true; file = anyFile(r, o).file; what = "mp4"; break; }
    case 1: { AnyOptions o; o.fam = static_cast<int>(Fam::Mkv); o.small = true; file = anyFile(r, o).file; what = "mkv"; break; }
    case 2: { AnyOptions o; o.fam = static_cast<int>(Fam::Ogg); o.small = true; file = anyFile(r, o).file; what = "ogg"; break; }
    default: {
        raw::GOptions g;
        g.format = r.pick({ "mp3", "adts", "wav", "ivf", "flac" });
        g.v2 = false;
        g.junk = false;
        g.ape = r.chance(20);
        g.maxStream = 6000;
        file = raw::generate(r, g).file;
        what = g.format;
    }
    }
    const auto base = look(c, file, r.pick(names));
    if (base.offset != 0 || file.size() < 128) { // the position of an ID3v1 tag (128 bytes from the end) must not be within the prefix ("APETAGEX")
        c.count("skipped");
        return;
    }
    Bytes prefix, id3only, desc;
    std::vector<Bytes> tags;
    std::size_t skipped = 0; // zero bytes
    const bool plain = r.chance(5);
    for (auto n = plain ? 0 : 1 + r.below(4); n; --n) {
        switch (r.below(3)) {
        case 0: {
            if (skipped)
                break; // zero bytes between tags belong to the first tag's padding if anywhere
            id3::TOptions o;
            o.maxFrames = 4;
            auto t = id3::makeTag(id3::randomTag(r, o));
            tags.push_back(t);
            prefix += t;
            desc += strf("id3v2(%zu) ", t.size());
            break;
        }
        case 1: {
            auto t = id3::makeApe(r, true);
            if (skipped && r.chance(70))
                break;
            prefix += t;
            desc += strf("ape(%zu) ", t.size());
            break;
        }
        default: {
            std::size_t z = r.chance(30) ? 1 + r.below(8) : r.chance(30) ? 0x7ff - r.below(40) : 1 + r.below(0x7ff);
            z = std::min<std::size_t>(z, 0x7ff - skipped);
            skipped += z;
            prefix += Bytes(z, '\0');
            desc += strf("zero(%zu) ", z);
        }
        }
    }
    c.note(what + " behind " + desc);
    const auto file2 = prefix + file;
    const auto l = look(c, file2, r.pick(names));
    c.artifact("file", file2);
    if (l.format != base.format)
        c.failNow("prefix:format:" + what, strf("%s behind %s is recognised as %s instead of %s", what.c_str(), desc.c_str(), nameOf(l.format).c_str(), nameOf(base.format).c_str()));
    if (l.offset != prefix.size())
        c.failNow("prefix:offset:" + what, strf("%s behind %s: offset %llu instead of %zu", what.c_str(), desc.c_str(), (unsigned long long)l.offset, prefix.size()));
    if (l.id3v2 != base.id3v2 + tags.size())
        c.failNow("prefix:id3:" + what, strf("%s behind %s: %zu ID3v2 tags instead of %zu; %s", what.c_str(), desc.c_str(), l.id3v2, base.id3v2 + tags.size(), l.diag.c_str()));
    if (l.tags != base.tags)
        c.failNow("prefix:tags:" + what, strf("%s behind %s: %s", what.c_str(), desc.c_str(), firstDiff(base.tags, l.tags).c_str()));
    if (l.tracks != base.tracks)
        c.failNow("prefix:tracks:" + what, strf("%s behind %s: %s", what.c_str(), desc.c_str(), firstDiff(base.tracks, l.tracks).c_str()));
    if (l.statuses != base.statuses)
        c.failNow("prefix:status:" + what, strf("%s behind %s: %s instead of %s", what.c_str(), desc.c_str(), l.statuses.c_str(), base.statuses.c_str()));
    // each tag says what it says on its own
    for (std::size_t i = 0; i < tags.size(); ++i) {
        Bytes alone = tags[i];
        Bytes frame("\xFF\xFB\x90\x00", 4);
        frame.resize(417, '\0');
        alone += frame + frame + frame;
        const auto a = look(c, alone, "alone.mp3");
        if (a.id3dumps.size() != 1 || a.id3dumps[0] != l.id3dumps.at(i))
            c.failNow("prefix:id3-content", strf("ID3v2 tag %zu of %s says something else than on its own", i, desc.c_str()));
    }
    c.mix(file2);
    c.cover("prefix:" + what + (tags.empty() ? "" : ":id3") + (skipped ? ":zero" : ""));
    c.count("prefixed");
    c.nontrivial = true;
}

void unknownCase(Ctx &c)
{
    auto &r = c.rng;
    // content without any known signature at the places which are looked at
    Bytes prefix;
    const auto sel = r.below(4);
    if (sel == 1) {
        id3::TOptions o;
        o.maxFrames = 3;
        prefix = id3::makeTag(id3::randomTag(r, o));
    } else if (sel == 2)
        prefix = Bytes(r.below(3000), '\0');
    Bytes content;
    const auto size = r.chance(20) ? r.below(40) : r.below(6000);
    for (std::size_t i = 0; i < size; ++i)
        content += static_cast<char>(r.chance(3) ? 1 + r.below(255) : 'a' + r.below(8));
    // nothing which might be a signature
    for (std::size_t i = 0; i < content.size(); ++i)
        if (!matching(std::string_view(content).substr(i, 16)).empty() || static_cast<unsigned char>(content[i]) == 0xFF || static_cast<unsigned char>(content[i]) < 2)
            content[i] = 'q';
    for (std::size_t i = 0; i < content.size(); ++i)
        if (!matching(std::string_view(content).substr(i, 16)).empty())
            return;
    Bytes far;
    bool late = r.chance(40) && content.size() + (sel == 2 ? prefix.size() : 0) >= 0x900;
    if (late) // too far away
        far = Bytes("fLaC", 4) + r.payload(60);
    const auto file = prefix + content + far;
    const auto l = look(c, file, r.pick(names));
    c.artifact("file", file);
    const bool onlyTag = sel == 1 && content.size() < 16;
    if (l.format != CF::Unknown && !(onlyTag && l.format == CF::Id3v2Tag))
        c.failNow("unknown:format", strf("content without signature (%zu bytes behind %zu bytes) is recognised as %s", content.size() + far.size(), prefix.size(), nameOf(l.format).c_str()));
    if (file.size() >= 16 && l.id3v2 != (sel == 1 ? 1u : 0u))
        c.failNow("unknown:id3", strf("%zu ID3v2 tags found", l.id3v2));
    if (!l.tracks.empty() || !l.tags.empty())
        c.failNow("unknown:tracks", "content without signature has tracks or tags: " + l.tracks + l.tags);
    const auto l2 = look(c, file, r.pick(names));
    if (l2.format != l.format || l2.offset != l.offset || l2.id3dumps != l.id3dumps || l2.statuses != l.statuses)
        c.fail("unknown:name", "result depends on the file name");
    c.mix(file);
    c.cover(strf("unknown:%d%s", static_cast<int>(sel), late ? ":late" : ""));
    c.count("unknown");
    c.nontrivial = true;
}

void fileSignatureCase(Ctx &c)
{
    // any format by its signature, behind tags and zero bytes
    auto &r = c.rng;
    const auto &p = r.pick(patterns());
    Bytes b = r.payload(60 + r.below(400));
    b.replace(p.off, p.bytes.size(), p.bytes);
    if (!p.bytes2.empty())
        b.replace(p.off2, p.bytes2.size(), p.bytes2);
    if (b[0] == 0 && p.format != CF::WindowsIcon)
        b[0] = 1;
    auto expected = matching(std::string_view(b).substr(0, 16));
    switch (p.format) {
    case CF::ApeTag: case CF::Id3v2Tag: case CF::Ebml: return; // looked at separately
    default:;
    }
    Bytes prefix;
    if (r.coin()) {
        id3::TOptions o;
        o.maxFrames = 3;
        prefix = id3::makeTag(id3::randomTag(r, o));
    }
    std::size_t zero = 0;
    if (r.coin() && p.format != CF::WindowsIcon)
        prefix += Bytes(zero = r.below(0x800), '\0');
    if (zero && (p.off || expected.size() > 1))
        return;
    if (zero) // some zero bytes in front may form another signature
        for (std::size_t i = 1; i <= 3 && i <= zero; ++i)
            if (!matching(Bytes(i, '\0') + b.substr(0, 16 - i)).empty())
                return;
    const auto file = prefix + b;
    const auto path = c.dir + "/" + r.pick(names);
    writeFile(path, file);
    Media m(path);
    auto res = m.run([&](T::Diagnostics &d) { m.info.parseContainerFormat(d, m.progress); });
    c.artifact("file", file);
    const auto f = m.info.containerFormat();
    if (!expected.count(f))
        c.failNow("file:" + nameOf(p.format), strf("file with signature of %s behind %zu bytes (%zu zero bytes) is recognised as %s", nameOf(p.format).c_str(), prefix.size(), zero, nameOf(f).c_str()));
    c.mix(file);
    c.cover("file:" + nameOf(f));
    c.count("file-signatures");
    c.nontrivial = true;
}

void caseC26(Ctx &c)
{
    switch (c.rng.below(6)) {
    case 0: case 1: return bufferCase(c);
    case 2: return fileSignatureCase(c);
    case 3: return unknownCase(c);
    default: return prefixCase(c);
    }
}
PropReg c26{ "C26", caseC26 };
} // namespace
} // namespace tp
