#include "lib.h"
#include "bytes.h"
#include <sstream>

namespace tp {

std::string Cfg::toString() const
{
    auto pos = [](T::ElementPosition p) { return p == T::ElementPosition::BeforeData ? "front" : p == T::ElementPosition::AfterData ? "back" : "keep"; };
    return strf("{%s tag=%s%s index=%s%s pad %zu/%zu/%zu%s%s%s}", forceRewrite ? "rewrite" : "maybe-in-place", pos(tagPos), forceTagPos ? "!" : "", pos(indexPos),
        forceIndexPos ? "!" : "", minPad, maxPad, prefPad, preserveMuxer ? " keepmux" : "", preserveWriter ? " keepwrite" : "", savePath.empty() ? "" : " saveas");
}
Cfg randomCfg(Rng &r)
{
    Cfg c;
    c.forceRewrite = r.chance(45);
    c.tagPos = r.pick({ T::ElementPosition::Keep, T::ElementPosition::BeforeData, T::ElementPosition::AfterData });
    c.indexPos = r.pick({ T::ElementPosition::Keep, T::ElementPosition::BeforeData, T::ElementPosition::AfterData });
    c.forceTagPos = r.coin();
    c.forceIndexPos = r.coin();
    switch (r.below(5)) {
    case 0:
        break;
    case 1:
        c.maxPad = r.size(5000);
        c.minPad = r.below(c.maxPad + 1);
        c.prefPad = c.minPad + r.below(c.maxPad - c.minPad + 1);
        break;
    case 2:
        c.maxPad = 0xFFFFFFF;
        c.prefPad = r.size(2000);
        break;
    case 3:
        c.maxPad = 1 << 20;
        c.minPad = r.size(100);
        c.prefPad = c.minPad + r.size(300);
        break;
    case 4:
        c.prefPad = r.size(600);
        c.maxPad = c.prefPad + r.size(300);
        break;
    }
    c.preserveMuxer = r.chance(20);
    c.preserveWriter = r.chance(20);
    return c;
}
void applyCfg(T::MediaFileInfo &f, const Cfg &c)
{
    f.setForceRewrite(c.forceRewrite);
    f.setForceTagPosition(c.forceTagPos);
    f.setForceIndexPosition(c.forceIndexPos);
    f.setTagPosition(c.tagPos);
    f.setIndexPosition(c.indexPos);
    f.setMinPadding(c.minPad);
    f.setMaxPadding(c.maxPad);
    f.setPreferredPadding(c.prefPad);
    f.setForceFullParse(c.fullParse);
    auto flags = f.fileHandlingFlags();
    CppUtilities::modFlagEnum(flags, T::MediaFileHandlingFlags::PreserveMuxingApplication, c.preserveMuxer);
    CppUtilities::modFlagEnum(flags, T::MediaFileHandlingFlags::PreserveWritingApplication, c.preserveWriter);
    CppUtilities::modFlagEnum(flags, T::MediaFileHandlingFlags::PreserveRawTimingValues, c.preserveTiming);
    f.setFileHandlingFlags(flags);
    if (!c.savePath.empty())
        f.setSaveFilePath(std::string_view(c.savePath));
    if (!c.backupDir.empty())
        f.setBackupDirectory(std::string_view(c.backupDir));
}
const char *outcomeName(Outcome o)
{
    switch (o) {
    case Outcome::Ok:
        return "ok";
    case Outcome::Failure:
        return "failure";
    case Outcome::Aborted:
        return "aborted";
    case Outcome::Io:
        return "io-error";
    default:
        return "other-exception";
    }
}
std::string Result::diagText(T::DiagLevel min) const
{
    std::string r;
    for (const auto &m : diag)
        if (m.level() >= min)
            r += strf("[%d %s: %s] ", static_cast<int>(m.level()), m.context().c_str(), m.message().c_str());
    return r;
}
Result Media::parse()
{
    return run([&](T::Diagnostics &d) { info.parseEverything(d, progress); });
}
Result Media::apply()
{
    return run([&](T::Diagnostics &d) { info.applyChanges(d, progress); });
}

std::string utf8Of(const T::TagValue &v)
{
    return v.toString(T::TagTextEncoding::Utf8);
}

std::string canon(const T::TagValue &v, bool meta)
{
    std::string r;
    if (v.isNull())
        r = "null";
    else
        switch (v.type()) {
        case T::TagDataType::Text:
            r = "text:";
            try {
                r += utf8Of(v);
            } catch (const std::exception &e) {
                r += "<unconvertible " + hex(v.data()) + ">";
            }
            break;
        case T::TagDataType::Integer:
        case T::TagDataType::UnsignedInteger:
            r = "int:" + v.toString();
            break;
        case T::TagDataType::PositionInSet:
            r = "pos:" + std::to_string(v.toPositionInSet().position()) + "/" + std::to_string(v.toPositionInSet().total());
            break;
        case T::TagDataType::StandardGenreIndex:
            r = "genre:" + std::to_string(v.toInteger());
            break;
        case T::TagDataType::Popularity: {
            auto p = v.toPopularity();
            r = strf("pop:%s|%g|%llu|%d", p.user.c_str(), p.rating, static_cast<unsigned long long>(p.playCounter), static_cast<int>(p.scale));
            break;
        }
        case T::TagDataType::Picture:
        case T::TagDataType::Binary:
        case T::TagDataType::Undefined:
            r = strf("%s:%zu:%016llx", v.type() == T::TagDataType::Picture ? "pic" : "bin", v.dataSize(), static_cast<unsigned long long>(fnv(v.data())));
            break;
        case T::TagDataType::TimeSpan:
        case T::TagDataType::DateTime:
        case T::TagDataType::DateTimeExpression:
        default:
            r = strf("t%d:", static_cast<int>(v.type())) + v.toString(T::TagTextEncoding::Utf8);
        }
    if (meta) {
        if (!v.description().empty()) {
            auto c = T::TagValue(v.description(), v.descriptionEncoding());
            try {
                r += "|desc=" + c.toString(T::TagTextEncoding::Utf8);
            } catch (const std::exception &) {
                r += "|desc=<" + hex(v.description()) + ">";
            }
        }
        if (!v.mimeType().empty())
            r += "|mime=" + v.mimeType();
        if (auto l = v.locale().toString(); !l.empty() && l != "und" && l != "XXX") // undefined otherwise
            r += "|lang=" + v.locale().toString();
    }
    return r;
}

template <class F> static void dumpField(std::vector<FieldDump> &out, const std::string &prefix, const F &f)
{
    std::string id = prefix + f.idToString();
    std::string v = canon(f.value());
    if constexpr (std::is_same_v<F, T::Id3v2Frame>) {
        if (f.isTypeInfoAssigned())
            v += strf("|ti=%d", static_cast<int>(f.typeInfo()));
        for (const auto &a : f.additionalValues())
            v += " + " + canon(a);
        if (f.hasGroupInformation())
            v += strf("|grp=%d", f.group());
    } else if constexpr (std::is_same_v<F, T::Mp4TagField>) {
        if (!f.mean().empty() || !f.name().empty())
            id += "(" + f.mean() + ":" + f.name() + ")";
        for (const auto &a : f.additionalData())
            v += " + " + canon(a.value);
    } else if constexpr (std::is_same_v<F, T::MatroskaTagField>) {
        if (!f.isDefault())
            v += "|nondefault";
    } else if constexpr (std::is_same_v<F, T::VorbisCommentField>) {
        if (f.isTypeInfoAssigned())
            v += strf("|ti=%d", static_cast<int>(f.typeInfo()));
    }
    out.push_back({ id, v });
    for (const auto &n : f.nestedFields())
        dumpField(out, id + "/", n);
}
template <class TagT> static void dumpMap(std::vector<FieldDump> &out, const TagT &t)
{
    for (const auto &f : t.fields())
        if (!f.second.value().isEmpty() || !f.second.nestedFields().empty() || f.second.value().type() == T::TagDataType::Binary)
            dumpField(out, "", f.second);
}

std::vector<TagDump> dumpTags(T::MediaFileInfo &f)
{
    std::vector<TagDump> r;
    for (auto *t : f.tags()) {
        TagDump d;
        d.kind = std::string(t->typeName());
        if (t->supportsTarget()) {
            const auto &g = t->target();
            d.target = strf("%llu/", static_cast<unsigned long long>(g.level())) + g.levelName();
            auto ids = [&](const char *n, const auto &c) {
                if (!c.empty()) {
                    d.target += std::string(";") + n;
                    for (auto i : c)
                        d.target += strf(" %llu", static_cast<unsigned long long>(i));
                }
            };
            ids("t", g.tracks());
            ids("c", g.chapters());
            ids("e", g.editions());
            ids("a", g.attachments());
        }
        if (auto *x = dynamic_cast<T::Id3v1Tag *>(t)) {
            for (auto k = T::firstKnownField; k != T::KnownField::Invalid; k = T::nextKnownField(k))
                if (x->supportsField(k) && !x->value(k).isEmpty())
                    d.fields.push_back({ knownFieldName(k), canon(x->value(k)) });
        } else if (auto *x = dynamic_cast<T::Id3v2Tag *>(t)) {
            d.kind += strf(" 2.%d", x->majorVersion());
            dumpMap(d.fields, *x);
        } else if (auto *x = dynamic_cast<T::Mp4Tag *>(t)) {
            dumpMap(d.fields, *x);
        } else if (auto *x = dynamic_cast<T::MatroskaTag *>(t)) {
            dumpMap(d.fields, *x);
        } else if (auto *x = dynamic_cast<T::VorbisComment *>(t)) {
            d.fields.push_back({ "(vendor)", canon(x->vendor()) });
            dumpMap(d.fields, *x);
        }
        r.push_back(std::move(d));
    }
    return r;
}
std::string textOf(const std::vector<TagDump> &tags)
{
    std::string r;
    for (const auto &t : tags) {
        r += "TAG " + t.kind + " <" + t.target + ">\n";
        for (const auto &f : t.fields)
            r += "  " + f.id + " = " + f.value + "\n";
    }
    return r;
}

// the order of the different forms of the language is not significant
static std::string sortedLocale(const T::Locale &l)
{
    std::vector<std::string> v;
    for (auto &d : l)
        v.push_back(d);
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto &x : v)
        r += (r.empty() ? "" : ", ") + x;
    return r;
}
std::string dumpTracks(T::MediaFileInfo &f, bool layout)
{
    std::string r;
    for (auto *t : f.tracks()) {
        r += strf("TRACK id=%llu nr=%u type=%s fmt=%s/%s name=%s lang=%s ", static_cast<unsigned long long>(t->id()), t->trackNumber(), std::string(t->mediaTypeName()).c_str(),
            t->formatId().c_str(), std::string(t->formatName()).c_str(), quote(t->name()).c_str(), sortedLocale(t->locale()).c_str());
        r += strf("dur=%lld sr=%u ext=%u ch=%u bps=%u cfg=%u n=%llu px=%s disp=%s depth=%u fps=%u flags=%llx ts=%u ", static_cast<long long>(t->duration().totalTicks()),
            t->samplingFrequency(), t->extensionSamplingFrequency(), t->channelCount(), t->bitsPerSample(), t->channelConfig(),
            static_cast<unsigned long long>(t->sampleCount()), t->pixelSize().toString().c_str(), t->displaySize().toString().c_str(), t->depth(), t->fps(),
            static_cast<unsigned long long>(t->flags()), t->timeScale());
        r += strf("ctime=%lld mtime=%lld ", static_cast<long long>(t->creationTime().totalTicks()), static_cast<long long>(t->modificationTime().totalTicks()));
        if (layout)
            r += strf("size=%llu bitrate=%g off=%llu", static_cast<unsigned long long>(t->size()), t->bitrate(), static_cast<unsigned long long>(t->startOffset()));
        r += "\n";
    }
    return r;
}
static void dumpChapter(std::string &r, T::AbstractChapter &c, int depth)
{
    r += std::string(static_cast<std::size_t>(depth * 2), ' ')
        + strf("CHAPTER id=%llu %lld-%lld h=%d e=%d", static_cast<unsigned long long>(c.id()), static_cast<long long>(c.startTime().totalTicks()),
            static_cast<long long>(c.endTime().totalTicks()), c.isHidden(), c.isEnabled());
    for (const auto &n : c.names())
        r += " " + quote(n) + "@" + n.locale().toString();
    for (auto t : c.tracks())
        r += strf(" t%llu", static_cast<unsigned long long>(t));
    r += "\n";
    for (std::size_t i = 0; i < c.nestedChapterCount(); ++i)
        if (auto *n = c.nestedChapter(i))
            dumpChapter(r, *n, depth + 1);
}
std::string dumpChapters(T::MediaFileInfo &f)
{
    std::string r;
    for (auto *c : f.chapters())
        dumpChapter(r, *c, 0);
    return r;
}
Bytes attachmentData(T::AbstractAttachment &a)
{
    if (!a.data())
        return Bytes();
    std::stringstream s;
    try {
        a.data()->copyTo(s);
    } catch (const std::ios_base::failure &) {
        return "(unreadable)";
    }
    return s.str();
}
std::string dumpAttachments(T::MediaFileInfo &f)
{
    std::string r;
    for (auto *a : f.attachments()) {
        if (a->isIgnored())
            continue;
        Bytes d;
        std::uint64_t n = 0;
        if (a->data()) {
            n = a->data()->size();
            d = attachmentData(*a);
        }
        r += strf("ATTACHMENT id=%llu name=%s mime=%s desc=%s size=%llu/%zu %016llx\n", static_cast<unsigned long long>(a->id()), quote(a->name()).c_str(), quote(a->mimeType()).c_str(),
            quote(a->description()).c_str(), static_cast<unsigned long long>(n), d.size(), static_cast<unsigned long long>(fnv(d)));
    }
    return r;
}
std::string dumpAll(T::MediaFileInfo &f, bool layout)
{
    std::string r;
    r += strf("FILE fmt=%s sub=%s mime=%s status=%d %d %d %d %d dur=%lld\n", std::string(f.containerFormatName()).c_str(), std::string(f.containerFormatSubversion()).c_str(), std::string(f.mimeType()).c_str(),
        static_cast<int>(f.containerParsingStatus()), static_cast<int>(f.tracksParsingStatus()), static_cast<int>(f.tagsParsingStatus()), static_cast<int>(f.chaptersParsingStatus()),
        static_cast<int>(f.attachmentsParsingStatus()), static_cast<long long>(f.duration().totalTicks()));
    if (layout)
        r += strf("LAYOUT off=%llu pad=%llu eff=%llu size=%llu\n", static_cast<unsigned long long>(f.containerOffset()), static_cast<unsigned long long>(f.paddingSize()),
            static_cast<unsigned long long>(f.effectiveSize()), static_cast<unsigned long long>(f.size()));
    if (auto *c = f.container()) {
        r += strf("CONTAINER %s %s v%llu/%llu segs=%zu ts=%u", quote(c->documentType()).c_str(), "",
            static_cast<unsigned long long>(c->version()), static_cast<unsigned long long>(c->readVersion()), c->segmentCount(), c->timeScale());
        for (const auto &t : c->titles())
            r += " title=" + quote(t);
        r += "\n";
    }
    r += textOf(dumpTags(f)) + dumpTracks(f, layout) + dumpChapters(f) + dumpAttachments(f);
    return r;
}
std::string firstDiff(std::string_view a, std::string_view b)
{
    std::size_t line = 0, la = 0, lb = 0;
    for (;;) {
        auto ea = a.find('\n', la), eb = b.find('\n', lb);
        auto x = a.substr(std::min(la, a.size()), ea == std::string_view::npos ? std::string_view::npos : ea - la);
        auto y = b.substr(std::min(lb, b.size()), eb == std::string_view::npos ? std::string_view::npos : eb - lb);
        if (x != y || (ea == std::string_view::npos) != (eb == std::string_view::npos))
            return strf("line %zu: ", line) + quote(x, 600) + " vs " + quote(y, 600);
        if (ea == std::string_view::npos)
            return "no difference";
        la = ea + 1;
        lb = eb + 1;
        ++line;
    }
}

// ---------------------------------------------------------------- text helpers
std::vector<std::uint32_t> codePoints(std::string_view s)
{
    std::vector<std::uint32_t> r;
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        std::uint32_t v = n == 1 ? c : n == 2 ? c & 31u : n == 3 ? c & 15u : c & 7u;
        for (int k = 1; k < n && i + static_cast<std::size_t>(k) < s.size(); ++k)
            v = (v << 6) | (static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]) & 63u);
        r.push_back(v);
        i += static_cast<std::size_t>(n);
    }
    return r;
}
std::string fromCodePoints(const std::vector<std::uint32_t> &cps)
{
    std::string r;
    for (auto v : cps) {
        if (v < 0x80)
            r += static_cast<char>(v);
        else if (v < 0x800) {
            r += static_cast<char>(0xC0 | (v >> 6));
            r += static_cast<char>(0x80 | (v & 63));
        } else if (v < 0x10000) {
            r += static_cast<char>(0xE0 | (v >> 12));
            r += static_cast<char>(0x80 | ((v >> 6) & 63));
            r += static_cast<char>(0x80 | (v & 63));
        } else {
            r += static_cast<char>(0xF0 | (v >> 18));
            r += static_cast<char>(0x80 | ((v >> 12) & 63));
            r += static_cast<char>(0x80 | ((v >> 6) & 63));
            r += static_cast<char>(0x80 | (v & 63));
        }
    }
    return r;
}
std::string randomText(Rng &r, std::size_t maxChars, int kind)
{
    if (kind < 0)
        kind = static_cast<int>(r.below(4));
    auto n = 1 + r.size(maxChars ? maxChars - 1 : 0);
    std::vector<std::uint32_t> c;
    for (std::size_t i = 0; i < n; ++i) {
        auto k = static_cast<int>(r.below(static_cast<std::uint64_t>(kind) + 1));
        std::uint32_t v = 0;
        switch (k) {
        case 0:
            v = static_cast<std::uint32_t>(r.range(0x20, 0x7e));
            break;
        case 1:
            v = static_cast<std::uint32_t>(r.range(0xa1, 0xff));
            break;
        case 2:
            v = r.coin() ? static_cast<std::uint32_t>(r.range(0x100, 0x17f)) : static_cast<std::uint32_t>(r.range(0x3041, 0x9fa0));
            break;
        default:
            v = static_cast<std::uint32_t>(r.range(0x1F300, 0x1F5FF));
        }
        c.push_back(v);
    }
    // no leading/trailing blanks: some formats use blanks as padding
    for (auto *p : { &c.front(), &c.back() })
        if (*p == 0x20)
            *p = 'b';
    return fromCodePoints(c);
}
std::string toUtf16(std::string_view utf8, bool be)
{
    W w;
    for (auto c : codePoints(utf8)) {
        auto put = [&](std::uint32_t u) { be ? w.be16(u) : w.le16(u); };
        if (c >= 0x10000) {
            c -= 0x10000;
            put(0xD800 + (c >> 10));
            put(0xDC00 + (c & 0x3ff));
        } else
            put(c);
    }
    return w.b;
}
bool isLatin1(std::string_view utf8)
{
    for (auto c : codePoints(utf8))
        if (c > 255)
            return false;
    return true;
}
std::string utf8ToLatin1(std::string_view utf8)
{
    std::string r;
    for (auto c : codePoints(utf8))
        r += c < 256 ? static_cast<char>(c) : '?';
    return r;
}
T::TagValue utf8Value(std::string_view utf8)
{
    return T::TagValue(utf8, T::TagTextEncoding::Utf8);
}
T::TagValue textValue(Rng &r, std::string_view utf8)
{
    switch (r.below(4)) {
    case 0:
        if (isLatin1(utf8)) {
            auto s = utf8ToLatin1(utf8);
            return T::TagValue(s, T::TagTextEncoding::Latin1);
        }
        [[fallthrough]];
    case 1:
    default:
        return utf8Value(utf8);
    case 2: {
        auto s = toUtf16(utf8, false);
        return T::TagValue(s, T::TagTextEncoding::Utf16LittleEndian);
    }
    case 3: {
        auto s = toUtf16(utf8, true);
        return T::TagValue(s, T::TagTextEncoding::Utf16BigEndian);
    }
    }
}
T::TagValue pictureValue(Rng &, std::string mime, std::string_view data, std::string_view desc)
{
    T::TagValue v(data.data(), data.size(), T::TagDataType::Picture);
    v.setMimeType(mime);
    if (!desc.empty())
        v.setDescription(desc, T::TagTextEncoding::Utf8);
    return v;
}
const char *knownFieldName(T::KnownField f)
{
    static const char *names[] = { "Title", "Album", "Artist", "Genre", "Comment", "Bpm", "Bps", "Lyricist", "TrackPosition", "DiskPosition", "PartNumber", "TotalParts",
        "Encoder", "RecordDate", "Performers", "Length", "Language", "EncoderSettings", "Lyrics", "SynchronizedLyrics", "Grouping", "RecordLabel", "Cover", "Composer",
        "Rating", "Description", "Vendor", "AlbumArtist", "ReleaseDate" };
    auto i = static_cast<unsigned>(f);
    if (i < sizeof names / sizeof *names)
        return names[i];
    static std::vector<std::string> more(T::knownFieldArraySize);
    if (i >= more.size())
        return "Invalid";
    if (more[i].empty())
        more[i] = "Field" + std::to_string(i);
    return more[i].c_str();
}
} // namespace tp
