// Glue between the harness and the library under observation.
#pragma once
#include "core.h"

#include <tagparser/abstractattachment.h>
#include <tagparser/abstractchapter.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/flac/flacstream.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/matroska/matroskaattachment.h>
#include <tagparser/matroska/matroskachapter.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/matroska/matroskatrack.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/mp4/mp4track.h>
#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tag.h>
#include <tagparser/tagvalue.h>
#include <tagparser/vorbis/vorbiscomment.h>

#include <memory>
#include <optional>

namespace tp {
namespace T = TagParser;

// --- settings for applying changes
struct Cfg {
    bool forceRewrite = true, forceTagPos = true, forceIndexPos = true;
    T::ElementPosition tagPos = T::ElementPosition::Keep, indexPos = T::ElementPosition::Keep;
    std::size_t minPad = 0, maxPad = 0, prefPad = 0;
    bool preserveMuxer = false, preserveWriter = false;
    bool preserveTiming = true;
    bool fullParse = false;
    std::string savePath, backupDir;
    std::string toString() const;
};
Cfg randomCfg(Rng &r);
void applyCfg(T::MediaFileInfo &f, const Cfg &c);

enum class Outcome { Ok, Failure, Aborted, Io, Other };
struct Result {
    Outcome outcome = Outcome::Ok;
    std::string what;
    T::Diagnostics diag;
    T::DiagLevel level() const { return diag.level(); }
    std::string diagText(T::DiagLevel min = T::DiagLevel::Warning) const;
};
const char *outcomeName(Outcome o);

// a media file opened through the library
struct Media {
    T::MediaFileInfo info;
    T::Diagnostics diag;
    T::AbortableProgressFeedback progress;
    explicit Media(const std::string &path)
        : info(std::string_view(path))
    {
    }
    // runs parseEverything; classifies exceptions
    Result parse();
    Result apply();
    template <class F> Result run(F &&f)
    {
        Result r;
        try {
            IoScope scope;
            f(r.diag);
        } catch (const T::OperationAbortedException &e) {
            r.outcome = Outcome::Aborted;
            r.what = e.what();
        } catch (const T::Failure &e) {
            r.outcome = Outcome::Failure;
            r.what = e.what();
        } catch (const std::ios_base::failure &e) {
            r.outcome = Outcome::Io;
            r.what = e.what();
        } catch (const std::exception &e) {
            r.outcome = Outcome::Other;
            r.what = e.what();
        }
        return r;
    }
};

// canonical textual form of a value / the tags / tracks / ... ; equal iff content is equal
struct ValueForm {
    bool meta = true;
    bool encoding = false;
};
std::string canon(const T::TagValue &v, bool meta = true);
struct FieldDump {
    std::string id, value;
    bool operator==(const FieldDump &o) const { return id == o.id && value == o.value; }
};
struct TagDump {
    std::string kind, target;
    std::vector<FieldDump> fields;
};
std::vector<TagDump> dumpTags(T::MediaFileInfo &f);
std::string textOf(const std::vector<TagDump> &t);
std::string dumpTracks(T::MediaFileInfo &f, bool layout = false);
std::string dumpChapters(T::MediaFileInfo &f);
std::string dumpAttachments(T::MediaFileInfo &f);
Bytes attachmentData(T::AbstractAttachment &a);
std::string dumpAll(T::MediaFileInfo &f, bool layout = false);
std::string firstDiff(std::string_view a, std::string_view b);

std::string utf8Of(const T::TagValue &v);
// picks a random Unicode text; kind: 0 ascii, 1 latin1, 2 bmp, 3 any
std::string randomText(Rng &r, std::size_t maxChars, int kind = -1);
std::string toUtf16(std::string_view utf8, bool be);
bool isLatin1(std::string_view utf8);
std::string utf8ToLatin1(std::string_view utf8);
std::vector<std::uint32_t> codePoints(std::string_view utf8);
std::string fromCodePoints(const std::vector<std::uint32_t> &cps);
T::TagValue textValue(Rng &r, std::string_view utf8); // random encoding able to represent it
T::TagValue utf8Value(std::string_view utf8);
T::TagValue pictureValue(Rng &r, std::string mime, std::string_view data, std::string_view desc);
const char *knownFieldName(T::KnownField f);

} // namespace tp
