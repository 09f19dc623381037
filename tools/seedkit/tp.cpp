// Small command line driver of the library used by the demonstrations: tp FILE COMMAND...
#include <tagparser/abstractattachment.h>
#include <tagparser/abstractchapter.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/abstractcontainer.h>
#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/settings.h>
#include <tagparser/tag.h>
#include <tagparser/tagvalue.h>
#include <iostream>
#include <cstring>
#include <fstream>
#include <memory>
using namespace TagParser;
using namespace std;
static KnownField fieldByName(const string &n)
{
    static const pair<const char *, KnownField> map[] = { { "Title", KnownField::Title }, { "Album", KnownField::Album }, { "Artist", KnownField::Artist },
        { "Genre", KnownField::Genre }, { "RecordDate", KnownField::RecordDate }, { "Comment", KnownField::Comment }, { "TrackPosition", KnownField::TrackPosition },
        { "DiskPosition", KnownField::DiskPosition }, { "Encoder", KnownField::Encoder }, { "Cover", KnownField::Cover }, { "Rating", KnownField::Rating },
        { "Lyrics", KnownField::Lyrics }, { "Composer", KnownField::Composer }, { "Bpm", KnownField::Bpm }, { "Length", KnownField::Length }, { "Description", KnownField::Description },
        { "AlbumArtist", KnownField::AlbumArtist }, { "ISRC", KnownField::ISRC }, { "Language", KnownField::Language }, { "Publisher", KnownField::Publisher } };
    for (auto &m : map)
        if (n == m.first)
            return m.second;
    throw runtime_error("unknown field " + n);
}
static string esc(const string &s)
{
    string r;
    for (unsigned char c : s) {
        if (c < 32 || c == 127 || c == '\\') { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}
static void dumpTag(Tag *t)
{
    cout << "tag type=" << t->typeName() << " target=" << t->target().toString([](auto) { return TagTargetLevel::Unspecified; }) << "\n";
    for (int f = static_cast<int>(firstKnownField); f <= static_cast<int>(lastKnownField); ++f) {
        for (auto *v : t->values(static_cast<KnownField>(f))) {
            cout << "  field " << f << " ";
            if (v->type() == TagDataType::Picture || v->type() == TagDataType::Binary)
                cout << "bin size=" << v->dataSize() << " hash=" << hash<string_view>()(string_view(v->dataPointer(), v->dataSize())) << " mime=" << esc(v->mimeType()) << " desc=" << esc(v->description());
            else
                try { cout << "text=" << esc(v->toString(TagTextEncoding::Utf8)); } catch (const exception &) { cout << "unconvertible"; }
            cout << "\n";
        }
    }
}
int main(int argc, char **argv)
{
    int rc = 0;
    auto path = string(argv[1]);
    auto f = make_unique<MediaFileInfo>(string_view(path));
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f->setMinPadding(0), f->setMaxPadding(0), f->setPreferredPadding(0);
    for (int i = 2; i < argc; ++i) {
        string a = argv[i], k = a, v;
        if (auto p = a.find('='); p != string::npos)
            k = a.substr(0, p), v = a.substr(p + 1);
        auto num = [&v] { return strtoull(v.c_str(), nullptr, 0); };
        auto pos = [&v] { return v == "before" ? ElementPosition::BeforeData : v == "after" ? ElementPosition::AfterData : ElementPosition::Keep; };
        try {
            if (k == "rewrite") f->setForceRewrite(num());
            else if (k == "forceTagPos") f->setForceTagPosition(num());
            else if (k == "forceIndexPos") f->setForceIndexPosition(num());
            else if (k == "tagPos") f->setTagPosition(pos());
            else if (k == "indexPos") f->setIndexPosition(pos());
            else if (k == "minPad") f->setMinPadding(num());
            else if (k == "maxPad") f->setMaxPadding(num());
            else if (k == "prefPad") f->setPreferredPadding(num());
            else if (k == "saveAs") f->setSaveFilePath(v);
            else if (k == "backupDir") f->setBackupDirectory(v);
            else if (k == "fullParse") f->setForceFullParse(num());
            else if (k == "parse") {
                f->parseEverything(diag, progress);
                if (f->tagsParsingStatus() != ParsingStatus::Ok || f->tracksParsingStatus() != ParsingStatus::Ok)
                    cout << "parsing not ok\n";
            } else if (k == "create") {
                TagCreationSettings s;
                if (v.find("noid3v1") != string::npos) s.id3v1usage = TagUsage::Never;
                if (v.find("id3v1") == 0) s.id3v1usage = TagUsage::Always;
                if (v.find("v2.3") != string::npos) s.id3v2MajorVersion = 3;
                if (v.find("v2.4") != string::npos) s.id3v2MajorVersion = 4;
                f->createAppropriateTags(s);
            } else if (k == "rmtags") f->removeAllTags();
            else if (k == "rmtrack") {
                for (auto *t : f->tracks())
                    if (t->id() == num()) { f->container()->removeTrack(t); break; }
            } else if (k == "Picture") {
                for (auto *t : f->tags()) {
                    string d(num(), '\0');
                    for (size_t j = 0; j < d.size(); ++j) d[j] = static_cast<char>(1 + j % 251);
                    TagValue val(d.data(), d.size(), TagDataType::Picture);
                    val.setMimeType("image/png");
                    t->setValue(KnownField::Cover, val);
                }
            } else if (k == "apply") {
                AbortableProgressFeedback applyProgress;
                f->applyChanges(diag, applyProgress);
            } else if (k == "reopen") f = make_unique<MediaFileInfo>(string_view(path));
            else if (k == "tags") for (auto *t : f->tags()) dumpTag(t);
            else if (k == "tracks") {
                for (auto *t : f->tracks())
                    cout << "track id=" << t->id() << " type=" << t->mediaTypeName() << " format=" << t->format().abbreviation() << " lang=" << t->locale().toString() << " name=" << esc(t->name())
                         << " duration=" << t->duration().totalMilliseconds() << " rate=" << t->samplingFrequency() << " channels=" << t->channelCount() << " bits=" << t->bitsPerSample()
                         << " samples=" << t->sampleCount() << " size=" << t->size() << " enabled=" << t->isEnabled() << " default=" << t->isDefault() << " forced=" << t->isForced() << "\n";
            } else if (k == "info")
                cout << "format=" << f->containerFormatAbbreviation() << " duration=" << f->duration().totalMilliseconds() << " padding=" << f->paddingSize() << "\n";
            else if (k == "attachments") {
                for (auto *t : f->attachments()) {
                    cout << "attachment name=" << esc(t->name()) << " mime=" << t->mimeType() << " id=" << t->id() << " size=" << (t->data() ? static_cast<long long>(t->data()->size()) : -1) << "\n";
                }
            } else if (k == "diag") {
                for (auto &m : diag)
                    if (m.level() >= DiagLevel::Warning) cout << "diag " << m.levelName() << ": " << esc(m.message()) << "\n";
            } else if (k.rfind("del:", 0) == 0) { for (auto *t : f->tags()) t->setValue(fieldByName(k.substr(4)), TagValue()); }
            else for (auto *t : f->tags()) t->setValue(fieldByName(k), TagValue(v, TagTextEncoding::Utf8, t->proposedTextEncoding()));
        } catch (const Failure &e) { cout << "failure at " << a << ": " << e.what() << "\n"; rc = 3; }
        catch (const ios_base::failure &e) { cout << "io failure at " << a << ": " << e.what() << "\n"; rc = 4; }
    }
    return rc;
}
