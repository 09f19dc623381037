#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["public API (MediaFileInfo, Tag, TagValue, ...)", "bytes of the file on disk"],
                          "hook_needed": None}})

p("C01", "No memory error or undefined behaviour, whatever bytes a media file holds",
  "Whatever bytes a file contains - well-formed, truncated, mutated, or crafted with extreme sizes, counts, offsets and nesting - opening, fully parsing, inspecting and editing it through the library never reads or writes outside live memory, uses a freed or null object, crashes the process, or executes otherwise undefined behaviour. This covers every supported container, stream and tag format, including re-applying changes to a damaged file that was still accepted.",
  ["inputs"], "every byte string presented as a media file, every sequence of parse calls, inspection of the results and applying changes",
  "the existing tests parse a handful of well-formed sample files (absent here, so container parsers are not run at all) without sanitizers; memory errors need specific malformed fields",
  ["mediafileinfo.cpp", "genericfileelement.h", "mp4/", "matroska/", "ogg/", "flac/", "id3/", "vorbis/", "mpegaudio/", "avc/", "av1/", "aac/", "adts/", "ivf/", "wav/", "opus/", "avi/", "tagvalue.cpp"],
  [("size checks before reading", "GenericFileElement::parse, Mp4Atom/EbmlElement::internalParse, Id3v2Frame::parse, FlacMetaDataBlock*, OggPage::parseHeader"), ("exceptions on truncation", "exceptions.h")],
  ["ASan/UBSan reports, fatal signals, in forked workers"])
p("C02", "Parsing always ends with bounded effort and only the documented errors",
  "For every input, parsing ends after an amount of work and memory proportional to the file's size (no endless loop, no unbounded recursion, no allocation far beyond the file's size merely because a size field claims so). Problems surface only as diagnostics, as the parsing status of the affected part, or as the documented exceptions (the library's failure type, or the standard I/O failure); no other exception type escapes from a parsing call.",
  ["inputs"], "every byte string presented as a media file; every parse call",
  "tests only use small well-formed inputs; work and exception type depend on hostile size, count and offset fields",
  ["mediafileinfo.cpp", "abstractcontainer.cpp", "abstracttrack.cpp", "genericfileelement.h", "mp4/mp4track.cpp", "matroska/ebmlelement.cpp", "ogg/oggiterator.cpp", "flac/flacstream.cpp", "vorbis/vorbiscomment.cpp", "id3/id3v2frame.cpp"],
  [("catch blocks turning Failure into diagnostics and status", "MediaFileInfo::parse*"), ("size limits", "per-format parsers")],
  ["I/O operation counts on the stream, CPU budget, peak allocation, exception types at the API boundary"])
p("C03", "Reading a file never changes it",
  "Opening and parsing a file (container, tracks, tags, chapters, attachments; with or without full validation) and inspecting or editing the in-memory results leaves every byte of the file, and its directory, exactly as they were until changes are explicitly applied. A read-only file can be parsed with the same results as a writable one.",
  ["inputs", "histories"], "every file content, every order of parse/inspect/edit calls not including applying changes",
  "the tests never compare the file before and after parsing",
  ["mediafileinfo.cpp", "basicfileinfo.cpp"],
  [("open in read-only mode, fall back", "BasicFileInfo::open/reopen, MediaFileInfo::parse*")],
  ["file bytes, directory listing, parse results of read-only vs. writable open"])
p("C04", "ID3v1: values written are read back; file body intact; only fitting text stored",
  "Whatever title, artist, album, year, comment, track number and genre is assigned to an ID3v1 tag (text in an encoding ID3v1 tags support: Latin-1 or UTF-8), after applying changes the file ends with exactly one 128-byte tag laid out as ID3v1/1.1 prescribes, and re-reading yields the assigned values, each cut to the capacity of its slot (never spilling into a neighbouring slot) and with a diagnostic when something had to be cut or could not be represented. Adding, changing or removing the tag changes nothing else in the file.",
  ["inputs", "histories"], "every text value in every encoding, every track number and genre, any number of edit/apply rounds",
  "tests use one sample file (absent) and a few values; boundaries (exact length, multibyte cut, comment with track number, unknown genre) are not covered",
  ["id3/id3v1tag.cpp", "id3/id3genres.cpp", "mediafileinfo.cpp"],
  [("fixed-size slots, version byte for track", "Id3v1Tag::make, writeValue"), ("128 bytes at the end", "MediaFileInfo::makeMp3File")])
p("C05", "ID3v2: values written are read back in 2.2, 2.3 and 2.4",
  "For every ID3v2 version (2.2, 2.3, 2.4), every supported field and every value (text in any supported encoding, multiple values, numbers, positions in sets, pictures with type/description/MIME, comments and lyrics with language/description, ratings, dates), applying changes and re-reading yields the same values with the same descriptions, languages, MIME types and order (frame flags of edited frames are unspecified). The tag bytes written are well-formed for that version as judged by an independent ID3v2 reader: correct syncsafe or plain sizes, version-correct frame IDs and text encodings, frames exactly filling the tag up to its padding.",
  ["inputs", "histories"], "every version, field, value, encoding, number of values, and edit/apply sequence",
  "tests check single values of a few frames on a missing sample file",
  ["id3/id3v2tag.cpp", "id3/id3v2frame.cpp", "id3/id3v2frameids.cpp", "mediafileinfo.cpp", "tagvalue.cpp"],
  [("per-version frame makers", "Id3v2FrameMaker, Id3v2TagMaker"), ("frame id conversion", "Id3v2FrameIds::convertTo*")])
p("C06", "iTunes-style MP4 tags: values written are read back",
  "For every supported field of an MP4 tag and every value (Unicode text, multiple values, numbers, track/disk positions within 16 bit, standard and custom genres, booleans/ratings, JPEG/PNG/BMP covers, extended name/mean fields), applying changes and re-reading yields the same values, and an independent atom reader sees them as well-formed metadata items with the right type indicator. This holds for plain and fragmented files, with or without existing metadata, any tag position, and with repeated edits.",
  ["inputs", "histories", "configurations"], "every field/value combination, repeated edit/apply rounds, all layout configurations",
  "the MP4 tests need sample files and cover few values",
  ["mp4/mp4tag.cpp", "mp4/mp4tagfield.cpp", "mp4/mp4container.cpp", "tagvalue.cpp"],
  [("expected raw data types per field", "Mp4TagField::expectedRawDataTypes/appropriateRawDataType"), ("field maker", "Mp4TagFieldMaker, Mp4TagMaker")])
p("C07", "Matroska tags: values, targets and nesting written are read back",
  "For every tag target (level, level name, track/chapter/edition/attachment UIDs) and every field with any value, language, default flag, nested sub-fields and binary data, applying changes and re-reading yields the same tags, with the same values in the same order under the same targets; tags with different targets never mix. The same holds for the segment title. An independent EBML reader sees the same tags in the written file. (The default flag of newly assigned values, ratings beyond some four digits, and the nested part of a field that is cleared are unspecified.)",
  ["inputs", "histories", "configurations"], "every set of tags, targets, fields and values; repeated edit/apply rounds",
  "the Matroska tests need sample files and check a few values",
  ["matroska/matroskatag.cpp", "matroska/matroskatagfield.cpp", "matroska/matroskacontainer.cpp", "tagtarget.cpp"],
  [("size computed then written", "MatroskaTagMaker, MatroskaTagFieldMaker"), ("createTag by target", "GenericContainer::createTag")])
p("C08", "Vorbis comments: values written are read back in Ogg, Opus and FLAC files",
  "For every Vorbis comment (any vendor string, any field names, any number of values per field, cover pictures of any type with description and MIME type) in Ogg Vorbis, Opus, FLAC-in-Ogg and raw FLAC, applying changes and re-reading yields the same vendor, the same values in order and the same pictures (empty values may be dropped; spelling variants of the same known field such as TRACKTOTAL may be merged). An independent reader of the written stream sees the same comment with the right entry count and framing.",
  ["inputs", "histories", "configurations"], "every comment content (sizes crossing lacing and page boundaries included) and container",
  "the Ogg/FLAC tests need sample files and use small comments",
  ["vorbis/vorbiscomment.cpp", "vorbis/vorbiscommentfield.cpp", "flac/flacstream.cpp", "flac/flacmetadata.cpp", "ogg/oggcontainer.cpp"],
  [("comment maker", "VorbisComment::make, VorbisCommentField::make"), ("base64/binary picture block", "FlacMetaDataBlockPicture")])
p("C09", "MP4: applying changes never damages or mis-addresses the media data",
  "After applying any change to an MP4 file - plain, with several media-data atoms, 32- or 64-bit chunk offsets, or fragmented; in place or rewritten; metadata and index at the front or back; any padding - resolving every sample of every track through the written sample tables and fragments yields byte-for-byte the media data it yielded before. All timing, sizes, sync and description tables as well as track order are retained, and the written atom tree is well-formed with every atom exactly containing its children.",
  ["inputs", "configurations", "histories"], "every MP4 layout (atom order, number/size of mdat, stco/co64, moof), every layout configuration, and repeated applies",
  "the tests compare a few properties of a handful of (missing) files; offset bugs need specific layouts",
  ["mp4/mp4container.cpp", "mp4/mp4track.cpp", "mp4/mp4atom.cpp"],
  [("chunk offset update after the layout is decided", "Mp4Container::updateOffsets, Mp4Track::updateChunkOffsets"), ("size calculation before writing", "Mp4Container::internalMakeFile, Mp4Track::requiredSize")])
p("C10", "Matroska: applying changes keeps every block; seek and cue entries stay right",
  "After applying any change to a Matroska/WebM file - in place or rewritten, tags and index at front or back, any padding, known or unknown cluster/segment sizes - every block of every cluster of every segment is still there with the same track, absolute timestamp, flags and payload in the same order. Every seek-head entry points at the element it names, every cue point points at the cluster and block it pointed at before (positions relative to their own segment), and all elements nest exactly with correct sizes and checksums absent or correct.",
  ["inputs", "configurations", "histories"], "every Matroska layout, every layout configuration, repeated applies",
  "the tests need sample files; offset errors depend on size-denotation lengths and layout",
  ["matroska/matroskacontainer.cpp", "matroska/matroskacues.cpp", "matroska/matroskaseekinfo.cpp", "matroska/ebmlelement.cpp"],
  [("iterative cue/seek/segment size calculation", "MatroskaContainer::internalMakeFile"), ("cue updater", "MatroskaCuePositionUpdater"), ("seek info", "MatroskaSeekInfo::push/shift")])
p("C11", "Ogg: rewriting keeps every packet and a valid page structure for all streams",
  "After applying changes to any Ogg file (one or more logical streams, multiplexed or chained; Vorbis, Opus, FLAC, Speex or unknown codecs), each logical stream still consists of the same packets in the same order with the same granule positions except for the comment packet itself. Every page written has a correct checksum, a gapless sequence number within its stream, correct continuation and begin/end-of-stream flags, and valid lacing.",
  ["inputs", "configurations", "histories"], "every packet/page layout and comment size (old and new, both directions across page boundaries)",
  "the tests need sample files; comments spanning pages or shared pages are not covered",
  ["ogg/oggcontainer.cpp", "ogg/oggpage.cpp", "ogg/oggiterator.cpp", "ogg/oggstream.cpp"],
  [("page re-segmentation", "OggContainer::makeVorbisCommentSegment, internalMakeFile"), ("checksum update", "OggPage::updateChecksum")])
p("C12", "MP3, FLAC and other streams: audio data and foreign metadata stay byte-identical",
  "Adding, editing or removing ID3v1/ID3v2 tags of an MP3, AAC, WAV or other stream, or Vorbis comments and pictures of a raw FLAC stream, leaves the audio data byte-for-byte the same and contiguous, in place or rewritten, with any padding. Foreign metadata is retained: FLAC stream info, seek table, application, cue sheet and unknown blocks keep content and order with a valid last-block flag, and an APE tag at the end stays in place. (Junk before a recognised signature may be dropped.)",
  ["inputs", "configurations", "histories"], "every stream content and tag combination, padding setting and edit sequence",
  "the tests need sample files and compare few fields",
  ["mediafileinfo.cpp", "flac/flacstream.cpp", "flac/flacmetadata.cpp"],
  [("stream data copied from effective offset", "MediaFileInfo::makeMp3File"), ("block copying", "FlacStream::makeHeader")])
p("C13", "Content the library does not understand survives editing",
  "Editing tags of a file keeps everything the library does not interpret: unknown ID3v2 frames, unknown MP4 atoms and metadata items (at file, movie, track and user-data level), unknown EBML elements, Matroska chapters, attachments and track-level private data, unknown Vorbis comment names and unknown FLAC blocks remain with identical content. Nothing the user did not ask to change is dropped, reordered within its kind, or altered.",
  ["inputs", "configurations"], "every file with foreign content and every edit",
  "the tests never place unknown content into files",
  ["mp4/mp4container.cpp", "mp4/mp4track.cpp", "matroska/matroskacontainer.cpp", "matroska/matroskatrack.cpp", "id3/id3v2tag.cpp", "mp4/mp4tag.cpp", "flac/flacstream.cpp", "vorbis/vorbiscomment.cpp"],
  [("copying of unrecognised elements", "container makers, makeTrack, Id3v2Tag fields as raw frames")])
p("C14", "Re-applying without changes is stable",
  "Applying changes when nothing was edited keeps all tag values, tracks, chapters and attachments, and doing so again and again reaches a fixed point: after the first normalising write, each further write with the same settings yields the same tags and media and does not make the file grow or drift (dropping empty tags and normalising names may take two writes). Parsing the same file twice, or after clearing and re-parsing, or on a second object, yields the same results.",
  ["inputs", "histories", "configurations"], "every file and settings, any number of parse and apply rounds",
  "tests apply once per file; drift only shows over several rounds",
  ["mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp", "flac/flacstream.cpp", "mp4/mp4tagfield.cpp", "id3/id3v2frame.cpp"],
  [("clearing results after apply", "MediaFileInfo::clearParsingResults/applyChanges")])
p("C15", "Aborting leaves the original intact and is always reported",
  "If an operation is aborted - at any progress step, from the callback or from another thread - applying changes ends by reporting the abort, and afterwards the file at the original path holds exactly its original content (restored from the backup if needed); it never ends up truncated or half-written while the call reports success (an abort requested too late lets the write complete normally; the result is then complete). An aborted parse is reported and leaves the file untouched.",
  ["crash_points", "schedules", "inputs"], "every abort point of every write strategy (rewrite, save to a different path, in place before modification) and format",
  "the tests never abort",
  ["progressfeedback.h", "backuphelper.cpp", "mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp", "genericfileelement.h"],
  [("stopIfAborted and OperationAbortedException", "AbortableProgressFeedback"), ("restore backup", "BackupHelper::handleFailureAfterFileModifiedCanonical")])
p("C16", "A failing write never loses the original file",
  "If writing fails at any point while a file is rewritten or saved elsewhere (no space, file size limit, missing or unwritable directory, unwritable target), applying changes throws the failure to the caller and the original content remains available: either the file at the original path is unchanged or restored, or the backup holds it completely. No partial file is left at the original path when a backup existed, and a file that does not get rewritten successfully is never reported as written. (In-place updates keep no backup; their failures are reported as well.)",
  ["fault_sequences", "crash_points"], "every write position at which an error may strike, for every format and write strategy that rewrites the file",
  "the tests never inject I/O errors",
  ["backuphelper.cpp", "mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp"],
  [("exception mask on streams", "BasicFileInfo, makers"), ("restore backup", "BackupHelper")])
p("C17", "Backups and save-as: nothing existing is overwritten, the source stays untouched",
  "When a file is rewritten, its complete original content is kept under a backup name (next to it or in the configured backup directory) which never overwrites any existing file, however many backups exist. When a save path different from the current path is set, the new content appears there and the source keeps its exact bytes; a backup can be restored to give back exactly the original.",
  ["inputs", "histories", "configurations"], "every format, existing neighbouring files, backup directory setting (absolute, relative, missing), file names with or without extension, and number of rounds",
  "the backup test covers one sequence with a plain file",
  ["backuphelper.cpp", "mediafileinfo.cpp", "basicfileinfo.cpp"],
  [("name probing until unused", "BackupHelper::createBackupFileCanonical"), ("save path handling", "container makers")])
p("C18", "Padding limits, forced rewrite and tag/index position are honoured",
  "When the file is rewritten, the padding present in the result equals the preferred padding; it is rewritten exactly when rewriting is forced, when a forced tag or index position is not met, or when in-place padding would leave the configured minimum/maximum, and otherwise edited in place without a backup. With a forced tag or index position the written MP4/Matroska file has the tag/index at the requested side of the media data, and the reported padding and positions agree with the bytes on disk.",
  ["configurations", "inputs"], "every combination of min/max/preferred padding, force flags, tag and index position, tag growth or shrinkage, and format supporting padding",
  "tests try a few combinations on missing files",
  ["mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "flac/flacstream.cpp"],
  [("padding decision", "MediaFileInfo::makeMp3File, Mp4Container/MatroskaContainer::internalMakeFile")])
p("C19", "Tag value conversions are exact, total and consistent",
  "A tag value returns what was stored: text survives every supported encoding conversion unless not representable, integers, positions in sets, dates, durations, ratings, genres and pictures survive text conversion and back; conversions of unsuitable content raise the conversion error and never yield garbage. Comparison is an equivalence relation consistent with the content (independent of encoding, byte order mark and, if requested, case and metadata), and copies are equal to and independent of their source.",
  ["inputs"], "every value of every type in every encoding, every conversion, every pair compared",
  "unit tests sample a dozen values",
  ["tagvalue.cpp", "tagvalue.h", "positioninset.h"],
  [("type-erased value with encoding", "TagValue::to*/assign*/compareTo/convertDataEncoding"), ("rating scales", "TagValue::toPopularity, Popularity::scaleTo")])
p("C20", "Tag field access behaves like an ordered multi-map of known fields",
  "For every tag format, after any sequence of setting, adding, replacing, clearing and removing known fields, each field reports exactly the values the sequence should leave, in order; other fields are unaffected, and counts, presence checks and first-value access agree with each other. Copying all values from one tag to another transfers every field both formats support, replaces existing values only when asked, and merging ID3v2 tags keeps all fields of the first tag and adds all fields of the others it does not have yet.",
  ["histories", "inputs"], "every sequence of tag-editing calls over all known fields and formats",
  "tests exercise short fixed sequences",
  ["tag.cpp", "fieldbasedtag.h", "id3/id3v1tag.cpp", "id3/id3v2tag.cpp", "mp4/mp4tag.cpp", "matroska/matroskatag.cpp", "vorbis/vorbiscomment.cpp"],
  [("generic value access", "FieldMapBasedTag, Tag::insertValues"), ("known field mapping", "internallyGetFieldId/internallyGetKnownField")])
p("C21", "Conversion between ID3 versions loses nothing that both can hold",
  "Converting between ID3v1 and ID3v2, or changing an ID3v2 tag between versions 2.2, 2.3 and 2.4, keeps every value both versions can represent, including dates, genres, track positions, pictures, comments, lyrics and multiple values. Creating the tags appropriate for a file according to the given usage settings yields exactly the requested tags with the requested version, carrying over existing values as requested.",
  ["inputs", "configurations"], "every tag content, every pair of versions, all tag creation settings",
  "tests try few settings on missing sample files",
  ["mediafileinfo.cpp", "id3/id3v2tag.cpp", "id3/id3v2frameids.cpp", "id3/id3v1tag.cpp", "settings.h"],
  [("version conversion on prepare", "Id3v2Tag::ensureTextValuesAreProperlyEncoded/prepareRecordDataForMaking, Id3v2FrameMaker"), ("tag creation", "MediaFileInfo::createAppropriateTags")])
p("C22", "Attachments, chapters and track settings are kept and edited faithfully",
  "Adding, renaming, changing or removing attachments, and editing or removing tracks (name, language, enabled/default/forced flags) is reflected exactly after applying changes and re-reading: edited items have their new values, removed ones are gone, added ones are complete with identical data, and all other attachments, chapters and tracks are unchanged. IDs stay unique and references by tags remain valid.",
  ["inputs", "histories", "configurations"], "every set of attachments/tracks/chapters and every edit sequence",
  "the tests need sample files and cover a single edit",
  ["matroska/matroskaattachment.cpp", "matroska/matroskatrack.cpp", "matroska/matroskachapter.cpp", "matroska/matroskacontainer.cpp", "mp4/mp4track.cpp", "mp4/mp4container.cpp", "abstracttrack.cpp"],
  [("attachment maker", "MatroskaAttachmentMaker"), ("track header maker", "MatroskaTrackHeaderMaker, Mp4Track::makeTrack")])
p("C23", "Technical information reported matches the stream",
  "For every well-formed file, the reported container format, track count, media type and codec, duration, sampling frequency, channel count, bit depth, pixel and display size, frame count, language, name, flags and creation time equal what the stream's headers encode. This holds for MP4, Matroska/WebM, Ogg (Vorbis, Opus, FLAC), FLAC, MP3 (all MPEG versions and layers), ADTS-AAC, WAV and IVF.",
  ["inputs"], "every combination of header parameters of every supported format",
  "tests check a few values on (missing) sample files",
  ["mp4/mp4track.cpp", "mp4/mp4container.cpp", "matroska/matroskatrack.cpp", "matroska/matroskacontainer.cpp", "ogg/oggstream.cpp", "vorbis/vorbisidentificationheader.cpp", "opus/opusidentificationheader.cpp", "flac/flacmetadata.cpp", "mpegaudio/mpegaudioframe.cpp", "adts/adtsframe.cpp", "wav/waveaudiostream.cpp", "ivf/ivfstream.cpp", "mediaformat.cpp"],
  [("header parsing", "internalParseHeader of each track class")])
p("C24", "Damage that loses information is diagnosed; sound files draw no errors",
  "Truncating or corrupting a well-formed file so that information is missing yields a warning or worse diagnostic (or a failing parsing status or exception), never a silent partial result. A well-formed file yields no warning or critical diagnostic on parsing, and none after being written by the library and read again.",
  ["inputs"], "every truncation point within structural data and every structural corruption; every well-formed file of every format",
  "tests hardly check diagnostics",
  ["diagnostics.h", "mediafileinfo.cpp", "genericfileelement.h", "mp4/", "matroska/", "ogg/", "flac/", "id3/"],
  [("diagnostic messages on every deviation", "diag.emplace_back in all parsers")])
p("C25", "Separate objects work in separate threads; the abort flag is thread-safe",
  "Parsing and writing different files with separate objects in concurrent threads gives exactly the results of doing it sequentially and is free of data races. Requesting an abort from another thread while an operation reports progress is race-free and takes effect.",
  ["schedules"], "every interleaving of operations on separate objects, and of abort requests with a running operation",
  "the tests are single-threaded",
  ["progressfeedback.h", "mediafileinfo.cpp", "localehelper.cpp", "mp4/", "matroska/", "ogg/", "id3/"],
  [("no mutable global state; atomic abort flag", "AbortableProgressFeedback::m_aborted; function-local const statics")],
  ["TSan reports, result equality of concurrent vs. sequential runs"])
p("C26", "Formats are recognised by signature, also behind leading tags and junk",
  "A file starting with the signature of a supported format - directly, after one or more ID3v2 tags, after an APE tag, or after a limited run of leading zero bytes - is recognised as that format with the right container offset, and everything the format has is found as without the prefix. Content without a known signature is reported as unknown, not as some format, and detection never depends on the file name alone.",
  ["inputs"], "every prefix (zero bytes, ID3v2 tags with and without footer/padding, APE header) and every following content",
  "the signature test covers a list of constants",
  ["signature.cpp", "mediafileinfo.cpp"],
  [("signature table and skipping of tags/junk", "parseSignature, MediaFileInfo::parseContainerFormat")])
p("C27", "Structure inspection: element trees nest exactly and validate true",
  "The element tree exposed for MP4 and Matroska files covers the file exactly: siblings are contiguous and in file order, children lie within their parent, offsets, header and data sizes add up to what an independent reader finds, and searching by ID or path finds the first such element and nothing else. Full validation of a sound file (structure, index, checksums) reports no problem, and reports one if an index entry, a checksum or a nesting size is corrupted.",
  ["inputs"], "every well-formed or singly corrupted MP4/Matroska/Ogg structure; any order of lazily parsing siblings and children",
  "tests walk no element tree",
  ["genericfileelement.h", "mp4/mp4atom.cpp", "matroska/ebmlelement.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp"],
  [("lazy parsing of child/sibling", "GenericFileElement::parse/nextSibling/firstChild/childById"), ("validation", "MatroskaContainer::validateIndex/validateElementStructure, OggContainer checksum validation")])
p("C28", "Helper types convert and format consistently",
  "Positions in sets, languages, track/chapter/attachment selection by target, aspect ratios, sizes, margins, file-name helpers and diagnostics aggregation give consistent results: parsing the formatted text gives back the value, language codes map to the language of ISO 639-2 and no other, and unknown input is reported as unknown rather than mapped to something else.",
  ["inputs"], "every input text and value of these helper types",
  "unit tests sample a few values",
  ["positioninset.h", "localehelper.cpp", "localeawarestring.cpp", "tagtarget.cpp", "tagtarget.h", "basicfileinfo.cpp", "diagnostics.cpp", "size.cpp", "margin.h", "aspectratio.cpp"],
  [("parsing and formatting", "PositionInSet(const StringType&), toString; languageNameFromIso; isLanguageDefined; BasicFileInfo::fileName etc.")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
