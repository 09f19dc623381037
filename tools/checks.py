"""What each check runs: harness entry points, case counts per tier, what counts as a non-trivial case, and how it is decided."""
MON = "differential monitoring of real executions under ASan/UBSan by an independent format reader"
CHECKS = {
 "C09": {"parts": [{"prop": "C09", "quick": 20000, "thorough": 600000}],
         "technique": MON,
         "rule": "A case is one random MP4 file (fragmented or not, several mdat, stco/co64, edit lists, trun offsets) edited through 1-3 rounds of random edits and save settings; non-trivial when at least one apply succeeded and the samples of input and output were compared by the independent reader. Distinct by hash of structure, settings and outcome.",
         "note": "Sampled inputs only; files are small (chunks of a few KiB), 64-bit offsets are exercised through co64 and large headers but not through >4 GiB files."},
 "C10": {"parts": [{"prop": "C10", "quick": 20000, "thorough": 600000}],
         "technique": MON,
         "rule": "A case is one random Matroska/WebM file (random level-1 order, sizes known/unknown, cues with relative positions, CRC-32, SeekHead) edited through 1-3 rounds of random edits and save settings; non-trivial when at least one apply succeeded and blocks, cues, seek entries, cluster positions and checksums were resolved by the independent reader. Distinct by hash of structure, settings and outcome.",
         "note": "Sampled inputs only; single-segment files; PrevSize is not judged."},
 "C11": {"parts": [{"prop": "C11", "quick": 20000, "thorough": 600000}],
         "technique": MON,
         "rule": "A case is one random Ogg file (1-3 multiplexed streams, chained groups; Vorbis, Opus, FLAC, Theora, Speex and unknown codecs; random pagination incl. packets of multiples of 255 bytes, packets spanning pages, empty pages) edited through 1-3 rounds; non-trivial when an apply succeeded and packets, granule positions, checksums, sequence numbers and flags were compared by the independent reader. Distinct by hash of structure, settings and outcome.",
         "note": "Sampled inputs only; files stay below the 100 MiB threshold above which the parser skips pages, except in dedicated cases."},
 "C12": {"parts": [{"prop": "C12", "quick": 30000, "thorough": 900000}],
         "technique": MON,
         "rule": "A case is one random file without container (MPEG audio, ADTS, FLAC, WAV, IVF, AIFF, WavPack, unknown data; random ID3v1/ID3v2/APE tags, junk, FLAC metadata blocks) edited through 1-3 rounds of tag creation, removal, edits and save settings; non-trivial when at least one apply succeeded and audio bytes, APE tag and foreign metadata blocks were compared by the independent reader. Distinct by hash of structure, settings and outcome.",
         "note": "Sampled inputs only. Zero/junk bytes between tag and audio may be dropped."},
 "C04": {"parts": [{"prop": "C04", "quick": 30000, "thorough": 900000}],
         "technique": MON,
         "rule": "A case is one random file (MPEG audio, ADTS, FLAC, WAV, IVF, AIFF, WavPack, unknown; any existing tags) whose ID3v1 tag is created, edited or removed in 1-3 rounds with texts around and beyond the slot sizes, any track number and genre; non-trivial when a written tag was read back by the independent reader and the API. Distinct by hash of the tag bytes.",
         "note": "Sampled inputs only. Text in UTF-16, which the tag format reports as unsupported, is not assigned."},
 "C05": {"parts": [{"prop": "C05", "quick": 30000, "thorough": 900000}],
         "technique": MON,
         "rule": "A case is one random file with 0-2 ID3v2 tags of version 2.2/2.3/2.4 (flags, unsynchronisation, compression, unknown frames) in which 1-6 fields get 0-4 random values each in 1-3 rounds; non-trivial when the frames written were compared with the values assigned by the independent reader and the API. Distinct by hash of the file.",
         "note": "Sampled inputs only. Encrypted frames are not generated."},
 "C08": {"parts": [{"prop": "C08", "quick": 30000, "thorough": 900000}],
         "technique": MON,
         "rule": "A case is one random Ogg (Vorbis, Opus, FLAC; multiplexed or chained) or raw FLAC file whose comments get up to 6 fields with 0-5 random values each (texts up to 70000 characters, pictures of any type, positions, ratings, own field names) in 1-3 rounds; non-trivial when the comment written was compared with the values assigned by the independent reader and the API. Distinct by hash of the file.",
         "note": "Sampled inputs only. Empty values are not assigned; dimensions of pictures are not judged (the API does not expose them)."},
 "C06": {"parts": [{"prop": "C06", "quick": 20000, "thorough": 600000}],
         "technique": MON,
         "rule": "A case is one random MP4 file (any layout, existing items incl. several data atoms, UTF-16, integers of any width, freeform items) whose tag gets up to 6 fields with 0-4 random values each in 1-3 rounds; non-trivial when the items written were compared with the values assigned by the independent reader and the API. Distinct by hash of the file.",
         "note": "Sampled inputs only. Positions stay within 16 bit as the format limits them."},
 "C07": {"parts": [{"prop": "C07", "quick": 20000, "thorough": 600000}],
         "technique": MON,
         "rule": "A case is one random Matroska file (any layout, existing tags with targets, languages, default flags, nested fields, nested-only fields, lower-case IDs, binary values, ratings) whose tags get up to 6 fields with 0-4 random values each, language codes, nested fields, changed targets, added and removed tags in 1-3 rounds; non-trivial when the Tags element written was compared with the model by the independent reader and via the API. Distinct by hash of the file.",
         "note": "Sampled inputs only. The default flag of edited fields is not specified."},
 "C13": {"parts": [{"prop": "C13", "quick": 20000, "thorough": 600000}],
         "technique": MON,
         "rule": "A case is one random file of any format (MP4, Matroska, Ogg, MP3/FLAC/others) with foreign content whose existing tags get up to 3 edits per tag in 1-3 rounds of random settings; non-trivial when every fact about foreign content, media and fields not touched was compared by the independent readers before and after. Distinct by hash of the file.",
         "note": "Sampled inputs only."},
 "C14": {"parts": [{"prop": "C14", "quick": 15000, "thorough": 450000}],
         "technique": MON,
         "rule": "A case is one random file of any format parsed by one object twice, by a second object and by an object which has parsed another file in between, then written 2-4 times without edits under one random setting (after one edited write in 30 %% of the cases); non-trivial when all writes succeeded and tags, tracks, media and foreign content were compared after each of them, and the bytes from the second write on. Distinct by hash of the final file.".replace("%%", "%"),
         "note": "Sampled inputs only."},
 "C15": {"parts": [{"prop": "C15", "quick": 6000, "thorough": 120000}],
         "technique": MON,
         "rule": "A case is one random write (file of any format, settings, edits, save path, backup directory) which is run undisturbed once and then aborted 14 times (40 in thorough mode) at progress callbacks, at I/O operations (injected deterministically) and from another thread, plus one aborted parse; non-trivial when at least one of the runs has been reported as aborted and the bytes left behind were compared with the original. Distinct by hash of write, abort points and steps.",
         "note": "Sampled inputs only. An abort requested too late to be honoured may complete the write if the result is byte-wise what the undisturbed write gives."},
 "C16": {"parts": [{"prop": "C16", "quick": 8000, "thorough": 160000}],
         "technique": MON,
         "rule": "A case is one random write (file of any format, settings, edits, save path, backup directory) which is run undisturbed once and then 14 times (40 in thorough mode) with an injected failure: writes failing from a random byte on (ENOSPC, EIO, EFBIG, EDQUOT; once or forever, short or not), failing reads, failing fopen/rename/truncate/remove, real file size limit, /dev/full, missing directories; non-trivial when at least one run failed and the bytes left behind were compared with the original. Distinct by hash of write and failures.",
         "note": "Sampled inputs only. In-place updates keep no backup; for those only reporting the failure is judged."},
 "C17": {"parts": [{"prop": "C17", "quick": 30000, "thorough": 600000}],
         "technique": MON,
         "rule": "A case is one random file of any format under one of several kinds of names and paths (relative, symbolic links, dots in directories) written 1-4 times with random settings, edits, backup directories (absolute, relative, missing), save paths (new, existing) and up to 120 occupied backup names, partly with renaming failing with EXDEV; non-trivial when the whole directory tree was compared before and after a write. Distinct by hash of the written files.",
         "note": "Sampled inputs only."},
 "C01": {"parts": [{"prop": "C01", "quick": 60000, "thorough": 3000000}], "cpu": 20, "ignore_crash": "hang|runaway",
         "technique": "AddressSanitizer and UndefinedBehaviorSanitizer over mutated files and random call sequences",
         "rule": "A case is one file (random well-formed files of all formats, mutated (structure-aware: sizes, identifiers, values, removed, duplicated and moved elements with or without adjusted parents; blind: bytes, truncation, splicing)) which is parsed, inspected, edited and applied 1-3 times in a random order of calls in a forked worker under ASan and UBSan; each such case is non-trivial. Distinct by hash of what the inspection of the results gave.",
         "note": "Sampled inputs only. Endless loops and runaway writes are left to C02; libstdc++ and c++utilities are not instrumented except for inlined code."},
 "C02": {"parts": [{"prop": "C02", "quick": 60000, "thorough": 3000000}], "cpu": 20,
         "technique": "monitoring of CPU time, read operations, allocations, diagnostics and exception types of each parsing call",
         "rule": "A case is one file (random well-formed files of all formats, mutated (structure-aware: sizes, identifiers, values, removed, duplicated and moved elements with or without adjusted parents; blind: bytes, truncation, splicing)) on which a random sequence of parsing calls is observed one by one; each such case is non-trivial. Distinct by hash of what the inspection of the results gave.",
         "note": "Sampled inputs only, files up to some 100 KiB; bounds are 16 x size + 1 MiB for one allocation, 256 x size + 4 MiB in total, 8 x size + 20000 read operations, 2 s + 0.1 ms per byte."},
 "C03": {"parts": [{"prop": "C03", "quick": 20000, "thorough": 600000}], "cpu": 20, "ignore_crash": ".",
         "technique": "monitoring of write operations and comparison of file, directory and results around random call sequences",
         "rule": "A case is one file (half of them well-formed, half mutated) on which 1-3 random sequences of parsing, inspection and in-memory edits are run, followed by parsing it writable and read-only; non-trivial when bytes, inode, time stamp and directory as well as both results were compared. Distinct by hash of what the inspection gave.",
         "note": "Sampled inputs only."},
 "C18": {"parts": [{"prop": "C18", "quick": 8000, "thorough": 300000}], "cpu": 20,
         "technique": "monitoring of rewriting, padding and positions by independent readers for the same edit under different limits",
         "rule": "A case is one file (optionally prepared with more room) on which the same random edits are applied under no limits, limits exactly at, and one byte beyond, the padding which was left, forced rewriting and random settings; judged by whether a backup/new inode appears, padding, positions and what is reported. Non-trivial when all runs were judged. Distinct by hash of layout, outcome and padding.",
         "note": "Sampled layouts only. For Matroska, needless rewriting is only judged with a margin as sizes of offsets depend on the layout; padding behind 4 GiB is not exercised."},
 "C19": {"parts": [{"prop": "C19", "quick": 300000, "thorough": 10000000}],
         "technique": "oracle over tag values: independent character set conversion, number and scale model, comparison model",
         "rule": "A case is one random value, or a set of up to 7 values drawn from few contents, of one of the data types: text in all encodings with and without byte order mark, invalid text, numbers at and around limits, positions, durations, dates, partial dates, genres, ratings of all scales, binary data, data of unsuitable size; judged by stored bytes, conversions to and from text in every encoding (narrow and wide), by which conversions must fail (only with the conversion error), by a model of comparison under all flags, and by independence of copies and moved-from values; run under ASan/UBSan. Non-trivial when the value is not empty.",
         "note": "Sampled values only. Durations are judged in whole milliseconds from 0 to 99 hours and dates within one tick as c++utilities rounds. Comparison is judged between values whose text is canonical."},
 "C20": {"parts": [{"prop": "C20", "quick": 60000, "thorough": 3000000}],
         "technique": "monitor comparing a tag with an ordered multi-map kept next to it after each call",
         "rule": "A case is 1-3 tags of random formats on which up to 40 random calls (setting, replacing, adding, emptying, setting by format specific ID, removing everything, re-encoding, copying between the tags with and without overwriting) are made, all known fields being compared with the model (values, first value, presence, count, other fields, source of copies) after every single call; or a file with 2-3 random ID3v2 tags which are merged; non-trivial when at least one call was judged. Distinct by hash of the calls.",
         "note": "Sampled histories only. Where a value goes when the first one of several has been removed is left open. What is replaced when copying between tags of the same format is decided per field; for ID3v2 comments, lyrics and pictures per description and language."},
 "C26": {"parts": [{"prop": "C26", "quick": 60000, "thorough": 3000000}],
         "technique": "oracle over recognised formats: independently written signature table; differential parsing with and without prefixes",
         "rule": "A case is one buffer of 0-60 bytes with a complete, nearly complete or cut signature; a file with a signature; a file without any signature; or a random file of MP4, Matroska, Ogg, FLAC, MP3, ADTS, WAV or IVF parsed without and with a prefix of 1-4 random ID3v2 tags, APE tags and runs of zero bytes (up to 2047 in total) under various names, everything found being compared; non-trivial when the recognised format has been judged. Distinct by hash of the bytes.",
         "note": "Sampled inputs only. If content matches several signatures any of them is accepted. Runs of zero bytes between ID3v2 tags are not exercised."},
 "C25": {"parts": [{"prop": "C25", "flavour": "tsan", "quick": 3000, "thorough": 60000, "chunk": 12}, {"prop": "C25", "flavour": "asan", "quick": 3000, "thorough": 60000, "chunk": 60}],
         "technique": "race detection by ThreadSanitizer and comparison of concurrent with sequential executions (byte-wise results, reports) under ASan/UBSan",
         "rule": "A case either runs 2-5 jobs (parse, use of the API, edits, writes of files of any format, some damaged) with objects of their own in threads started at once - with yields injected at progress callbacks - and once more one after another, or requests an abort of parsing/writing from another thread at a chosen callback or any time. Processes are restarted after a few cases as initialisation on first use happens once per process. Non-trivial when at least two jobs wrote a file and all results were compared, or the outcome of an operation with an abort request was judged. Distinct by hash of files and settings.",
         "note": "Schedules are sampled (ThreadSanitizer reports races by happens-before, so the racy schedule itself need not occur). The shared library c++utilities is not instrumented."},
 "C23": {"parts": [{"prop": "C23", "quick": 40000, "thorough": 1500000}],
  "technique": MON + " Files of every supported format are built from randomly chosen header parameters (own bit writers for AVC parameter sets, AudioSpecificConfig, MPEG-4 descriptors, WAVEFORMATEX, Xing headers, sample tables, fragments); what the library reports about container and tracks is compared with these parameters.",
  "rule": "every value the library reports about container and tracks equals the value the generator encoded",
  "note": "values the formats leave open (frame rates which are no integers, estimated durations) are not judged"},
 "C22": {"parts": [{"prop": "C22", "quick": 16000, "thorough": 400000}],
  "technique": MON + " A model of attachments, track settings and title follows random editing histories; after each application of changes the file is read by an independent Matroska/MP4 reader and compared with the model.",
  "rule": "A case generates a Matroska or MP4 file and performs 1-3 rounds of random edits of attachments (add, rename, change, assign data, remove, change of mind), tracks (name, language, flags; MP4: remove and add from another file) and title with random settings. Non-trivial when something was edited and the result compared with the model. Distinct by hash of the files written.",
  "note": "Chapters can not be edited via the library; they are compared byte by byte. The duration (in the time unit of the movie) of tracks added from another file is not judged."},
 "C28": {"parts": [{"prop": "C28", "quick": 40000, "thorough": 2000000}],
  "technique": MON + " Values, texts and tables of the helper types are compared with independent models (own parsing and formatting, the ISO 639-2 registry, the ID3v2 specifications, table E-1 of H.264) including inverse conversions; AddressSanitizer watches for accesses beyond exactly sized buffers.",
  "rule": "A case checks one helper (positions, locales, languages, target, sizes/margins/aspect ratios, file names, diagnostics and progress, identifiers and genres) with random values. Always non-trivial; distinct by the random values.",
  "note": "The directory of files directly within the root directory and the relevance of undefined languages within a locale having further details are not judged."},
 "C27": {"parts": [{"prop": "C27", "quick": 40000, "thorough": 300000}], "cpu": 20,
         "technique": "online comparison of the element tree with an independent reader while it is parsed in random order, and of validation results for sound and singly damaged files",
         "rule": "A case is one MP4, Matroska or Ogg file (random, partly after having been written by the library): every element of the tree, parsed in random order, is compared with an independent reader (identifier, offsets, sizes, nesting, order); random searches and copies are compared with own searches and the bytes; full validation must be quiet and report the exact padding; and each of 2-6 single corruptions (sizes beyond the parent or below the header, positions of the index and of clusters, checksums) must be reported. Distinct by hash of the number of elements and the damages.",
         "note": "Sampled files only. Children of sample entries (whose tree depends on the parsed tracks) and elements unknown to the independent reader are not judged; corruptions which yield another valid structure are left out; elements of unknown size are parsed in file order."},
 "C24": {"parts": [{"prop": "C24", "quick": 40000, "thorough": 600000}], "cpu": 20,
         "technique": "online monitor of diagnostics and parsing status, cross-checked with the results: sound files must be quiet, damages which change the results must be reported",
         "rule": "A case is one file of a random format (random generator, partly after having been edited and written by the library), which must be parsed with sound status and without diagnostics of level warning or worse (apart from messages about contents the independent reader confirms to be present, e.g. several ID3v2 tags or tags without fields). Then 2-6 single damages are made (truncation, elements or frames beyond their parent, MP4 leaves cut or mandatory atoms removed, Ogg pages missing, broken or cut, lengths within Vorbis comments, FLAC blocks cut or enlarged, ID3v2 tags cut or frame sizes enlarged); a damage that changes tags, chapters, attachments or (MP4/Matroska) tracks must come with a new warning or worse, a failing status or an exception. Distinct by hash of the file description and the damages.",
         "note": "Sampled files and damages only. Damages which cannot be told from another sound file (e.g. a text cut within an MP4 data atom, fewer than 16 bytes left of an ID3v2 or FLAC header, lost ID3v1 tags of truncated files without FLAC header) are not made. Which message is emitted is not judged."},
 "C21": {"parts": [{"prop": "C21", "quick": 200000, "thorough": 3000000}], "cpu": 20,
         "technique": "online oracle under ASan/UBSan: an independent ID3 reader and a conversion model observe files before and after creation/conversion of tags",
         "rule": "A case is one file whose ID3 tags are converted between versions, created, merged or removed by TagCreationSettings (all usages, versions, flags, the convenience methods) or setVersion(), or a Matroska file for which tags with required targets are created, then written. Frames, slots, dates, versions and tags present afterwards must be those a conversion model written from the specifications of ID3v1, 2.2, 2.3 and 2.4 yields; media data and other blocks must be unchanged. Distinct by hash of the written file.",
         "note": "ID3v1/ID3v2 tags on MP3, ADTS, FLAC, WavPack, AIFF and unknown files of generated contents; all usages, versions and flags of TagCreationSettings, the convenience methods and direct setVersion(); required targets on Matroska files. Frames of ID3v2.2 without counterpart known to the library may be dropped if a diagnostic message says so."},
}
