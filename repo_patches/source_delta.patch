From 2871ebe47dd04c04a8f96df4fa32eb344d52367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 001/117] fix: relocate MP4 chunk offsets by the atom
 containing the chunk

When there are multiple "mdat" atoms, chunk offsets were always adjusted by
the distance the first "mdat" atom was moved.
---
 mp4/mp4container.cpp |  3 ++-
 mp4/mp4track.cpp     | 15 ++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1cf39d5..2319df0 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -971,7 +971,8 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
                         }
                         stream().seekg(4, ios_base::cur); // skip track ID
                         std::uint64_t off = reader().readUInt64BE();
-                        for (auto iOld = oldMdatOffsets.cbegin(), iNew = newMdatOffsets.cbegin(), end = oldMdatOffsets.cend(); iOld != end;
+                        // adjust the offset by the distance the atom containing it (the last one starting at or before it) has been moved
+                        for (auto iOld = oldMdatOffsets.crbegin(), iNew = newMdatOffsets.crbegin(), end = oldMdatOffsets.crend(); iOld != end;
                             ++iOld, ++iNew) {
                             if (off < static_cast<std::uint64_t>(*iOld)) {
                                 continue;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a77edd..bb5c9ca 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -958,16 +958,16 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     m_istream->seekg(static_cast<streamoff>(startPos));
     m_ostream->seekp(static_cast<streamoff>(startPos));
     vector<std::int64_t>::size_type i;
-    vector<std::int64_t>::size_type size;
     auto currentPos = static_cast<std::uint64_t>(m_istream->tellg());
     switch (m_stcoAtom->id()) {
     case Mp4AtomIds::ChunkOffset: {
         std::uint32_t off;
         while ((currentPos + 4) <= endPos) {
             off = m_reader.readUInt32BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint32_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
+            // adjust the offset by the distance the atom containing it (the last one starting before it) has been moved
+            for (i = oldMdatOffsets.size(); i > 0; --i) {
+                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i - 1])) {
+                    off += static_cast<std::uint32_t>(newMdatOffsets[i - 1] - oldMdatOffsets[i - 1]);
                     break;
                 }
             }
@@ -981,9 +981,10 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
         std::uint64_t off;
         while ((currentPos + 8) <= endPos) {
             off = m_reader.readUInt64BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint64_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
+            // adjust the offset by the distance the atom containing it (the last one starting before it) has been moved
+            for (i = oldMdatOffsets.size(); i > 0; --i) {
+                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i - 1])) {
+                    off += static_cast<std::uint64_t>(newMdatOffsets[i - 1] - oldMdatOffsets[i - 1]);
                     break;
                 }
             }
-- 
2.43.0


From b5c111e410695874816eb225e68272dfbaa83d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 002/117] fix: relocate MP4 base data offsets referring to
 "moof" atoms

---
 mp4/mp4container.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 2319df0..0c9e21c 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -727,13 +727,13 @@ calculatePadding:
                             if (writeChunkByChunk) {
                                 // write actual data separately when writing chunk-by-chunk
                                 break;
-                            } else {
-                                // store media data offsets when not writing chunk-by-chunk to be able to update chunk offset table
-                                origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
-                                newMediaDataOffsets.push_back(outputStream.tellp());
                             }
                             [[fallthrough]];
                         default:
+                            // store offsets of copied atoms to be able to update the chunk offset table and the base data offsets of
+                            // movie fragments (which might not only refer to "mdat" atoms)
+                            origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
+                            newMediaDataOffsets.push_back(outputStream.tellp());
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
-- 
2.43.0


From 1c314723961b7e4d6efe4837becbf90cd6ef80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 003/117] fix: skip remaining bytes of MP4 atoms voided between
 media data

---
 mp4/mp4container.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 0c9e21c..048cc04 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -822,6 +822,7 @@ calculatePadding:
                             // must void these if they occur "between" the media data
                             outputStream.seekp(4, ios_base::cur);
                             outputWriter.writeUInt32BE(Mp4AtomIds::Free);
+                            outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize() - 8), ios_base::cur);
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
-- 
2.43.0


From 8e054128d7c0ff62cad9d3a037968fd33033578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 004/117] fix: handle MP4 files without media data when
 applying changes

This fixes a null-pointer dereference and the movie atom being omitted.
---
 mp4/mp4container.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 048cc04..8eccf9f 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -333,7 +333,11 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 newTagPos = currentTagPos;
             }
         } else {
-            currentTagPos = ElementPosition::Keep;
+            // the position does not matter without media data but needs to be determined nevertheless
+            currentTagPos = ElementPosition::BeforeData;
+            if (newTagPos == ElementPosition::Keep) {
+                newTagPos = currentTagPos;
+            }
         }
 
         // ensure index and tags are always placed at the beginning when dealing with DASH files
@@ -485,7 +489,7 @@ calculatePadding:
             //    min padding: says "at least ... byte should be reserved to prepend further tag info", so the padding at the end
             //                 shouldn't be tanken into account (it can't be used to prepend further tag info)
             //    max padding: says "do not waste more than ... byte", so here all padding should be taken into account
-            newPadding = firstMediaDataAtom->startOffset() - currentOffset;
+            newPadding = firstMediaDataAtom ? firstMediaDataAtom->startOffset() - currentOffset : 0;
             rewriteRequired = (newPadding > 0 && newPadding < 8) || newPadding < fileInfo().minPadding()
                 || (newPadding + newPaddingEnd) > fileInfo().maxPadding();
         }
-- 
2.43.0


From 150906f9249e1e3983ae10754e069c4e991ae24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 005/117] fix: use version of "mdhd" atom when computing its
 size

The version of the "tkhd" atom might be different leading to a wrong size of
the movie atom.
---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index bb5c9ca..9a29963 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1215,7 +1215,7 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
         size += trakChild->totalSize();
     }
     // ... mdhd total size
-    if (info.timingsVersion == 0) {
+    if (info.timings.requiredMdhdVersion() == 0) {
         // write version 0 where timing fields are 32-bit
         size += 32;
     } else {
-- 
2.43.0


From 0e8a1e5614fa9e28ba9f12c8bfdef910c1f85ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 006/117] fix: preserve unhandled flags of "tkhd" atom

---
 mp4/mp4track.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 9a29963..b3a3d61 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1313,6 +1313,10 @@ void Mp4Track::makeTrackHeader(Diagnostics &diag)
     // make version and flags
     writer().writeByte(info.writeVersion);
     std::uint32_t flags = 0;
+    if (info.canUseExisting) {
+        // preserve flags which are not handled by this library
+        flags = BE::toInt<std::uint32_t>(m_tkhdAtom->buffer().get() + m_tkhdAtom->headerSize()) & 0xFFFFF8;
+    }
     if (isEnabled()) {
         flags |= 0x000001;
     }
-- 
2.43.0


From b607b4036224d6eeb3963d925c243711b4e6c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 007/117] fix: write actual size of last MP4 atom when
 appending movie atom

Otherwise an atom which denotes no size (extends to the end of the file)
swallows the movie atom.
---
 mp4/mp4atom.cpp      | 1 +
 mp4/mp4atom.h        | 9 +++++++++
 mp4/mp4container.cpp | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 2e99a81..36158ea 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -72,6 +72,7 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     if (m_dataSize == 0) {
         // atom size extends to rest of the file/enclosing container
         m_dataSize = maxTotalSize();
+        m_sizeUnknown = true;
     }
     if (!m_dataSize) {
         diag.emplace_back(DiagLevel::Critical, "No data found (only null bytes).", context);
diff --git a/mp4/mp4atom.h b/mp4/mp4atom.h
index 824c7f9..d6d40ad 100644
--- a/mp4/mp4atom.h
+++ b/mp4/mp4atom.h
@@ -44,6 +44,7 @@ public:
     std::string idToString() const;
     bool isParent() const;
     bool isPadding() const;
+    bool isExtendingToEnd() const;
     std::uint64_t firstChildOffset() const;
 
     static void seekBackAndWriteAtomSize(std::ostream &stream, const std::ostream::pos_type &startOffset, Diagnostics &diag);
@@ -75,6 +76,14 @@ inline std::string Mp4Atom::idToString() const
     return idString;
 }
 
+/*!
+ * \brief Returns whether the atom denotes no size and therefore extends to the end of the file/enclosing atom.
+ */
+inline bool Mp4Atom::isExtendingToEnd() const
+{
+    return m_sizeUnknown;
+}
+
 /*!
  * \brief Adds the header size to the specified \a data size.
  */
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 8eccf9f..79af166 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -742,6 +742,10 @@ calculatePadding:
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
                             level0Atom->copyEntirely(outputStream, diag, &progress);
+                            // write the actual size if the atom extends to the end of the original file but not of the new one
+                            if (newTagPos == ElementPosition::AfterData && level0Atom->isExtendingToEnd()) {
+                                Mp4Atom::seekBackAndWriteAtomSize(outputStream, newMediaDataOffsets.back(), diag);
+                            }
                         }
                     }
 
@@ -830,6 +834,10 @@ calculatePadding:
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
+                            if (newTagPos == ElementPosition::AfterData && level0Atom->isExtendingToEnd()) {
+                                Mp4Atom::seekBackAndWriteAtomSize(
+                                    outputStream, static_cast<std::ostream::pos_type>(level0Atom->startOffset()), diag);
+                            }
                         }
                         if (level0Atom == lastAtomToBeWritten) {
                             break;
-- 
2.43.0


From 25d908e905811407a791efe304e15789af24ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 008/117] fix: avoid one byte of padding when writing Matroska
 files

---
 matroska/matroskacontainer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 22b8c3f..3ad851e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1113,6 +1113,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // set start offset of the segment in the new file
                 segment.startOffset = currentOffset;
 
+                // clear padding from possible previous calculations
+                segment.newPadding = 0;
+
                 // check whether the segment has a CRC-32 element
                 segment.hasCrc32 = level0Element->firstChild() && level0Element->firstChild()->id() == EbmlIds::Crc32;
 
@@ -1333,10 +1336,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             }
                             if (totalOffset <= segment.firstClusterElement->startOffset()) {
                                 // calculate new padding
-                                if (segment.newPadding != 1) {
-                                    // "Void"-element is at least 2 byte long -> can't add 1 byte padding
-                                    newPadding += (segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset);
+                                if ((segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset) != 1) {
+                                    newPadding += segment.newPadding;
                                 } else {
+                                    // "Void"-element is at least 2 byte long -> can't add 1 byte padding
                                     rewriteRequired = true;
                                 }
                             } else {
@@ -1371,8 +1374,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
                     if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
-                        // simply use the preferred padding
-                        segment.totalDataSize += (segment.newPadding = newPadding = fileInfo().preferredPadding());
+                        // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
+                        const auto preferredPadding = fileInfo().preferredPadding();
+                        segment.totalDataSize += (segment.newPadding = newPadding = preferredPadding == 1 ? 2 : preferredPadding);
                     }
 
                     // pretend writing "Cluster"-element
-- 
2.43.0


From 6dd36e04fa3682cb53d64f7df44e6dd0797ca04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 009/117] fix: compute size of binary Matroska tag fields
 correctly

---
 matroska/matroskatagfield.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 581e35d..451a39c 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -237,6 +237,9 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
     const auto languageIETFElementSize
         = m_languageIETF.empty() ? 0 : (2 + EbmlElement::calculateSizeDenotationLength(m_languageIETF.size()) + m_languageIETF.size());
 
+    // compute size of "TagString"/"TagBinary" element's data
+    const auto valueSize = m_isBinary ? m_field.value().dataSize() : m_stringValue.size();
+
     // compute "SimpleTag" element size
     m_simpleTagSize =
         // "TagName" element
@@ -248,8 +251,8 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         // "TagDefault" element
         + 2 + 1
         + 1
-        // "TagString" element
-        + 2 + EbmlElement::calculateSizeDenotationLength(m_stringValue.size()) + m_stringValue.size();
+        // "TagString"/"TagBinary" element
+        + 2 + EbmlElement::calculateSizeDenotationLength(valueSize) + valueSize;
 
     // compute size of nested tags
     for (auto &nestedField : field.nestedFields()) {
-- 
2.43.0


From 837c57069771c5622ab632c2c566b867d47006b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 010/117] fix: write "CueReference" elements with correct ID
 and children only once

---
 matroska/matroskacues.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matroska/matroskacues.cpp b/matroska/matroskacues.cpp
index ff48ec2..a092693 100644
--- a/matroska/matroskacues.cpp
+++ b/matroska/matroskacues.cpp
@@ -330,7 +330,7 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                 break;
                             case MatroskaIds::CueReference:
                                 // write "CueReference"-element
-                                stream.put(static_cast<char>(MatroskaIds::CueRefTime));
+                                stream.put(static_cast<char>(MatroskaIds::CueReference));
                                 len = EbmlElement::makeSizeDenotation(m_sizes[cueTrackPositionsChild], buff);
                                 stream.write(buff, len);
                                 for (EbmlElement *cueReferenceChild = cueTrackPositionsChild->firstChild(); cueReferenceChild;
@@ -345,7 +345,6 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                         // write unchanged children of "CueReference"-element
                                         cueReferenceChild->copyBuffer(stream);
                                         cueReferenceChild->discardBuffer();
-                                        cueReferenceChild->copyEntirely(stream, diag, nullptr);
                                         break;
                                     case MatroskaIds::CueRefCluster:
                                     case MatroskaIds::CueRefCodecState:
-- 
2.43.0


From dc6376452b92ccf942bcd22738481d2c48b7577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 011/117] fix: write CRC-32 checksum of Matroska segment at the
 correct position

---
 matroska/matroskacontainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 3ad851e..af4142e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1877,9 +1877,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         if (!crc32Offsets.empty()) {
             progress.updateStep("Updating CRC-32 checksums ...");
             for (const auto &crc32Offset : crc32Offsets) {
+                // note: The read and write positions of file streams are not independent.
                 outputStream.seekg(static_cast<streamoff>(get<0>(crc32Offset) + 6));
+                const auto crc32 = reader().readCrc32(get<1>(crc32Offset) - 6);
                 outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2));
-                writer().writeUInt32LE(reader().readCrc32(get<1>(crc32Offset) - 6));
+                writer().writeUInt32LE(crc32);
             }
         }
 
-- 
2.43.0


From 19315f6af9116aa37f42e1cde423bc796a5e40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 012/117] fix: compute CRC-32 checksum of Matroska segment
 according to EBML specification

---
 matroska/matroskacontainer.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index af4142e..e977f85 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -24,6 +24,8 @@
 #include <random>
 #include <unordered_set>
 
+#include <zlib.h>
+
 using namespace std;
 using namespace std::placeholders;
 using namespace CppUtilities;
@@ -858,6 +860,21 @@ struct SegmentData {
     std::uint8_t sizeDenotationLength;
 };
 
+/// \brief Computes the CRC-32 checksum as used by EBML (ISO 3309) of \a size bytes read from \a stream.
+static std::uint32_t computeEbmlCrc32(std::istream &stream, std::uint64_t size, AbortableProgressFeedback &progress)
+{
+    char buffer[0x4000];
+    auto checksum = crc32(0, nullptr, 0);
+    while (size) {
+        const auto bytesToRead = std::min<std::uint64_t>(size, sizeof(buffer));
+        progress.stopIfAborted();
+        stream.read(buffer, static_cast<std::streamsize>(bytesToRead));
+        checksum = crc32(checksum, reinterpret_cast<const Bytef *>(buffer), static_cast<uInt>(bytesToRead));
+        size -= bytesToRead;
+    }
+    return static_cast<std::uint32_t>(checksum);
+}
+
 void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("making Matroska container");
@@ -1879,9 +1896,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             for (const auto &crc32Offset : crc32Offsets) {
                 // note: The read and write positions of file streams are not independent.
                 outputStream.seekg(static_cast<streamoff>(get<0>(crc32Offset) + 6));
-                const auto crc32 = reader().readCrc32(get<1>(crc32Offset) - 6);
+                const auto checksum = computeEbmlCrc32(outputStream, get<1>(crc32Offset) - 6, progress);
                 outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2));
-                writer().writeUInt32LE(crc32);
+                writer().writeUInt32LE(checksum);
             }
         }
 
-- 
2.43.0


From 0e049208729b33c963a5bffb013c94465dc183ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:32 +0000
Subject: [PATCH 013/117] fix: update "Position" elements when applying changes
 to Matroska files in-place

---
 matroska/matroskacontainer.cpp | 47 +++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index e977f85..baf8328 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1289,6 +1289,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     && newCuesPos == ElementPosition::BeforeData) {
                                     cuesInvalidated = true;
                                 }
+                                // parse children up to the "Position"-element (as it needs to be updated)
+                                for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                                    level2Element->parse(diag);
+                                    if (level2Element->id() == MatroskaIds::Position) {
+                                        break;
+                                    }
+                                }
                                 // check whether aborted (because this loop might take some seconds to process)
                                 progress.stopIfAborted();
                                 // update the progress percentage (using offset / file size should be accurate enough)
@@ -1774,26 +1781,30 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // can't just skip existing "Cluster"-elements: "Position"-elements must be updated
                     progress.nextStepOrStop("Updating cluster ...",
                         static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
-                    for (; level1Element; level1Element = level1Element->nextSibling()) {
+                    for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag)) {
                         for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
-                            switch (level2Element->id()) {
-                            case MatroskaIds::Position:
-                                // calculate new position
-                                sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segmentData.front().newDataOffset, buff,
-                                    level2Element->dataSize() > 8 ? 8 : static_cast<std::uint8_t>(level2Element->dataSize()));
-                                // new position can only applied if it doesn't need more bytes than the previous position
-                                if (level2Element->dataSize() < sizeLength) {
-                                    // can't update position -> void position elements ("Position"-elements seem a bit useless anyways)
-                                    outputStream.seekp(static_cast<streamoff>(level2Element->startOffset()));
-                                    outputStream.put(static_cast<char>(EbmlIds::Void));
-                                } else {
-                                    // update position
-                                    outputStream.seekp(static_cast<streamoff>(level2Element->dataOffset()));
-                                    outputStream.write(buff, sizeLength);
-                                }
-                                break;
-                            default:;
+                            if (level2Element->id() != MatroskaIds::Position) {
+                                continue;
                             }
+                            // calculate new position
+                            sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segmentData.front().newDataOffset, buff,
+                                level2Element->dataSize() > 8 ? 8 : static_cast<std::uint8_t>(level2Element->dataSize()));
+                            // new position can only applied if it doesn't need more bytes than the previous position
+                            if (level2Element->dataSize() < sizeLength) {
+                                // can't update position -> void position elements ("Position"-elements seem a bit useless anyways)
+                                outputStream.seekp(static_cast<streamoff>(level2Element->startOffset()));
+                                outputStream.put(static_cast<char>(EbmlIds::Void));
+                            } else {
+                                // update position
+                                outputStream.seekp(static_cast<streamoff>(level2Element->dataOffset()));
+                                outputStream.write(buff, sizeLength);
+                            }
+                            // void CRC-32 element (if present it is the first child) because the checksum is no longer correct
+                            if (level1Element->firstChild()->id() == EbmlIds::Crc32) {
+                                outputStream.seekp(static_cast<streamoff>(level1Element->firstChild()->startOffset()));
+                                outputStream.put(static_cast<char>(EbmlIds::Void));
+                            }
+                            break;
                         }
                     }
                     // skip existing "Cluster"-elements
-- 
2.43.0


From 4f0d9d164153b8891e7b34bf2647d7e5b4cfc46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 014/117] fix: recognize unknown size of EBML elements
 regardless of size length

---
 matroska/ebmlelement.cpp | 68 ++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index d1baf02..0b8a937 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -146,45 +146,45 @@ void EbmlElement::internalParse(Diagnostics &diag)
         beg = static_cast<std::uint8_t>(stream().peek());
         mask = 0x80;
         m_sizeLength = 1;
-        if ((m_sizeUnknown = (beg == 0xFF))) {
-            // this indicates that the element size is unknown
-            // -> just assume the element takes the maximum available size
-            m_dataSize = maxTotalSize() - headerSize();
-        } else {
-            while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
-                ++m_sizeLength;
-                mask >>= 1;
+        m_sizeUnknown = false;
+        while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
+            ++m_sizeLength;
+            mask >>= 1;
+        }
+        if (m_sizeLength > maximumSizeLengthSupported()) {
+            if (!skipped) {
+                diag.emplace_back(DiagLevel::Critical, "EBML size length is not supported.", parsingContext());
             }
-            if (m_sizeLength > maximumSizeLengthSupported()) {
-                if (!skipped) {
-                    diag.emplace_back(DiagLevel::Critical, "EBML size length is not supported.", parsingContext());
-                }
-                continue; // try again
+            continue; // try again
+        }
+        if (m_sizeLength > container().maxSizeLength()) {
+            if (!skipped) {
+                diag.emplace_back(DiagLevel::Critical, "EBML size length is invalid.", parsingContext());
             }
-            if (m_sizeLength > container().maxSizeLength()) {
+            continue; // try again
+        }
+        // read size into buffer
+        memset(buf, 0, sizeof(DataSizeType)); // reset buffer
+        reader().read(buf + (maximumSizeLengthSupported() - m_sizeLength), m_sizeLength);
+        // xor the first byte in buffer which has been read from the file with mask
+        *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
+        m_dataSize = BE::toInt<std::uint64_t>(buf);
+        if (m_dataSize == (static_cast<std::uint64_t>(1) << (7 * m_sizeLength)) - 1 && headerSize() <= maxTotalSize()) {
+            // this (all bits being set) indicates that the element size is unknown
+            // -> just assume the element takes the maximum available size
+            m_sizeUnknown = true;
+            m_dataSize = maxTotalSize() - headerSize();
+        } else if (totalSize() > maxTotalSize()) {
+            // element is truncated
+            if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
                 if (!skipped) {
-                    diag.emplace_back(DiagLevel::Critical, "EBML size length is invalid.", parsingContext());
+                    diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
                 }
                 continue; // try again
-            }
-            // read size into buffer
-            memset(buf, 0, sizeof(DataSizeType)); // reset buffer
-            reader().read(buf + (maximumSizeLengthSupported() - m_sizeLength), m_sizeLength);
-            // xor the first byte in buffer which has been read from the file with mask
-            *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
-            m_dataSize = BE::toInt<std::uint64_t>(buf);
-            // check if element is truncated
-            if (totalSize() > maxTotalSize()) {
-                if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
-                    if (!skipped) {
-                        diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
-                    }
-                    continue; // try again
-                } else { // data truncated
-                    diag.emplace_back(DiagLevel::Warning, "Data of EBML element seems to be truncated; unable to parse siblings of that element.",
-                        parsingContext());
-                    m_dataSize = maxTotalSize() - m_idLength - m_sizeLength; // using max size instead
-                }
+            } else { // data truncated
+                diag.emplace_back(
+                    DiagLevel::Warning, "Data of EBML element seems to be truncated; unable to parse siblings of that element.", parsingContext());
+                m_dataSize = maxTotalSize() - m_idLength - m_sizeLength; // using max size instead
             }
         }
 
-- 
2.43.0


From dd7d1c211864fedf453ecad2f34f9596e78a92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 015/117] fix: determine end of Matroska clusters of unknown
 size

---
 matroska/ebmlelement.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index 0b8a937..d98c165 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -207,6 +207,17 @@ void EbmlElement::internalParse(Diagnostics &diag)
             m_nextSibling.reset();
         }
 
+        // determine the actual size of a "Cluster"-element of unknown size by parsing its children until one belongs higher up in the hierarchy
+        if (m_sizeUnknown && m_id == MatroskaIds::Cluster && level() == 1) {
+            try {
+                for (auto *child = firstChild(); child && child->parent() == this; child = child->nextSibling()) {
+                    child->parse(diag);
+                }
+            } catch (const Failure &) {
+                // stick to the maximum available size
+            }
+        }
+
         // no critical errors occurred
         // -> add a warning if bytes have been skipped
         if (skipped) {
-- 
2.43.0


From 2fd3ca81a1ed48cabafa83d9c377ce4a5923cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:09 +0000
Subject: [PATCH 016/117] fix: rewrite Matroska files without clusters instead
 of editing them in-place

---
 matroska/matroskacontainer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index baf8328..50cecae 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1374,6 +1374,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         }
                     } else {
                         diag.emplace_back(DiagLevel::Warning, argsToString("There are no clusters in segment ", segmentIndex, "."), context);
+                        rewriteRequired = true;
                     }
 
                     if (rewriteRequired) {
-- 
2.43.0


From d735947c7375a72e3ab6d5b88031b63c7d4b2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 017/117] fix: avoid endless calculation when editing Matroska
 files in-place

---
 matroska/matroskacontainer.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 50cecae..14f6fea 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1269,7 +1269,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 diag.emplace_back(DiagLevel::Critical, "Header size of \"Segment\"-element from original file is invalid.", context);
                                 throw InvalidDataException();
                             }
-                            segment.sizeDenotationLength = static_cast<std::uint8_t>(level0Element->headerSize() - 4u);
+                            if (!segment.sizeDenotationLength) {
+                                segment.sizeDenotationLength = static_cast<std::uint8_t>(level0Element->headerSize() - 4u);
+                            }
 
                         nonRewriteCalculations:
                             // pretend writing "Cluster"-elements assuming there is no rewrite required
@@ -1345,15 +1347,16 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             }
 
                             // calculate total offset again (taking everything into account)
-                            // -> check whether assumed size denotation was correct
-                            if (segment.sizeDenotationLength != (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
+                            // -> check whether assumed size denotation was sufficient
+                            if (segment.sizeDenotationLength < (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
                                 // assumption was wrong -> recalculate with new length
+                                // note: The length is never decreased because otherwise the calculation might not terminate.
                                 segment.sizeDenotationLength = sizeLength;
                                 level1Element = segment.firstClusterElement;
                                 goto nonRewriteCalculations;
                             }
 
-                            totalOffset = currentOffset + 4 + sizeLength + offset;
+                            totalOffset = currentOffset + 4 + segment.sizeDenotationLength + offset;
                             // offset does not include size of "Cues"-element
                             if (newCuesPos == ElementPosition::BeforeData) {
                                 totalOffset += segment.cuesUpdater.totalSize();
@@ -1500,7 +1503,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 ++segmentIndex;
 
                 // increase write offsets by the size of the segment which size has just been computed
-                segment.totalSize = 4 + EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) + segment.totalDataSize;
+                sizeLength = rewriteRequired ? EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) : segment.sizeDenotationLength;
+                segment.totalSize = 4 + sizeLength + segment.totalDataSize;
                 currentPosition += segment.totalSize;
                 currentOffset += segment.totalSize;
 
@@ -1631,7 +1635,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // write "Segment"-element actually
                 progress.updateStep("Writing segment header ...");
                 outputWriter.writeUInt32BE(MatroskaIds::Segment);
-                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff);
+                sizeLength = rewriteRequired ? EbmlElement::makeSizeDenotation(segment.totalDataSize, buff)
+                                             : EbmlElement::makeSizeDenotation(segment.totalDataSize, buff, segment.sizeDenotationLength);
                 outputStream.write(buff, sizeLength);
                 segment.newDataOffset = offset = static_cast<std::uint64_t>(outputStream.tellp()); // store segment data offset here
 
-- 
2.43.0


From 190021b50a5678b0a2a5fc93fe089c5508935b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 018/117] fix: preserve unknown level 1 elements of Matroska
 files and void stale elements between clusters

---
 matroska/matroskacontainer.cpp | 59 ++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 14f6fea..711c126 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -860,6 +860,27 @@ struct SegmentData {
     std::uint8_t sizeDenotationLength;
 };
 
+/// \brief Returns whether the level 1 element with the specified \a id is not handled explicitly by MatroskaContainer::internalMakeFile()
+///        so it needs to be copied as-is.
+static bool isUnhandledLevel1Element(EbmlElement::IdentifierType id)
+{
+    switch (id) {
+    case EbmlIds::Void:
+    case EbmlIds::Crc32:
+    case MatroskaIds::SeekHead:
+    case MatroskaIds::SegmentInfo:
+    case MatroskaIds::Tracks:
+    case MatroskaIds::Chapters:
+    case MatroskaIds::Tags:
+    case MatroskaIds::Attachments:
+    case MatroskaIds::Cues:
+    case MatroskaIds::Cluster:
+        return false;
+    default:
+        return true;
+    }
+}
+
 /// \brief Computes the CRC-32 checksum as used by EBML (ISO 3309) of \a size bytes read from \a stream.
 static std::uint32_t computeEbmlCrc32(std::istream &stream, std::uint64_t size, AbortableProgressFeedback &progress)
 {
@@ -1206,6 +1227,18 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     }
                 }
 
+                // pretend writing unknown elements
+                for (level1Element = level0Element->firstChild(); level1Element; level1Element = level1Element->nextSibling()) {
+                    level1Element->parse(diag);
+                    if (!isUnhandledLevel1Element(level1Element->id())) {
+                        continue;
+                    }
+                    if (!rewriteRequired) {
+                        level1Element->makeBuffer();
+                    }
+                    segment.totalDataSize += level1Element->totalSize();
+                }
+
                 // "Tags"- and "Attachments"-element are written in either the first or the last segment
                 // and either before "Cues"- and "Cluster"-elements or after these elements
                 // depending on the desired tag position (at the front/at the end)
@@ -1703,6 +1736,19 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     level1Element->discardBuffer();
                 }
 
+                // write unknown elements
+                for (level1Element = level0Element->firstChild(); level1Element; level1Element = level1Element->nextSibling()) {
+                    if (!isUnhandledLevel1Element(level1Element->id())) {
+                        continue;
+                    }
+                    if (rewriteRequired) {
+                        level1Element->copyEntirely(outputStream, diag, nullptr);
+                    } else {
+                        level1Element->copyBuffer(outputStream);
+                        level1Element->discardBuffer();
+                    }
+                }
+
                 if (newTagPos == ElementPosition::BeforeData && segmentIndex == 0) {
                     // write "Tags"-element
                     if (tagsSize) {
@@ -1813,6 +1859,19 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             break;
                         }
                     }
+                    // void elements between clusters as those have been written again elsewhere
+                    for (level1Element = segment.firstClusterElement; level1Element && level1Element->endOffset() <= segment.clusterEndOffset;
+                        level1Element = level1Element->nextSibling()) {
+                        if (level1Element->id() == MatroskaIds::Cluster || level1Element->id() == EbmlIds::Void) {
+                            continue;
+                        }
+                        outputStream.seekp(static_cast<streamoff>(level1Element->startOffset()));
+                        outputWriter.writeByte(EbmlIds::Void);
+                        const auto totalSize = level1Element->totalSize();
+                        sizeLength = totalSize < 128 ? EbmlElement::makeSizeDenotation(totalSize - 2, buff)
+                                                     : EbmlElement::makeSizeDenotation(totalSize - 9, buff, 8);
+                        outputStream.write(buff, sizeLength);
+                    }
                     // skip existing "Cluster"-elements
                     outputStream.seekp(static_cast<streamoff>(segment.clusterEndOffset));
                 }
-- 
2.43.0


From 4f5de84ca0885bb0d0ef73dc17d434d716318d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:11 +0000
Subject: [PATCH 019/117] fix: preserve packets and edit all comments when
 writing Ogg pages

Packets continuing on the next page, empty packets and pages without
segments were not preserved. Comments of further streams were not written.
Finding the next page read beyond the end of the file.
---
 ogg/oggcontainer.cpp | 320 ++++++++++++++++++-------------------------
 ogg/oggiterator.cpp  |   6 +-
 2 files changed, 141 insertions(+), 185 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index a8348c4..db455d3 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -10,8 +10,11 @@
 #include <c++utilities/conversion/stringbuilder.h>
 #include <c++utilities/io/copy.h>
 
+#include <algorithm>
+#include <array>
 #include <limits>
 #include <memory>
+#include <unordered_set>
 
 using namespace std;
 using namespace CppUtilities;
@@ -421,6 +424,17 @@ void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<653
     newSegmentSizes.push_back(static_cast<std::uint32_t>(buffer.tellp() - offset));
 }
 
+/// \cond
+/*!
+ * \brief Holds information about a packet to be written by OggContainer::internalMakeFile().
+ */
+struct OggPacket {
+    std::uint32_t size = 0;
+    std::uint64_t absoluteGranulePosition = 0;
+    bool startsNewPage = false;
+};
+/// \endcond
+
 void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     const auto context = std::string("making Ogg file");
@@ -458,222 +472,163 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     try {
         progress.nextStepOrStop("Writing Ogg pages ...");
 
-        // prepare iterating comments
-        OggVorbisComment *currentComment;
-        OggParameter *currentParams;
-        auto tagIterator = m_tags.cbegin(), tagEnd = m_tags.cend();
-        if (tagIterator != tagEnd) {
-            currentParams = &(currentComment = tagIterator->get())->oggParams();
-        } else {
-            currentComment = nullptr;
-            currentParams = nullptr;
+        // determine on what pages the comments start
+        // note: Page indexes can not be used here as not all pages might have been parsed.
+        auto commentsByPageOffset = std::unordered_map<std::uint64_t, OggVorbisComment *>();
+        for (const auto &tag : m_tags) {
+            commentsByPageOffset.emplace(m_iterator.pages()[tag->oggParams().firstPageIndex].startOffset(), tag.get());
         }
 
         // define misc variables
-        const OggPage *lastPage = nullptr;
         static constexpr auto oggPageHeaderSize = 27u;
         auto lastPageNewOffset = std::uint64_t();
         auto copyHelper = CopyHelper<65307>();
         auto updatedPageOffsets = std::vector<std::uint64_t>();
-        auto nextPageOffset = std::uint64_t();
+        auto mergedPageOffsets = std::unordered_set<std::uint64_t>();
         auto pageSequenceNumberBySerialNo = std::unordered_map<std::uint32_t, std::uint32_t>();
+        const auto readPage = [&backupStream, totalFileSize](std::uint64_t offset) {
+            return OggPage(backupStream, offset,
+                static_cast<std::int32_t>(std::min<std::uint64_t>(totalFileSize - offset, std::numeric_limits<std::int32_t>::max())));
+        };
 
         // iterate through all pages of the original file
         auto updateTick = 0u;
-        for (m_iterator.setStream(backupStream), m_iterator.removeFilter(), m_iterator.reset(); m_iterator; m_iterator.nextPage(), ++updateTick) {
-            const OggPage &currentPage = m_iterator.currentPage();
+        for (auto pageOffset = startOffset(); pageOffset < totalFileSize; ++updateTick) {
             if (updateTick % 10) {
-                progress.updateStepPercentage(static_cast<std::uint8_t>(currentPage.startOffset() * 100ul / totalFileSize));
+                progress.updateStepPercentage(static_cast<std::uint8_t>(pageOffset * 100ul / totalFileSize));
                 progress.stopIfAborted();
             }
 
-            // check for gaps
-            // note: This is not just to print diag messages but also for taking into account that the parser might skip pages
-            //       unless a full parse has been enforced.
-            if (lastPage && currentPage.startOffset() != nextPageOffset) {
-                m_iterator.pages().resize(m_iterator.currentPageIndex() - 1); // drop all further pages after the last consecutively parsed one
-                if (m_iterator.resyncAt(nextPageOffset)) {
-                    // try again at the page we've just found
-                    const auto actuallyNextPageOffset = m_iterator.currentPageOffset();
-                    if (actuallyNextPageOffset != nextPageOffset) {
-                        diag.emplace_back(DiagLevel::Critical,
-                            argsToString("Expected Ogg page at offset ", nextPageOffset, " but found the next Ogg page only at offset ",
-                                actuallyNextPageOffset, ". Skipped ", (actuallyNextPageOffset - nextPageOffset), " invalid bytes."),
-                            context);
-                        nextPageOffset = actuallyNextPageOffset;
-                    }
-                    m_iterator.previousPage();
-                    continue;
-                } else {
+            // read the next page; skip invalid bytes
+            auto currentPage = OggPage();
+            try {
+                currentPage = readPage(pageOffset);
+            } catch (const InvalidDataException &) {
+                auto iterator = OggIterator(backupStream, pageOffset, totalFileSize);
+                if (!iterator.resyncAt(pageOffset)) {
                     diag.emplace_back(DiagLevel::Critical,
-                        argsToString(
-                            "Expected Ogg page at offset ", nextPageOffset, " but could not find any further pages. Skipped the rest of the file."),
-                        context);
-                    break;
+                        argsToString("Expected Ogg page at offset ", pageOffset, " but could not find any further pages."), context);
+                    throw;
                 }
+                currentPage = iterator.currentPage();
+                diag.emplace_back(DiagLevel::Critical,
+                    argsToString("Expected Ogg page at offset ", pageOffset, " but found the next Ogg page only at offset ",
+                        currentPage.startOffset(), ". Skipped ", (currentPage.startOffset() - pageOffset), " invalid bytes."),
+                    context);
             }
             const auto pageSize = currentPage.totalSize();
+            pageOffset = currentPage.startOffset() + pageSize;
+            if (mergedPageOffsets.find(currentPage.startOffset()) != mergedPageOffsets.end()) {
+                continue; // page has already been written as it contains a comment continued from a previous page
+            }
             auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
-            lastPage = &currentPage;
-            lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
-            nextPageOffset = currentPage.startOffset() + pageSize;
 
-            // check whether the Vorbis Comment is present in this Ogg page
-            if (currentComment && m_iterator.currentPageIndex() >= currentParams->firstPageIndex
-                && m_iterator.currentPageIndex() <= currentParams->lastPageIndex && !currentPage.segmentSizes().empty()) {
+            // check whether a Vorbis Comment starts in this Ogg page
+            if (const auto commentIterator = commentsByPageOffset.find(currentPage.startOffset()); commentIterator != commentsByPageOffset.end()) {
                 // page needs to be rewritten (not just copied)
-                // -> write segments to a buffer first
+                // -> write packets to a buffer first
+                auto *const comment = commentIterator->second;
+                auto *const params = &comment->oggParams();
+                const auto isNewComment = params->firstSegmentIndex == numeric_limits<size_t>::max();
                 auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
-                auto newSegmentSizes = std::vector<std::uint32_t>();
-                newSegmentSizes.reserve(currentPage.segmentSizes().size());
-                auto segmentOffset = m_iterator.currentSegmentOffset();
-                auto segmentIndex = std::vector<std::uint32_t>::size_type();
-                for (const auto segmentSize : currentPage.segmentSizes()) {
-                    if (!segmentSize) {
-                        ++segmentIndex;
-                        continue;
+                auto packets = std::vector<OggPacket>();
+                auto page = currentPage;
+                const auto copyPackets = [&](std::size_t firstIndex, std::size_t endIndex) {
+                    for (auto i = firstIndex; i < endIndex; ++i) {
+                        backupStream.seekg(static_cast<std::streamoff>(page.dataOffset(i)));
+                        copyHelper.copy(backupStream, buffer, page.segmentSizes()[i]);
+                        packets.emplace_back(
+                            OggPacket{ .size = page.segmentSizes()[i], .absoluteGranulePosition = page.absoluteGranulePosition() });
                     }
-                    // check whether this segment contains the Vorbis Comment
-                    if (currentParams
-                        && (m_iterator.currentPageIndex() >= currentParams->firstPageIndex && segmentIndex >= currentParams->firstSegmentIndex)
-                        && (m_iterator.currentPageIndex() <= currentParams->lastPageIndex && segmentIndex <= currentParams->lastSegmentIndex)) {
-                        // prevent making the comment twice if it spreads over multiple pages/segments
-                        if (!currentParams->removed
-                            && ((m_iterator.currentPageIndex() == currentParams->firstPageIndex
-                                && m_iterator.currentSegmentIndex() == currentParams->firstSegmentIndex))) {
-                            makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
-                        }
-
-                        // proceed with next comment?
-                        if (m_iterator.currentPageIndex() > currentParams->lastPageIndex
-                            || (m_iterator.currentPageIndex() == currentParams->lastPageIndex && segmentIndex > currentParams->lastSegmentIndex)) {
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
-                        }
-                    } else {
-                        // copy other segments unchanged
-                        backupStream.seekg(static_cast<std::streamoff>(segmentOffset));
-                        copyHelper.copy(backupStream, buffer, segmentSize);
-                        newSegmentSizes.push_back(segmentSize);
-
-                        // check whether there is a new comment to be inserted into the current page
-                        if (currentParams && m_iterator.currentPageIndex() == currentParams->lastPageIndex
-                            && currentParams->firstSegmentIndex == numeric_limits<size_t>::max()) {
-                            if (!currentParams->removed) {
-                                makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
-                            }
-                            // proceed with next comment
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
+                };
+                copyPackets(0, std::min(params->firstSegmentIndex, page.segmentSizes().size()));
+
+                // skip the existing comment which might continue on further pages of the same stream
+                if (!isNewComment && params->firstSegmentIndex + 1 >= page.segmentSizes().size()) {
+                    auto isUnconcluded = page.isLastSegmentUnconcluded();
+                    for (auto offset = pageOffset; isUnconcluded && offset < totalFileSize;) {
+                        auto nextPage = readPage(offset);
+                        offset = nextPage.startOffset() + nextPage.totalSize();
+                        if (nextPage.streamSerialNumber() == page.streamSerialNumber()) {
+                            mergedPageOffsets.emplace(nextPage.startOffset());
+                            page = std::move(nextPage);
+                            isUnconcluded = page.segmentSizes().size() <= 1 && (page.segmentSizes().empty() || page.isLastSegmentUnconcluded());
                         }
                     }
-                    segmentOffset += segmentSize;
-                    ++segmentIndex;
                 }
 
-                // write buffered data to actual stream
-                if (auto newSegmentSizesIterator = newSegmentSizes.cbegin(), newSegmentSizesEnd = newSegmentSizes.cend();
-                    newSegmentSizesIterator != newSegmentSizesEnd) {
-                    auto bytesLeft = *newSegmentSizesIterator;
-                    auto continuePreviousSegment = false, needsZeroLacingValue = false;
-                    // write pages until all data in the buffer is written
-                    while (newSegmentSizesIterator != newSegmentSizesEnd) {
-                        // memorize offset to update checksum later
-                        updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp()));
-                        // copy page header from original file (except for the segment table)
-                        backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                        copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
-                        // use flags of original page as base and adjust "continued packet"-flag as needed
-                        auto flags = (currentPage.headerTypeFlag() & 0xFE) | (continuePreviousSegment ? 0x01 : 0x00);
-                        continuePreviousSegment = true;
-                        // ensure "first page of logical bitstream"-flag is cleared for additional pages we need to insert
-                        // ensure "last page of logical bitstream"-flag is cleared for the first page
-                        flags = flags & (newSegmentSizesIterator != newSegmentSizes.cbegin() ? 0xFD : 0xF);
-                        // override flags copied from original file
-                        stream().seekp(-22, ios_base::cur);
-                        stream().put(static_cast<char>(flags));
-                        // update absolute granule position later (8 byte) and keep stream serial number (4 byte)
-                        stream().seekp(12, ios_base::cur);
-                        // adjust page sequence number
-                        writer().writeUInt32LE(pageSequenceNumber);
-                        // skip checksum (4 bytes) and number of page segments (1 byte); those are update later
-                        stream().seekp(5, ios_base::cur);
-                        // write segment sizes as long as there are segment sizes to be written and
-                        // the max number of segment sizes (255) is not exceeded
-                        auto segmentSizesWritten = std::int16_t(); // in the current page header only
-                        auto currentSize = std::uint32_t();
-                        while ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                            while (bytesLeft > 0xFF && segmentSizesWritten < 0xFF) {
-                                stream().put(static_cast<char>(0xFF));
-                                currentSize += 0xFF;
-                                bytesLeft -= 0xFF;
-                                ++segmentSizesWritten;
-                            }
-                            if ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                                // bytes left is here <= 0xFF
-                                stream().put(static_cast<char>(bytesLeft));
-                                currentSize += bytesLeft;
-                                needsZeroLacingValue = bytesLeft == 0xFF;
-                                bytesLeft = 0;
-                                ++segmentSizesWritten;
-                            }
-                            if (!bytesLeft && !needsZeroLacingValue) {
-                                // sizes for the segment have been written
-                                // -> continue with next segment
-                                if (++newSegmentSizesIterator != newSegmentSizesEnd) {
-                                    bytesLeft = *newSegmentSizesIterator;
-                                    continuePreviousSegment = false;
-                                }
-                            }
-                        }
-
-                        // remove continue flag if there are no bytes left in the current segment
-                        if (!bytesLeft && !needsZeroLacingValue) {
-                            continuePreviousSegment = false;
-                        }
+                // make the comment
+                if (!params->removed) {
+                    auto newSegmentSizes = std::vector<std::uint32_t>();
+                    makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, comment, params, diag);
+                    packets.emplace_back(OggPacket{ .size = newSegmentSizes.back(),
+                        .absoluteGranulePosition = page.absoluteGranulePosition(),
+                        .startsNewPage = isNewComment });
+                }
 
-                        // set the absolute granule postion
-                        if (newSegmentSizesIterator != newSegmentSizesEnd) {
-                            // set absolute granule position to special value "-1" if there are still bytes to be written in the current packet
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            writer().writeInt64LE(-1);
-                            stream().seekp(12, ios_base::cur);
-                        } else if (currentParams->lastPageIndex != currentParams->firstPageIndex) {
-                            // ensure the written absolute granule position matches the one from the last page of the existing file
-                            backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[currentParams->lastPageIndex].startOffset() + 6));
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            copyHelper.copy(backupStream, stream(), 8);
-                            stream().seekp(12, ios_base::cur);
+                // copy further packets from the page the comment ends
+                const auto nextIndex = isNewComment ? page.segmentSizes().size()
+                    : page.startOffset() == currentPage.startOffset() ? params->firstSegmentIndex + 1 : std::size_t(1);
+                copyPackets(nextIndex, page.segmentSizes().size());
+                const auto isLastPacketUnconcluded
+                    = (isNewComment ? params->removed : nextIndex < page.segmentSizes().size()) && page.isLastSegmentUnconcluded();
+
+                // write buffered packets to actual stream
+                auto continuePreviousPacket = currentPage.isContinued();
+                auto isFirstPage = true;
+                auto bytesLeft = packets.empty() ? std::uint32_t() : packets.front().size;
+                for (auto packet = packets.cbegin(), end = packets.cend(); packet != end; isFirstPage = false) {
+                    // compute segment table
+                    auto segmentTable = std::array<char, 0xFF>();
+                    auto segmentCount = std::size_t();
+                    auto dataSize = std::uint32_t();
+                    auto absoluteGranulePosition = std::numeric_limits<std::uint64_t>::max(); // means "no packets finish on this page"
+                    const auto isContinued = continuePreviousPacket;
+                    while (packet != end && segmentCount < segmentTable.size()
+                        && (continuePreviousPacket || !packet->startsNewPage || !segmentCount)) {
+                        const auto segmentSize = std::min<std::uint32_t>(bytesLeft, 0xFF);
+                        segmentTable[segmentCount++] = static_cast<char>(segmentSize);
+                        dataSize += segmentSize;
+                        bytesLeft -= segmentSize;
+                        // continue with next packet if the packet is concluded
+                        if (const auto isConcluded = segmentSize < 0xFF; isConcluded || (isLastPacketUnconcluded && !bytesLeft && packet + 1 == end)) {
+                            if (isConcluded) {
+                                absoluteGranulePosition = packet->absoluteGranulePosition;
+                            }
+                            bytesLeft = ++packet != end ? packet->size : 0;
+                            continuePreviousPacket = false;
                         } else {
-                            // leave the absolute granule position unchanged
-                            stream().seekp(-1 - segmentSizesWritten, ios_base::cur);
+                            continuePreviousPacket = true;
                         }
-
-                        // page is full or all segment data has been covered
-                        // -> write segment table size (segmentSizesWritten) and segment data
-                        // -> seek back and write updated page segment number
-                        stream().put(static_cast<char>(segmentSizesWritten));
-                        stream().seekp(segmentSizesWritten, ios_base::cur);
-                        // -> write actual page data
-                        copyHelper.copy(buffer, stream(), currentSize);
-
-                        ++pageSequenceNumber;
                     }
-                }
 
+                    // write page header; use flags of original pages as base
+                    // -> adjust "continued packet"-flag as needed
+                    // -> ensure "first page of logical bitstream"-flag is only set for the first page
+                    // -> ensure "last page of logical bitstream"-flag is only set for the last page
+                    lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+                    updatedPageOffsets.push_back(lastPageNewOffset); // memorize offset to update checksum later
+                    const auto flags
+                        = (isContinued ? 0x01 : 0x00) | (isFirstPage ? currentPage.headerTypeFlag() & 0x02 : 0x00) | (packet == end ? page.headerTypeFlag() & 0x04 : 0x00);
+                    writer().writeUInt32BE(0x4F676753u);
+                    writer().writeByte(currentPage.streamStructureVersion());
+                    writer().writeByte(static_cast<std::uint8_t>(flags));
+                    writer().writeUInt64LE(absoluteGranulePosition);
+                    writer().writeUInt32LE(currentPage.streamSerialNumber());
+                    writer().writeUInt32LE(pageSequenceNumber);
+                    writer().writeUInt32LE(0); // checksum is updated later
+                    writer().writeByte(static_cast<std::uint8_t>(segmentCount));
+                    stream().write(segmentTable.data(), static_cast<std::streamsize>(segmentCount));
+                    // write actual page data
+                    copyHelper.copy(buffer, stream(), dataSize);
+                    ++pageSequenceNumber;
+                }
             } else {
-                if (pageSequenceNumber != m_iterator.currentPageIndex()) {
+                lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+                backupStream.seekg(static_cast<std::streamoff>(currentPage.startOffset()));
+                if (pageSequenceNumber != currentPage.sequenceNumber()) {
                     // just update page sequence number
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp())); // memorize offset to update checksum later
+                    updatedPageOffsets.push_back(lastPageNewOffset); // memorize offset to update checksum later
                     copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
                     stream().seekp(-9, ios_base::cur);
                     writer().writeUInt32LE(pageSequenceNumber);
@@ -681,7 +636,6 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     copyHelper.copy(backupStream, stream(), pageSize - oggPageHeaderSize);
                 } else {
                     // copy page unchanged
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
                     copyHelper.copy(backupStream, stream(), pageSize);
                 }
                 ++pageSequenceNumber;
@@ -705,7 +659,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
 
         // ensure the "last page of logical bitstream"-flag is set on the last Ogg page (in case the last page was written/modified by us)
-        if (lastPage && lastPageNewOffset) {
+        if (lastPageNewOffset) {
             const auto offset = static_cast<std::streamoff>(lastPageNewOffset + 5ul);
             stream.seekg(offset);
             if (const auto flag = stream.get(); !(flag & 0x04)) {
diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 7a3cd22..35a378f 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -244,7 +244,7 @@ bool OggIterator::resyncAt(std::uint64_t offset)
     // find capture pattern 'OggS'
     stream().seekg(static_cast<streamoff>(offset));
     std::uint8_t lettersFound = 0;
-    for (std::uint64_t bytesAvailable = max<std::uint64_t>(streamSize() - offset, 65307ul); bytesAvailable >= 27; --bytesAvailable) {
+    for (std::uint64_t bytesToSearch = min<std::uint64_t>(streamSize() - offset, 65307ul + 4ul); bytesToSearch; --bytesToSearch) {
         switch (static_cast<char>(stream().get())) {
         case 'O':
             lettersFound = 1;
@@ -256,9 +256,11 @@ bool OggIterator::resyncAt(std::uint64_t offset)
             if (lettersFound == 3) {
                 // capture pattern found
                 const auto currentOffset = stream().tellg();
+                const auto pageOffset = static_cast<std::uint64_t>(currentOffset) - 4;
+                const auto bytesAvailable = streamSize() - pageOffset;
                 // -> try to parse an Ogg page at this position
                 try {
-                    m_pages.emplace_back(stream(), static_cast<std::uint64_t>(stream().tellg()) - 4,
+                    m_pages.emplace_back(stream(), pageOffset,
                         bytesAvailable > numeric_limits<std::int32_t>::max() ? numeric_limits<std::int32_t>::max()
                                                                              : static_cast<std::int32_t>(bytesAvailable));
                     setPageIndex(m_pages.size() - 1);
-- 
2.43.0


From 4f51f1f35dfa5f35b846e355e02dc4e0997e363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:16 +0000
Subject: [PATCH 020/117] fix: write all covers of a Vorbis comment and compute
 its padding correctly

---
 vorbis/vorbiscomment.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 0a7ac6f..40dd5fb 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -306,11 +306,13 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
         auto bytesRemaining = std::uint64_t();
         if (stream) {
             bytesRemaining = stream.remainingBytesInCurrentSegment();
-            if (stream.currentPage().isLastSegmentUnconcluded()) {
+            while (stream.currentPage().isLastSegmentUnconcluded()
+                && stream.currentSegmentIndex() + 1 == stream.currentPage().segmentSizes().size()) {
                 stream.nextSegment();
-                if (stream) {
-                    bytesRemaining += stream.remainingBytesInCurrentSegment();
+                if (!stream) {
+                    break;
                 }
+                bytesRemaining += stream.remainingBytesInCurrentSegment();
             }
         }
         if (bytesRemaining) {
@@ -415,7 +417,7 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
             fieldsWritten += makeField(i.second, writer, flags, diag);
         }
     }
-    if (const auto cover = fields().find(coverId); cover != fields().end()) {
+    for (auto [cover, end] = fields().equal_range(coverId); cover != end; ++cover) {
         fieldsWritten += makeField(cover->second, writer, flags, diag);
     }
     // write field count
-- 
2.43.0


From 0eba0c21fcd9d90ad8726827ed778fbc0a3cad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 021/117] fix: write valid metadata block header for Vorbis
 comments of FLAC streams within Ogg

---
 ogg/oggcontainer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index db455d3..559f72f 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -406,11 +406,15 @@ void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<653
 
         comment->make(buffer, VorbisCommentFlags::NoSignature | VorbisCommentFlags::NoFramingByte, diag);
 
+        // write padding as part of the block
+        MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+
         // finally make the header
         header.setDataSize(static_cast<std::uint32_t>(buffer.tellp() - offset - 4));
         if (header.dataSize() > 0xFFFFFF) {
             diag.emplace_back(
                 DiagLevel::Critical, "Size of Vorbis comment exceeds size limit for FLAC \"METADATA_BLOCK_HEADER\".", "making Vorbis Comment");
+            throw InvalidDataException();
         }
         buffer.seekp(offset);
         header.makeHeader(buffer);
@@ -419,7 +423,9 @@ void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<653
     }
     default:;
     }
-    MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    if (params->streamFormat != GeneralMediaFormat::Flac) {
+        MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    }
 
     newSegmentSizes.push_back(static_cast<std::uint32_t>(buffer.tellp() - offset));
 }
-- 
2.43.0


From 39e96d0414b8eae364f6e0fe1203ca6a6f63d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 022/117] fix: reset Ogg iterator correctly and handle unset
 granule positions when computing durations

---
 ogg/oggiterator.cpp | 8 +++++---
 ogg/oggiterator.h   | 3 ++-
 ogg/oggstream.cpp   | 8 ++++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 35a378f..70a3eb6 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -45,7 +45,7 @@ void OggIterator::clear(istream &stream, std::uint64_t startOffset, std::uint64_
  */
 void OggIterator::reset()
 {
-    for (m_page = m_segment = m_offset = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
+    for (m_page = m_segment = m_offset = m_bytesRead = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
         const OggPage &page = m_pages[m_page];
         if (!page.segmentSizes().empty() && matchesFilter(page)) {
             // page is not empty and matches ID filter if set
@@ -99,8 +99,9 @@ void OggIterator::previousPage()
 {
     while (m_page) {
         const OggPage &page = m_pages[--m_page];
-        if (matchesFilter(page)) {
+        if (!page.segmentSizes().empty() && matchesFilter(page)) {
             m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);
+            m_bytesRead = 0;
             return;
         }
     }
@@ -114,7 +115,8 @@ void OggIterator::previousSegment()
 {
     const OggPage &page = m_pages[m_page];
     if (m_segment && matchesFilter(page)) {
-        m_offset -= page.segmentSizes()[m_segment--];
+        m_offset -= page.segmentSizes()[--m_segment];
+        m_bytesRead = 0;
     } else {
         previousPage();
     }
diff --git a/ogg/oggiterator.h b/ogg/oggiterator.h
index c76a06f..f01c30b 100644
--- a/ogg/oggiterator.h
+++ b/ogg/oggiterator.h
@@ -183,7 +183,7 @@ inline std::vector<OggPage>::size_type OggIterator::currentPageIndex() const
 inline void OggIterator::setPageIndex(std::vector<OggPage>::size_type index)
 {
     const OggPage &page = m_pages[m_page = index];
-    m_segment = 0;
+    m_segment = m_bytesRead = 0;
     m_offset = page.startOffset() + page.headerSize();
 }
 
@@ -196,6 +196,7 @@ inline void OggIterator::setSegmentIndex(std::vector<std::uint32_t>::size_type i
 {
     const OggPage &page = m_pages[m_page];
     m_offset = page.dataOffset(m_segment = index);
+    m_bytesRead = 0;
 }
 
 /*!
diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index dd83fce..79c8bbb 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -16,6 +16,7 @@
 
 #include <functional>
 #include <iostream>
+#include <limits>
 
 using namespace std;
 using namespace std::placeholders;
@@ -298,9 +299,12 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     if (!m_sampleCount && iterator.isLastPageFetched()) {
         const auto &pages = iterator.pages();
         const auto firstPage = find_if(pages.cbegin(), pages.cend(), pred);
-        const auto lastPage = find_if(pages.crbegin(), pages.crend(), pred);
+        const auto lastPage = find_if(pages.crbegin(), pages.crend(), [&pred](const OggPage &page) {
+            return pred(page) && page.absoluteGranulePosition() != numeric_limits<std::uint64_t>::max(); // skip pages no packets finish on
+        });
         if (firstPage != pages.cend() && lastPage != pages.crend()) {
-            m_sampleCount = lastPage->absoluteGranulePosition() - firstPage->absoluteGranulePosition();
+            const auto firstPosition = firstPage->absoluteGranulePosition(), lastPosition = lastPage->absoluteGranulePosition();
+            m_sampleCount = lastPosition > firstPosition ? lastPosition - firstPosition : 0;
             // must apply "pre-skip" here to calculate effective sample count and duration?
             if (m_sampleCount > preSkip) {
                 m_sampleCount -= preSkip;
-- 
2.43.0


From a994792d25bcde8f6ad102076cc4e163f3ce7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 023/117] fix: avoid reading beyond last Ogg page when FLAC
 stream ends after mapping header

---
 ogg/oggiterator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 70a3eb6..82d0839 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -80,6 +80,9 @@ void OggIterator::nextPage()
  */
 void OggIterator::nextSegment()
 {
+    if (!*this) {
+        return;
+    }
     const OggPage &page = m_pages[m_page];
     if (matchesFilter(page) && ++m_segment < page.segmentSizes().size()) {
         // current page has next segment
-- 
2.43.0


From 6fb81cc54cfb49404f00242b0cd36c8dcc755dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 024/117] fix: avoid out-of-bounds reads and losing last
 character when parsing strings of ID3v2 frames

---
 id3/id3v2frame.cpp | 48 +++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index df12b8e..fcdc4be 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -92,7 +92,7 @@ template <class stringtype> static int parseGenreIndex(const stringtype &denotat
             case '\0':
                 return index;
             default:
-                if (c >= '0' && c <= '9') {
+                if (c >= '0' && c <= '9' && index < 100000) {
                     index = index * 10 + c - '0';
                 } else {
                     return -1;
@@ -116,7 +116,8 @@ static std::string stringFromSubstring(std::tuple<const char *, std::size_t, con
  */
 static std::u16string wideStringFromSubstring(std::tuple<const char *, std::size_t, const char *> substr, TagTextEncoding encoding)
 {
-    std::u16string res(reinterpret_cast<u16string::const_pointer>(std::get<0>(substr)), std::get<1>(substr) / 2);
+    auto res = std::u16string(std::get<1>(substr) / 2, u'\0');
+    std::memcpy(res.data(), std::get<0>(substr), res.size() * 2);
     TagValue::ensureHostByteOrder(res, encoding);
     return res;
 }
@@ -278,13 +279,14 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         auto dataEncoding = isTextFrame ? parseTextEncodingByte(static_cast<std::uint8_t>(*(currentOffset++)), diag) : TagTextEncoding::Latin1;
 
         // parse string values (since ID3v2.4 a text frame may contain multiple strings)
-        for (size_t currentIndex = 1; currentIndex < m_dataSize;) {
+        const auto firstIndex = static_cast<size_t>(currentOffset - buffer.get());
+        for (size_t currentIndex = firstIndex; currentIndex < m_dataSize;) {
             // determine the next substring
             const auto substr(parseSubstring(currentOffset, m_dataSize - currentIndex, dataEncoding, false, diag));
 
             // handle case when string is empty
             if (!get<1>(substr)) {
-                if (currentIndex == 1) {
+                if (currentIndex == firstIndex) {
                     value().clearDataAndMetadata();
                 }
                 currentIndex = static_cast<size_t>(get<2>(substr) - buffer.get());
@@ -931,17 +933,14 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             }
             get<0>(res) += 3;
         }
+        const char *const end = get<2>(res);
         const char *pos = get<0>(res);
-        for (; *pos != 0x00; ++pos) {
-            if (pos < get<2>(res)) {
-                ++get<1>(res);
-            } else {
-                if (addWarnings) {
-                    diag.emplace_back(
-                        DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
-                }
-                break;
-            }
+        for (; pos < end && *pos != 0x00; ++pos) {
+            ++get<1>(res);
+        }
+        if (pos >= end && addWarnings) {
+            diag.emplace_back(
+                DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
         }
         get<2>(res) = pos + 1;
         break;
@@ -964,19 +963,16 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
                 get<0>(res) += 2;
             }
         }
-        const std::uint16_t *pos = reinterpret_cast<const std::uint16_t *>(get<0>(res));
-        for (; *pos != 0x0000; ++pos) {
-            if (pos < reinterpret_cast<const std::uint16_t *>(get<2>(res))) {
-                get<1>(res) += 2;
-            } else {
-                if (addWarnings) {
-                    diag.emplace_back(
-                        DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
-                }
-                break;
-            }
+        const char *const end = get<2>(res);
+        const char *pos = get<0>(res);
+        for (; end - pos >= 2 && (pos[0] || pos[1]); pos += 2) {
+            get<1>(res) += 2;
+        }
+        if (end - pos < 2 && addWarnings) {
+            diag.emplace_back(
+                DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
         }
-        get<2>(res) = reinterpret_cast<const char *>(pos + 1);
+        get<2>(res) = pos + 2;
         break;
     }
     }
-- 
2.43.0


From 175c28892b625e281a9ed58a047290a4f773a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:27 +0000
Subject: [PATCH 025/117] fix: handle flags and additional header information
 of ID3v2 frames according to the version

---
 id3/id3v2frame.cpp | 133 ++++++++++++++++++++++++++++++++++++---------
 id3/id3v2frame.h   |   7 ++-
 2 files changed, 110 insertions(+), 30 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index fcdc4be..e74613c 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -139,6 +139,21 @@ static std::uint64_t readPlayCounter(const char *begin, const char *end, const s
     return res;
 }
 
+/*!
+ * \brief Reverses the unsynchronisation of the specified \a data in-place and returns the resulting size.
+ */
+static std::uint32_t reverseUnsynchronisation(char *data, std::uint32_t size)
+{
+    auto res = std::uint32_t();
+    for (auto i = std::uint32_t(); i != size; ++i) {
+        data[res++] = data[i];
+        if (static_cast<std::uint8_t>(data[i]) == 0xFF && i + 1 != size && !data[i + 1]) {
+            ++i;
+        }
+    }
+    return res;
+}
+
 /*!
  * \brief Parses a frame from the stream read using the specified \a reader.
  *
@@ -153,6 +168,8 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 {
     static const string defaultContext("parsing ID3v2 frame");
     string context;
+    m_parsedVersion = version;
+    m_totalSize = 0;
 
     // parse header
     if (version < 3) {
@@ -199,15 +216,16 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
         // -> read size, check whether frame is truncated
         m_dataSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        m_totalSize = m_dataSize + 10;
-        if (m_totalSize > maximalSize) {
+        if (maximalSize < 10 || m_dataSize > maximalSize - 10) {
+            m_totalSize = maximalSize;
             diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
             throw TruncatedDataException();
         }
+        m_totalSize = m_dataSize + 10;
 
-        // -> read flags and group
+        // -> read flags
         m_flag = reader.readUInt16BE();
-        m_group = hasGroupInformation() ? reader.readByte() : 0;
+        m_group = 0;
         if (isEncrypted()) {
             // encryption is not implemented
             diag.emplace_back(DiagLevel::Critical, "Encrypted frames aren't supported.", context);
@@ -230,18 +248,56 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         throw InvalidDataException();
     }
 
-    // parse the data
-    unique_ptr<char[]> buffer;
+    // read the data
+    auto buffer = make_unique<char[]>(m_dataSize);
+    reader.read(buffer.get(), m_dataSize);
+
+    // reverse unsynchronisation
+    if (isUnsynchronized()) {
+        m_dataSize = reverseUnsynchronisation(buffer.get(), m_dataSize);
+    }
+
+    // read additional header information (which counts as part of the frame's data)
+    // note: The order depends on the version.
+    auto additionalHeaderSize = std::uint32_t();
+    auto decompressedSizeField = std::uint32_t();
+    const auto hasDecompressedSize = isCompressed() || hasDataLengthIndicator();
+    const auto readAdditionalHeader = [&, this](std::uint32_t size) {
+        if (m_dataSize - additionalHeaderSize < size) {
+            diag.emplace_back(DiagLevel::Critical, "The additional frame header information is truncated.", context);
+            throw TruncatedDataException();
+        }
+        additionalHeaderSize += size;
+        return buffer.get() + additionalHeaderSize - size;
+    };
+    if (version < 4 && hasDecompressedSize) {
+        decompressedSizeField = BE::toInt<std::uint32_t>(readAdditionalHeader(4));
+    }
+    if (hasGroupInformation()) {
+        m_group = static_cast<std::uint8_t>(*readAdditionalHeader(1));
+    }
+    if (version >= 4 && hasDecompressedSize) {
+        decompressedSizeField = toNormalInt(BE::toInt<std::uint32_t>(readAdditionalHeader(4)));
+    }
+    m_dataSize -= additionalHeaderSize;
+    if (!m_dataSize) {
+        diag.emplace_back(DiagLevel::Warning, "The frame contains no data.", context);
+        throw InvalidDataException();
+    }
+    if (additionalHeaderSize) {
+        std::memmove(buffer.get(), buffer.get() + additionalHeaderSize, m_dataSize);
+    }
 
-    // -> decompress data if compressed; otherwise just read it
+    // decompress data if compressed
     if (isCompressed()) {
-        uLongf decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        if (decompressedSize < m_dataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed size is smaller than the compressed size.", context);
+        // check whether the decompressed size is plausible before allocating memory for the decompressed data
+        // note: The compression ratio of deflate is always lower than 1100:1.
+        uLongf decompressedSize = decompressedSizeField;
+        if (!decompressedSize || decompressedSize / 1100u > m_dataSize) {
+            diag.emplace_back(DiagLevel::Critical, "The decompressed size is invalid.", context);
             throw InvalidDataException();
         }
-        const auto bufferCompressed = make_unique<char[]>(m_dataSize);
-        reader.read(bufferCompressed.get(), m_dataSize);
+        auto bufferCompressed = std::move(buffer);
         buffer = make_unique<char[]>(decompressedSize);
         switch (
             uncompress(reinterpret_cast<Bytef *>(buffer.get()), &decompressedSize, reinterpret_cast<Bytef *>(bufferCompressed.get()), m_dataSize)) {
@@ -260,14 +316,11 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             diag.emplace_back(DiagLevel::Critical, "Decompressing failed (unknown reason).", context);
             throw InvalidDataException();
         }
-        if (decompressedSize > maxId3v2FrameDataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
+        if (!decompressedSize || decompressedSize > maxId3v2FrameDataSize) {
+            diag.emplace_back(DiagLevel::Critical, "The decompressed data is empty or exceeds the maximum supported frame size.", context);
             throw InvalidDataException();
         }
         m_dataSize = static_cast<std::uint32_t>(decompressedSize);
-    } else {
-        buffer = make_unique<char[]>(m_dataSize);
-        reader.read(buffer.get(), m_dataSize);
     }
 
     const auto isTextFrame = Id3v2FrameIds::isTextFrame(id());
@@ -462,6 +515,26 @@ void Id3v2Frame::internallyClearFurtherData()
     m_padding = false;
 }
 
+/*!
+ * \brief Returns the flags to be written when making the frame for the specified \a version.
+ * \remarks The meaning of the bits depends on the version so the flags might need to be converted.
+ */
+std::uint16_t Id3v2Frame::makeFlag(std::uint8_t version) const
+{
+    auto res = std::uint16_t();
+    const auto setFlagIf = [&res, version](bool condition, std::uint16_t flag, std::uint16_t oldFlag) {
+        if (condition) {
+            res |= version >= 4 ? flag : oldFlag;
+        }
+    };
+    setFlagIf(toDiscardWhenUnknownAndTagIsAltered(), 0x4000, 0x8000);
+    setFlagIf(toDiscardWhenUnknownAndFileIsAltered(), 0x2000, 0x4000);
+    setFlagIf(isReadOnly(), 0x1000, 0x2000);
+    setFlagIf(hasGroupInformation(), 0x0040, 0x0020);
+    setFlagIf(isCompressed(), 0x0009, 0x0080);
+    return res;
+}
+
 /*!
  * \brief Returns a diag message that additional values are ignored.
  */
@@ -820,10 +893,17 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             m_requiredSize += 1;
         }
         // -> decompressed size
-        if (version >= 3 && m_frame.isCompressed()) {
+        if (m_frame.isCompressed()) {
             m_requiredSize += 4;
         }
     }
+
+    // check whether the size can be denoted using the size field of the frame
+    const auto maxSize = version < 3 ? std::uint32_t(0xFFFFFFu) : (version < 4 ? maxId3v2FrameDataSize : std::uint32_t(0xFFFFFFFu));
+    if (m_requiredSize < m_dataSize || m_requiredSize - (version < 3 ? 6u : 10u) > maxSize) {
+        diag.emplace_back(DiagLevel::Critical, "Size exceeds maximum frame size.", context);
+        throw InvalidDataException();
+    }
 }
 
 /*!
@@ -841,20 +921,19 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
     } else {
         writer.writeUInt32BE(m_frameId);
         if (m_version >= 4) {
-            writer.writeSynchsafeUInt32BE(m_dataSize);
+            writer.writeSynchsafeUInt32BE(m_requiredSize - 10);
         } else {
-            writer.writeUInt32BE(m_dataSize);
+            writer.writeUInt32BE(m_requiredSize - 10);
+        }
+        writer.writeUInt16BE(m_frame.makeFlag(m_version));
+        if (m_version < 4 && m_frame.isCompressed()) {
+            writer.writeUInt32BE(m_decompressedSize);
         }
-        writer.writeUInt16BE(m_frame.flag());
         if (m_frame.hasGroupInformation()) {
             writer.writeByte(m_frame.group());
         }
-        if (m_version >= 3 && m_frame.isCompressed()) {
-            if (m_version >= 4) {
-                writer.writeSynchsafeUInt32BE(m_decompressedSize);
-            } else {
-                writer.writeUInt32BE(m_decompressedSize);
-            }
+        if (m_version >= 4 && m_frame.isCompressed()) {
+            writer.writeSynchsafeUInt32BE(m_decompressedSize);
         }
     }
     writer.write(m_data.get(), m_dataSize);
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 27799aa..91351d2 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -147,6 +147,7 @@ private:
     void internallyClearValue();
     void internallyClearFurtherData();
     std::string ignoreAdditionalValuesDiagMsg() const;
+    std::uint16_t makeFlag(std::uint8_t version) const;
 
     std::vector<TagValue> m_additionalValues;
     std::uint32_t m_parsedVersion;
@@ -236,7 +237,7 @@ inline std::uint32_t Id3v2Frame::dataSize() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
 {
-    return m_flag & 0x8000;
+    return m_parsedVersion >= 4 ? m_flag & 0x4000 : m_flag & 0x8000;
 }
 
 /*!
@@ -244,7 +245,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
 {
-    return m_flag & 0x4000;
+    return m_parsedVersion >= 4 ? m_flag & 0x2000 : m_flag & 0x4000;
 }
 
 /*!
@@ -252,7 +253,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
  */
 inline bool Id3v2Frame::isReadOnly() const
 {
-    return m_flag & 0x2000;
+    return m_parsedVersion >= 4 ? m_flag & 0x1000 : m_flag & 0x2000;
 }
 
 /*!
-- 
2.43.0


From d3a6115887d89d4c915eca78fb134cc4b9cf21a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:38 +0000
Subject: [PATCH 026/117] fix: determine size of descriptions within ID3v2
 frames correctly

---
 id3/id3v2frame.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index e74613c..a83c922 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1213,6 +1213,22 @@ size_t Id3v2Frame::makeBom(char *buffer, TagTextEncoding encoding)
     }
 }
 
+/*!
+ * \brief Returns the size of the specified \a str in bytes up to the first termination.
+ */
+static std::string::size_type determineStringSize(const std::string &str, TagTextEncoding encoding)
+{
+    if (encoding != TagTextEncoding::Utf16BigEndian && encoding != TagTextEncoding::Utf16LittleEndian) {
+        return std::min(str.find('\0'), str.size());
+    }
+    for (auto i = std::string::size_type(); i + 1 < str.size(); i += 2) {
+        if (!str[i] && !str[i + 1]) {
+            return i;
+        }
+    }
+    return str.size() - str.size() % 2;
+}
+
 /*!
  * \brief Writes the specified picture to the specified buffer (ID3v2.2 compatible).
  */
@@ -1222,11 +1238,7 @@ void Id3v2Frame::makeLegacyPicture(
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    auto descriptionSize = determineStringSize(picture.description(), descriptionEncoding);
     if (descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1297,11 +1309,7 @@ void Id3v2Frame::makePicture(std::unique_ptr<char[]> &buffer, std::uint32_t &buf
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    auto descriptionSize = determineStringSize(picture.description(), descriptionEncoding);
     if (version < 4 && descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1371,11 +1379,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
         throw InvalidDataException();
     }
     StringData convertedDescription;
-    string::size_type descriptionSize = comment.description().find(
-        "\0\0", 0, encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = comment.description().size();
-    }
+    auto descriptionSize = determineStringSize(comment.description(), encoding);
     if (version < 4 && encoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         encoding = TagTextEncoding::Utf16LittleEndian;
@@ -1386,7 +1390,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
     // calculate needed buffer size and create buffer
     // note: encoding byte + language + description size + actual data size + BOMs and termination
     const auto data = comment.toString(encoding);
-    const auto requiredBufferSize = 1 + 3 + descriptionSize + data.size()
+    const auto requiredBufferSize = 1 + 3 + descriptionSize
         + (encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 6 : 1) + data.size();
     if (requiredBufferSize > numeric_limits<uint32_t>::max()) {
         diag.emplace_back(DiagLevel::Critical, "Required size exceeds maximum.", context);
-- 
2.43.0


From 8e65919cf95c2f375a1a52ed35189ebfca66b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:00 +0000
Subject: [PATCH 027/117] fix: consider all additional values of ID3v2 text
 frames when assigning and converting values

---
 id3/id3v2tag.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index f90071f..c72c941 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -69,6 +69,10 @@ void Id3v2Tag::ensureTextValuesAreProperlyEncoded()
         auto &value = field.second.value();
         value.convertDataEncoding(encoding);
         value.convertDescriptionEncoding(encoding);
+        for (auto &additionalValue : field.second.additionalValues()) {
+            additionalValue.convertDataEncoding(encoding);
+            additionalValue.convertDescriptionEncoding(encoding);
+        }
     }
 }
 
@@ -131,6 +135,7 @@ bool Id3v2Tag::internallySetValues(const IdentifierType &id, const std::vector<T
     // remove remaining existing values (there are more existing values than specified ones)
     for (; range.first != range.second; ++range.first) {
         range.first->second.setValue(TagValue());
+        range.first->second.additionalValues().clear();
     }
     return true;
 }
-- 
2.43.0


From bae494df4e7da3cde1a0c9fe21a157ea078d298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:21 +0000
Subject: [PATCH 028/117] fix: provide strict weak ordering for IDs of ID3v2
 frames

---
 id3/id3v2tag.cpp | 69 ++++++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 43 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index c72c941..2cea686 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -718,51 +718,34 @@ bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
         return false;
     }
 
-    const bool lhsLong = Id3v2FrameIds::isLongId(lhs);
-    const bool rhsLong = Id3v2FrameIds::isLongId(rhs);
-    if (lhsLong != rhsLong) {
-        if (!lhsLong) {
-            lhs = Id3v2FrameIds::convertToLongId(lhs);
-            if (!lhs) {
-                return true;
-            }
-        } else if (!rhsLong) {
-            rhs = Id3v2FrameIds::convertToLongId(rhs);
-            if (!rhs) {
-                return true;
+    // use long IDs where possible
+    // note: This must not depend on the ID we are comparing with. Otherwise we would not provide a strict weak ordering.
+    const auto useLongId = [](std::uint32_t &id) {
+        if (!Id3v2FrameIds::isLongId(id)) {
+            if (const auto longId = Id3v2FrameIds::convertToLongId(id)) {
+                id = longId;
             }
         }
-    }
-
-    if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
-        return true;
-    }
-    if (rhs == Id3v2FrameIds::lUniqueFileId || rhs == Id3v2FrameIds::sUniqueFileId) {
-        return false;
-    }
-    if (lhs == Id3v2FrameIds::lTitle || lhs == Id3v2FrameIds::sTitle) {
-        return true;
-    }
-    if (rhs == Id3v2FrameIds::lTitle || rhs == Id3v2FrameIds::sTitle) {
-        return false;
-    }
-
-    const bool lhstextfield = Id3v2FrameIds::isTextFrame(lhs);
-    const bool rhstextfield = Id3v2FrameIds::isTextFrame(rhs);
-    if (lhstextfield && !rhstextfield) {
-        return true;
-    }
-    if (!lhstextfield && rhstextfield) {
-        return false;
-    }
-
-    if (lhs == Id3v2FrameIds::lCover || lhs == Id3v2FrameIds::sCover) {
-        return false;
-    }
-    if (rhs == Id3v2FrameIds::lCover || rhs == Id3v2FrameIds::sCover) {
-        return true;
-    }
-    return lhs < rhs;
+    };
+    useLongId(lhs);
+    useLongId(rhs);
+
+    const auto rank = [](std::uint32_t id) {
+        switch (id) {
+        case Id3v2FrameIds::lUniqueFileId:
+        case Id3v2FrameIds::sUniqueFileId:
+            return 0;
+        case Id3v2FrameIds::lTitle:
+            return 1;
+        case Id3v2FrameIds::lCover:
+            return 4;
+        default:
+            return Id3v2FrameIds::isTextFrame(id) ? 2 : 3;
+        }
+    };
+    const auto lhsRank = rank(lhs);
+    const auto rhsRank = rank(rhs);
+    return lhsRank != rhsRank ? lhsRank < rhsRank : lhs < rhs;
 }
 
 /*!
-- 
2.43.0


From 5a7d789a241c81cddeecee5dadb2991f59bbed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:41 +0000
Subject: [PATCH 029/117] fix: allow converting composer, synchronized lyrics
 and unique file ID frames between ID3v2 versions

---
 id3/id3v2frameids.cpp | 12 ++++++++++++
 id3/id3v2tag.cpp      |  1 -
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2frameids.cpp b/id3/id3v2frameids.cpp
index 9afb674..954e03c 100644
--- a/id3/id3v2frameids.cpp
+++ b/id3/id3v2frameids.cpp
@@ -105,6 +105,12 @@ std::uint32_t convertToShortId(std::uint32_t id)
         return sUserDefinedURL;
     case lSubtitleOrDescriptionRefinement:
         return sSubtitleOrDescriptionRefinement;
+    case lComposer:
+        return sComposer;
+    case lSynchronizedLyrics:
+        return sSynchronizedLyrics;
+    case lUniqueFileId:
+        return sUniqueFileId;
     default:
         return 0;
     }
@@ -195,6 +201,12 @@ std::uint32_t convertToLongId(std::uint32_t id)
         return lUserDefinedURL;
     case sSubtitleOrDescriptionRefinement:
         return lSubtitleOrDescriptionRefinement;
+    case sComposer:
+        return lComposer;
+    case sSynchronizedLyrics:
+        return lSynchronizedLyrics;
+    case sUniqueFileId:
+        return lUniqueFileId;
     default:
         return 0;
     }
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 2cea686..98cc027 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -733,7 +733,6 @@ bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
     const auto rank = [](std::uint32_t id) {
         switch (id) {
         case Id3v2FrameIds::lUniqueFileId:
-        case Id3v2FrameIds::sUniqueFileId:
             return 0;
         case Id3v2FrameIds::lTitle:
             return 1;
-- 
2.43.0


From 6edc06c15bf0d529158acf78118f495526181530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 030/117] fix: consider unsynchronisation, extended header and
 footer of ID3v2 tags correctly

---
 id3/id3v2tag.cpp | 71 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 19 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 98cc027..cb636d3 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -558,6 +558,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     static const string context("parsing ID3v2 tag");
     BinaryReader reader(&stream);
     const auto startOffset = static_cast<std::uint64_t>(stream.tellg());
+    m_extendedHeaderSize = 0;
 
     // check whether the header is truncated
     if (maximalSize && maximalSize < 10) {
@@ -588,32 +589,57 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
         throw VersionNotSupportedException();
     }
 
+    // determine how many bytes are present
+    auto bytesRemaining = m_sizeExcludingHeader;
+    if (maximalSize && bytesRemaining > maximalSize - 10) {
+        bytesRemaining = static_cast<std::uint32_t>(maximalSize - 10);
+        diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
+    }
+
+    // reverse unsynchronisation
+    // note: As of ID3v2.4 unsynchronisation is done on frame level.
+    auto unsynchronizedData = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
+    auto *frameStream = &stream;
+    if (isUnsynchronisationUsed() && majorVersion < 4) {
+        auto data = std::string(bytesRemaining, '\0');
+        stream.read(data.data(), static_cast<std::streamsize>(data.size()));
+        auto size = std::string::size_type();
+        for (auto i = std::string::size_type(); i != data.size(); ++i) {
+            data[size++] = data[i];
+            if (static_cast<std::uint8_t>(data[i]) == 0xFF && i + 1 != data.size() && !data[i + 1]) {
+                ++i;
+            }
+        }
+        data.resize(size);
+        bytesRemaining = static_cast<std::uint32_t>(size);
+        unsynchronizedData.exceptions(stream.exceptions());
+        unsynchronizedData.str(data);
+        reader.setStream(frameStream = &unsynchronizedData);
+    }
+
     // read extended header (if present)
     if (hasExtendedHeader()) {
-        if (maximalSize && maximalSize < 14) {
+        if (bytesRemaining < 4) {
             diag.emplace_back(DiagLevel::Critical, "Extended header denoted but not present.", context);
             throw TruncatedDataException();
         }
-        m_extendedHeaderSize = reader.readSynchsafeUInt32BE();
-        if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
+        // note: The size excludes the size field itself in ID3v2.3 and includes it as of ID3v2.4.
+        const auto extendedHeaderSize
+            = majorVersion < 4 ? static_cast<std::uint64_t>(reader.readUInt32BE()) + 4u : static_cast<std::uint64_t>(reader.readSynchsafeUInt32BE());
+        if (extendedHeaderSize < 6 || extendedHeaderSize > bytesRemaining) {
             diag.emplace_back(DiagLevel::Critical, "Extended header is invalid/truncated.", context);
             throw TruncatedDataException();
         }
-        stream.seekg(m_extendedHeaderSize - 4, ios_base::cur);
-    }
-
-    // how many bytes remain for frames and padding?
-    std::uint32_t bytesRemaining = m_sizeExcludingHeader - m_extendedHeaderSize;
-    if (maximalSize && bytesRemaining > maximalSize) {
-        bytesRemaining = static_cast<std::uint32_t>(maximalSize);
-        diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
+        m_extendedHeaderSize = static_cast<std::uint32_t>(extendedHeaderSize);
+        frameStream->seekg(m_extendedHeaderSize - 4, ios_base::cur);
+        bytesRemaining -= m_extendedHeaderSize;
     }
 
     // read frames
-    auto pos = static_cast<std::uint64_t>(stream.tellg());
+    auto pos = static_cast<std::uint64_t>(frameStream->tellg());
     while (bytesRemaining) {
         // seek to next frame
-        stream.seekg(static_cast<streamoff>(pos));
+        frameStream->seekg(static_cast<streamoff>(pos));
         // parse frame
         Id3v2Frame frame;
         try {
@@ -624,7 +650,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             fields().emplace(frame.id(), std::move(frame));
         } catch (const NoDataFoundException &) {
             if (frame.hasPaddingReached()) {
-                m_paddingSize = startOffset + m_size - pos;
+                m_paddingSize = bytesRemaining;
                 break;
             }
         } catch (const Failure &) {
@@ -648,9 +674,11 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     if (!hasFooter()) {
         return;
     }
-    if (maximalSize && m_size + 10 < maximalSize) {
+    if (maximalSize && m_size + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
-        stream.seekg(static_cast<streamoff>(startOffset + (m_size += 10)));
+        stream.seekg(static_cast<streamoff>(startOffset + m_size));
+        m_size += 10;
+        reader.setStream(&stream);
         if (reader.readUInt24LE() != 0x494433u) {
             diag.emplace_back(DiagLevel::Critical, "Footer signature is invalid.", context);
         }
@@ -858,9 +886,14 @@ Id3v2TagMaker::Id3v2TagMaker(Id3v2Tag &tag, Diagnostics &diag)
     for (auto &pair : tag.fields()) {
         try {
             m_maker.emplace_back(pair.second.prepareMaking(tag.majorVersion(), diag));
-            m_framesSize += m_maker.back().requiredSize();
         } catch (const Failure &) {
+            continue;
+        }
+        if (m_maker.back().requiredSize() > 0xFFFFFFFu - m_framesSize) {
+            diag.emplace_back(DiagLevel::Critical, "The size of the frames exceeds the maximum size of an ID3v2 tag.", context);
+            throw InvalidDataException();
         }
+        m_framesSize += m_maker.back().requiredSize();
     }
 
     // calculate required size
@@ -887,8 +920,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header or compression bit set
-    writer.writeByte(m_tag.flags() & 0xBF);
+    // -> flags, but without unsynchronisation, extended header, compression and footer bit set
+    writer.writeByte(m_tag.isExperimental() ? 0x20 : 0x00);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
-- 
2.43.0


From 380798dfff557766d1cfdd63f26b3f2696d682d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 031/117] fix: avoid corrupting FLAC metadata blocks when
 adjusting last flag and writing covers

---
 flac/flacstream.cpp | 48 +++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0b8cfee..9576d6d 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -2,6 +2,7 @@
 #include "./flacmetadata.h"
 
 #include "../vorbis/vorbiscomment.h"
+#include "../vorbis/vorbiscommentids.h"
 
 #include "../exceptions.h"
 #include "../mediafileinfo.h"
@@ -129,7 +130,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
             try {
                 // parse the cover
                 VorbisCommentField coverField;
-                coverField.setId(m_vorbisComment->fieldId(KnownField::Cover));
+                coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
                 picture.parse(*m_istream, header.dataSize());
                 coverField.setTypeInfo(picture.pictureType());
@@ -221,7 +222,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(!m_vorbisComment);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        originalStream.seekg(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     // write Vorbis comment
@@ -243,8 +244,8 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     header.setType(FlacMetaDataBlockType::VorbisComment);
     auto dataSize(static_cast<std::uint64_t>(endOffset) - static_cast<std::uint64_t>(lastStartOffset) - 4);
     if (dataSize > 0xFFFFFF) {
-        dataSize = 0xFFFFFF;
-        diag.emplace_back(DiagLevel::Critical, "Vorbis Comment is too big and will be truncated.", "write Vorbis Comment to FLAC stream");
+        diag.emplace_back(DiagLevel::Critical, "Vorbis Comment is too big.", "write Vorbis Comment to FLAC stream");
+        throw InvalidDataException();
     }
     header.setDataSize(static_cast<std::uint32_t>(dataSize));
     header.setLast(!m_vorbisComment->hasField(coverId));
@@ -259,30 +260,31 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     }
     header.setType(FlacMetaDataBlockType::Picture);
     const auto coverFields = m_vorbisComment->fields().equal_range(coverId);
-    for (auto i = coverFields.first; i != coverFields.second;) {
-        const auto lastCoverStartOffset = outputStream.tellp();
+    for (auto i = coverFields.first; i != coverFields.second; ++i) {
+        // skip covers which are supposed to be removed
+        if (i->second.value().isEmpty()) {
+            continue;
+        }
 
+        // write the structure
+        FlacMetaDataBlockPicture pictureBlock(i->second.value());
+        pictureBlock.setPictureType(i->second.typeInfo());
         try {
-            // write the structure
-            FlacMetaDataBlockPicture pictureBlock(i->second.value());
-            pictureBlock.setPictureType(i->second.typeInfo());
-            header.setDataSize(pictureBlock.requiredSize());
-            header.setLast(++i == coverFields.second);
-            header.makeHeader(outputStream);
-            pictureBlock.make(outputStream);
-
-            // update variables to handle the "isLast" flag
-            lastStartOffset = lastCoverStartOffset;
-            lastActuallyWrittenHeader = header;
-
+            const auto pictureSize = pictureBlock.requiredSize();
+            if (pictureSize > 0xFFFFFF) {
+                throw InvalidDataException();
+            }
+            header.setDataSize(pictureSize);
         } catch (const Failure &) {
-            // we can expect nothing is written in the error case except the FLAC header, so
-            // -> just add an error message
             diag.emplace_back(DiagLevel::Critical, "Unable to serialize \"METADATA_BLOCK_PICTURE\" from assigned value.",
                 "write \"METADATA_BLOCK_PICTURE\" to FLAC stream");
-            // -> and to recover, go back to where we were before
-            outputStream.seekp(lastCoverStartOffset);
+            continue;
         }
+        lastStartOffset = outputStream.tellp();
+        header.setLast(false);
+        header.makeHeader(outputStream);
+        pictureBlock.make(outputStream);
+        lastActuallyWrittenHeader = header;
     }
 
     // adjust "isLast" flag if neccassary
@@ -290,7 +292,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(true);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        outputStream.seekp(lastActuallyWrittenHeader.dataSize());
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     return lastStartOffset;
-- 
2.43.0


From 5ca0edbf409ca8acfff5d290b1326b75fb98ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 032/117] fix: avoid writing padding twice when saving FLAC
 files with ID3v2 tags

---
 mediafileinfo.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb56aa9..b551853 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1837,11 +1837,13 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 i->make(outputStream, 0, diag);
             }
             // include padding into the last ID3v2 tag
-            makers.back().make(outputStream, (flacStream && padding && padding < 4) ? 0 : static_cast<std::uint32_t>(padding), diag);
+            makers.back().make(outputStream, static_cast<std::uint32_t>(padding), diag);
         }
 
         if (flacStream) {
-            if (padding && startOfLastMetaDataBlock) {
+            // include padding into FLAC stream only if it has not already been included into the ID3v2 tag
+            const auto flacPadding = makers.empty() ? padding : 0u;
+            if (flacPadding && startOfLastMetaDataBlock) {
                 // if appending padding, ensure the last flag of the last "METADATA_BLOCK_HEADER" is not set
                 flacMetaData.seekg(startOfLastMetaDataBlock);
                 flacMetaData.seekp(startOfLastMetaDataBlock);
@@ -1853,8 +1855,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             outputStream << flacMetaData.rdbuf();
 
             // write padding
-            if (padding) {
-                flacStream->makePadding(outputStream, static_cast<std::uint32_t>(padding), true, diag);
+            if (flacPadding) {
+                flacStream->makePadding(outputStream, static_cast<std::uint32_t>(flacPadding), true, diag);
             }
         }
 
-- 
2.43.0


From 91e66f06217263978fef7f13eb2b7f161092c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 033/117] fix: avoid losing or miscalculating media data when
 saving files with junk, truncated ID3v2 tags or when aborting

---
 mediafileinfo.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index b551853..4ba7d37 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -164,7 +164,7 @@ startParsingSignature:
         diag.emplace_back(DiagLevel::Information, "Parsing the container format has been aborted.", context);
         return;
     }
-    if (size() - containerOffset() >= 16) {
+    if (static_cast<std::streamoff>(size()) - m_containerOffset >= 16) {
         stream().seekg(m_containerOffset, ios_base::beg);
         stream().read(buff, sizeof(buff));
 
@@ -296,6 +296,12 @@ startParsingSignature:
         }
     }
 
+    // do not treat skipped bytes as junk if no known format has been found
+    if (m_containerFormat == ContainerFormat::Unknown || m_containerFormat == ContainerFormat::Id3v2Tag
+        || m_containerFormat == ContainerFormat::ApeTag) {
+        m_containerOffset = id3v2Size;
+    }
+
     if (bytesSkippedBeforeContainer) {
         diag.emplace_back(DiagLevel::Warning, argsToString(bytesSkippedBeforeContainer, " bytes of junk skipped"), context);
     }
@@ -473,7 +479,7 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
     }
 
     // compute effective size
-    m_effectiveSize = static_cast<std::uint64_t>(effectiveSize - m_containerOffset);
+    m_effectiveSize = effectiveSize > m_containerOffset ? static_cast<std::uint64_t>(effectiveSize - m_containerOffset) : 0;
 
     // check for tags in tracks (FLAC only) or via container object
     try {
@@ -1866,10 +1872,11 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
         // copy / skip actual stream data
         // -> determine media data size
-        std::uint64_t mediaDataSize = size() - streamOffset;
+        auto mediaDataEnd = size();
         if (m_fileStructureFlags & MediaFileStructureFlags::ActualExistingId3v1Tag) {
-            mediaDataSize -= 128;
+            mediaDataEnd -= 128;
         }
+        const auto mediaDataSize = mediaDataEnd > streamOffset ? mediaDataEnd - streamOffset : std::uint64_t();
 
         if (rewriteRequired) {
             // copy data from original file
@@ -1884,6 +1891,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             CopyHelper<0x4000> copyHelper;
             copyHelper.callbackCopy(backupStream, stream(), mediaDataSize, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
                 std::bind(&AbortableProgressFeedback::updateStepPercentage, std::ref(progress), _1));
+            progress.stopIfAborted();
         } else {
             // just skip actual stream data
             outputStream.seekp(static_cast<std::streamoff>(mediaDataSize), ios_base::cur);
-- 
2.43.0


From 2ee31b08d9eac8889c4cfd7b9e93490cd25b5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:28 +0000
Subject: [PATCH 034/117] fix: handle single-character values, big track
 numbers and record date of ID3v1 tags

---
 id3/id3v1tag.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 66f40de..7f6018b 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -78,7 +78,7 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     }
     readValue(m_comment, is11 ? 28 : 30, buffer + 97);
     if (is11) {
-        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<char *>(buffer + 126), 0));
+        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
     m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
 }
@@ -207,6 +207,7 @@ bool Id3v1Tag::hasField(KnownField field) const
         return !m_artist.isEmpty();
     case KnownField::Album:
         return !m_album.isEmpty();
+    case KnownField::RecordDate:
         return !m_year.isEmpty();
     case KnownField::Comment:
         return !m_comment.isEmpty();
@@ -277,12 +278,10 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
  */
 void Id3v1Tag::readValue(TagValue &value, size_t maxLength, const char *buffer)
 {
-    const char *end = buffer + maxLength - 1;
-    while ((*end == 0x0 || *end == ' ') && end >= buffer) {
-        --end;
+    while (maxLength && (buffer[maxLength - 1] == 0x0 || buffer[maxLength - 1] == ' ')) {
         --maxLength;
     }
-    if (buffer == end) {
+    if (!maxLength) {
         return;
     }
     if (maxLength >= 3 && BE::toUInt24(buffer) == 0x00EFBBBF) {
@@ -339,9 +338,9 @@ void Id3v1Tag::writeValue(const TagValue &value, size_t length, char *buffer, os
     }
 
     // copy the string
-    if (valueAsString.size() > length) {
+    if (valueAsString.size() > valueLength) {
         diag.emplace_back(
-            DiagLevel::Warning, argsToString("Value has been truncated. Max. ", length, " characters supported."), "making ID3v1 tag field");
+            DiagLevel::Warning, argsToString("Value has been truncated. Max. ", valueLength, " characters supported."), "making ID3v1 tag field");
     }
     valueAsString.copy(valueStart, valueLength);
 
-- 
2.43.0


From c301ef2faad52e30d15d4f890e8fa8e055cb3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:16 +0000
Subject: [PATCH 035/117] fix: determine padding and truncated header at end of
 ID3v2 tags correctly

---
 id3/id3v2frame.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index a83c922..f486f57 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -171,6 +171,19 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
     m_parsedVersion = version;
     m_totalSize = 0;
 
+    // treat remaining bytes as padding if there is not even enough space for a header
+    if (maximalSize < (version < 3 ? 6u : 10u)) {
+        m_totalSize = maximalSize;
+        for (auto i = std::uint32_t(); i != maximalSize; ++i) {
+            if (reader.readByte()) {
+                diag.emplace_back(DiagLevel::Warning, "The frame header is truncated and will be ignored.", defaultContext);
+                throw TruncatedDataException();
+            }
+        }
+        m_padding = true;
+        throw NoDataFoundException();
+    }
+
     // parse header
     if (version < 3) {
         // parse header for ID3v2.1 and ID3v2.2
@@ -831,7 +844,7 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             m_data = make_unique<char[]>(m_decompressedSize);
             auto pos = popularity.user.size() + 1;
             std::memcpy(m_data.get(), popularity.user.data(), pos);
-            m_data[pos] = static_cast<char>(popularity.rating);
+            m_data[pos] = static_cast<char>(static_cast<std::uint8_t>(popularity.rating));
             writePlayCounter(m_data.get() + pos + playCounterSize, playCounterSize, popularity.playCounter);
 
         } else {
-- 
2.43.0


From 3391b73d6885f3a996de1d9f6a3e904fe0fb796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:16 +0000
Subject: [PATCH 036/117] fix: avoid truncating frame size of ADTS frames

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 53ad236..88fce67 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -102,7 +102,7 @@ constexpr std::uint8_t AdtsFrame::mpeg4ChannelConfig() const
  */
 constexpr std::uint16_t AdtsFrame::totalSize() const
 {
-    return static_cast<std::uint8_t>((m_header2 >> 0x1D) & 0x1FFFu);
+    return static_cast<std::uint16_t>((m_header2 >> 0x1D) & 0x1FFFu);
 }
 
 /*!
-- 
2.43.0


From dec8925f25f9cee3d9656163224e8cf841b4324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:16 +0000
Subject: [PATCH 037/117] fix: update file size when adding ID3v1 tag in-place
 and preserve data before unsupported signatures

---
 mediafileinfo.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 4ba7d37..eba18b5 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -296,10 +296,18 @@ startParsingSignature:
         }
     }
 
-    // do not treat skipped bytes as junk if no known format has been found
-    if (m_containerFormat == ContainerFormat::Unknown || m_containerFormat == ContainerFormat::Id3v2Tag
-        || m_containerFormat == ContainerFormat::ApeTag) {
-        m_containerOffset = id3v2Size;
+    // do not treat skipped bytes as junk unless a supported format has been found
+    switch (m_containerFormat) {
+    case ContainerFormat::Adts:
+    case ContainerFormat::Flac:
+    case ContainerFormat::Ivf:
+    case ContainerFormat::MpegAudioFrames:
+    case ContainerFormat::RiffWave:
+        break;
+    default:
+        if (!m_container) {
+            m_containerOffset = id3v2Size;
+        }
     }
 
     if (bytesSkippedBeforeContainer) {
@@ -1712,6 +1720,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
             // prevent deferring final write operations (to catch and handle possible errors here)
             stream().flush();
+            // report new size
+            stream().seekp(0, ios_base::end);
+            reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
         }
         return;
     }
-- 
2.43.0


From e41abe2c41dcffbbf662cd8854b2cf085447fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:32 +0000
Subject: [PATCH 038/117] fix: avoid setting genre of ID3v1 tag to Blues when
 assigned value is not supported

---
 id3/id3v1tag.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 7f6018b..9222155 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -1,4 +1,5 @@
 #include "./id3v1tag.h"
+#include "./id3genres.h"
 
 #include "../diagnostics.h"
 #include "../exceptions.h"
@@ -109,7 +110,7 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
     // set "default" values for numeric fields
     buffer[0] = 0x0; // empty byte
     buffer[1] = 0x0; // track number
-    buffer[2] = 0x0; // genre
+    buffer[2] = static_cast<char>(Id3Genres::emptyGenreIndex()); // genre
 
     // write track
     if (!m_trackPos.isEmpty()) {
-- 
2.43.0


From d7f41d9e7ef479d051d7e6471d77a4b2df502865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 039/117] fix: write genre index in encoding of ID3v2 text
 frame

---
 id3/id3v2frame.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index f486f57..590dd25 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -761,7 +761,8 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
                     if ((value->type() == TagDataType::StandardGenreIndex)
                         && ((version >= 3 && m_frameId == Id3v2FrameIds::lGenre) || (version < 3 && m_frameId == Id3v2FrameIds::sGenre))) {
                         // make standard genere index
-                        substrings.emplace_back(numberToString(value->toStandardGenreIndex()));
+                        substrings.emplace_back(
+                            TagValue(numberToString(value->toStandardGenreIndex()), TagTextEncoding::Latin1).toString(encoding));
 
                     } else {
                         // make other text frame
-- 
2.43.0


From 431754bc3e56d109a048ffe380897a27930caf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:50 +0000
Subject: [PATCH 040/117] fix: read image format of ID3v2.2 pictures

---
 id3/id3v2frame.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 590dd25..765211e 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1136,6 +1136,16 @@ void Id3v2Frame::parseLegacyPicture(const char *buffer, std::size_t maxSize, Tag
     }
     const char *end = buffer + maxSize;
     auto dataEncoding = parseTextEncodingByte(static_cast<std::uint8_t>(*buffer), diag); // the first byte stores the encoding
+    const auto imageFormat = std::string_view(buffer + 1, 3);
+    if (imageFormat == "JPG") {
+        tagValue.setMimeType("image/jpeg");
+    } else if (imageFormat == "PNG") {
+        tagValue.setMimeType("image/png");
+    } else if (imageFormat == "GIF") {
+        tagValue.setMimeType("image/gif");
+    } else if (imageFormat == "-->") {
+        tagValue.setMimeType(imageFormat);
+    }
     typeInfo = static_cast<unsigned char>(*(buffer + 4));
     auto substr = parseSubstring(buffer + 5, static_cast<size_t>(end - 5 - buffer), dataEncoding, true, diag);
     tagValue.setDescription(string(get<0>(substr), get<1>(substr)), dataEncoding);
-- 
2.43.0


From 81bb2b9c662aa93fb73fbc6387a845320e341f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 041/117] fix: use UTF-8 when writing vendor and picture
 descriptions of Vorbis comments

---
 flac/flacmetadata.cpp         | 9 ++++++++-
 vorbis/vorbiscomment.cpp      | 2 +-
 vorbis/vorbiscommentfield.cpp | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/flac/flacmetadata.cpp b/flac/flacmetadata.cpp
index b212a63..93c5f40 100644
--- a/flac/flacmetadata.cpp
+++ b/flac/flacmetadata.cpp
@@ -4,6 +4,7 @@
 #include "../tagvalue.h"
 
 #include <c++utilities/conversion/binaryconversion.h>
+#include <c++utilities/conversion/conversionexception.h>
 #include <c++utilities/io/binaryreader.h>
 #include <c++utilities/io/binarywriter.h>
 #include <c++utilities/io/bitreader.h>
@@ -90,7 +91,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     m_value.setMimeType(reader.readString(size));
     size = reader.readUInt32BE();
     CHECK_MAX_SIZE(size);
-    m_value.setDescription(reader.readString(size));
+    m_value.setDescription(reader.readString(size), TagTextEncoding::Utf8);
     // skip width, height, color depth, number of colors used
     inputStream.seekg(4 * 4, ios_base::cur);
     size = reader.readUInt32BE();
@@ -111,6 +112,12 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
  */
 std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
 {
+    // ensure the description is written as UTF-8 (as required by the specification)
+    try {
+        m_value.convertDescriptionEncoding(TagTextEncoding::Utf8);
+    } catch (const ConversionException &) {
+        throw InvalidDataException();
+    }
     const auto requiredSize(32 + m_value.mimeType().size() + m_value.description().size() + m_value.dataSize());
     if (requiredSize > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 40dd5fb..f6167eb 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -393,7 +393,7 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
     static const string context("making Vorbis comment");
     string vendor;
     try {
-        m_vendor.toString(vendor);
+        m_vendor.toString(vendor, TagTextEncoding::Utf8);
     } catch (const ConversionException &) {
         diag.emplace_back(DiagLevel::Warning, "Can not convert the assigned vendor to string.", context);
     }
diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index aebc010..dd93547 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -75,7 +75,7 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
             } else if (id() == VorbisCommentIds::cover()) {
                 // extract cover value
                 try {
-                    auto decoded = decodeBase64(data.get() + idSize + 1, size - idSize - 1);
+                    auto decoded = idSize < size ? decodeBase64(data.get() + idSize + 1, size - idSize - 1) : decodeBase64(nullptr, 0);
                     stringstream bufferStream(ios_base::in | ios_base::out | ios_base::binary);
                     bufferStream.exceptions(ios_base::failbit | ios_base::badbit);
 #if defined(__GLIBCXX__) && !defined(_LIBCPP_VERSION)
-- 
2.43.0


From 47eeb9f9f778073d1e6f8b103d356cb06728f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 042/117] fix: preserve data types and values of MP4 tag fields
 when assigning and writing values

---
 mp4/mp4tag.cpp      |  58 ++++++++------
 mp4/mp4tagfield.cpp | 181 ++++++++++++++++++++++++++++++++------------
 mp4/mp4tagfield.h   |   4 +-
 3 files changed, 169 insertions(+), 74 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index eb230b6..9de8fbd 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -85,15 +85,15 @@ const TagValue &Mp4Tag::value(KnownField field) const
 std::vector<const TagValue *> Mp4Tag::values(KnownField field) const
 {
     auto values = FieldMapBasedTag<Mp4Tag>::values(field);
-    if (const auto extendedId = Mp4ExtendedFieldId(field)) {
+    if (field == KnownField::Genre && values.empty()) {
+        return FieldMapBasedTag<Mp4Tag>::values(Mp4TagAtomIds::PreDefinedGenre);
+    }
+    if (const auto extendedId = Mp4ExtendedFieldId(field); extendedId && (!extendedId.updateOnly || values.empty())) {
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
         for (auto i = range.first; i != range.second; ++i) {
             const auto &extendedField = i->second;
             if (extendedId.matches(extendedField)) {
-                values.emplace_back(&extendedField.value());
-                for (const auto &additionalData : extendedField.additionalData()) {
-                    values.emplace_back(&additionalData.value);
-                }
+                internallyGetValuesFromField(extendedField, values);
             }
         }
     }
@@ -310,33 +310,40 @@ bool Mp4Tag::setValue(KnownField field, const TagValue &value)
 
 bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 {
+    if (field == KnownField::Genre) {
+        // store a single standard genre index as such; otherwise ensure no pre-defined genre is left
+        if (values.size() == 1 && values.front().type() == TagDataType::StandardGenreIndex) {
+            return setValue(field, values.front());
+        }
+        fields().erase(Mp4TagAtomIds::PreDefinedGenre);
+    }
     if (const auto extendedId = Mp4ExtendedFieldId(field)) {
         auto valuesIterator = values.cbegin();
-        auto range = fields().equal_range(Mp4TagAtomIds::Extended);
-        for (; valuesIterator != values.cend() && range.first != range.second;) {
-            if (!valuesIterator->isEmpty()) {
-                auto &extendedField = range.first->second;
-                if (extendedId.matches(extendedField) && (!extendedId.updateOnly || !extendedField.value().isEmpty())) {
-                    extendedField.clearValue();
-                    extendedField.setValue(*valuesIterator);
-                    // note: Not sure which extended tag fields support multiple data atoms and which don't. Let's simply use
-                    //       only one data atom per extended field here and get rid of any possibly assigned additional data
-                    //       atoms.
-                    ++valuesIterator;
-                }
-                ++range.first;
-            } else {
+        const auto skipEmptyValues = [&] {
+            for (; valuesIterator != values.cend() && valuesIterator->isEmpty(); ++valuesIterator)
+                ;
+        };
+        for (auto range = fields().equal_range(Mp4TagAtomIds::Extended); range.first != range.second; ++range.first) {
+            auto &extendedField = range.first->second;
+            if (!extendedId.matches(extendedField) || (extendedId.updateOnly && extendedField.value().isEmpty())) {
+                continue;
+            }
+            // note: Not sure which extended tag fields support multiple data atoms and which don't. Let's simply use
+            //       only one data atom per extended field here and get rid of any possibly assigned additional data
+            //       atoms.
+            extendedField.clearValue();
+            skipEmptyValues();
+            if (valuesIterator != values.cend()) {
+                extendedField.setValue(*valuesIterator);
                 ++valuesIterator;
             }
         }
-        for (; valuesIterator != values.cend(); ++valuesIterator) {
-            if (valuesIterator->isEmpty()) {
+        if (!extendedId.updateOnly) {
+            for (skipEmptyValues(); valuesIterator != values.cend(); ++valuesIterator, skipEmptyValues()) {
                 fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
                     std::forward_as_tuple(extendedId.mean, extendedId.name, *valuesIterator));
             }
-        }
-        for (; range.first != range.second; ++range.first) {
-            range.first->second.clearValue();
+            return true;
         }
     }
     return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
@@ -367,6 +374,9 @@ bool Mp4Tag::hasField(KnownField field) const
     switch (field) {
     case KnownField::Genre:
         return FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::PreDefinedGenre) || FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::Genre);
+    case KnownField::EncoderSettings:
+    case KnownField::RecordLabel:
+        return !values(field).empty();
     default:
         return FieldMapBasedTag<Mp4Tag>::hasField(field);
     }
diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index bffd89b..3a8d288 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -12,6 +12,7 @@
 #include <algorithm>
 #include <limits>
 #include <memory>
+#include <optional>
 
 using namespace std;
 using namespace CppUtilities;
@@ -89,6 +90,47 @@ static bool assignSpecialInteger(const Mp4Atom &ilstChild, int source, TagValue
     }
     return false;
 }
+
+static void readRawData(Mp4Atom &dataAtom, BinaryReader &reader, TagValue &dest, TagDataType type = TagDataType::Undefined)
+{
+    const auto size = static_cast<std::size_t>(dataAtom.dataSize() - 8);
+    auto data = make_unique<char[]>(size);
+    reader.read(data.get(), static_cast<std::streamsize>(size));
+    dest.assignData(std::move(data), size, type);
+}
+
+/*!
+ * \brief Returns whether \a value can be stored using the specified \a rawDataType.
+ */
+static bool isRawDataTypeApplicable(std::uint32_t rawDataType, std::uint32_t fieldId, const TagValue &value)
+{
+    const auto &mimeType = value.mimeType();
+    switch (rawDataType) {
+    case RawDataType::Reserved:
+        switch (fieldId) {
+        case Mp4TagAtomIds::TrackPosition:
+        case Mp4TagAtomIds::DiskPosition:
+        case Mp4TagAtomIds::PreDefinedGenre:
+            return true;
+        default:
+            return value.type() == TagDataType::Binary || value.type() == TagDataType::Undefined
+                || (value.type() == TagDataType::Picture && mimeType.empty());
+        }
+    case RawDataType::Utf8:
+    case RawDataType::Utf16:
+        return value.type() != TagDataType::Picture && value.type() != TagDataType::Binary && value.type() != TagDataType::Undefined;
+    case RawDataType::Gif:
+        return mimeType.empty() || mimeType == "image/gif";
+    case RawDataType::Jpeg:
+        return mimeType.empty() || mimeType == "image/jpeg" || mimeType == "image/jpg";
+    case RawDataType::Png:
+        return mimeType.empty() || mimeType == "image/png";
+    case RawDataType::Bmp:
+        return mimeType.empty() || mimeType == "image/bmp";
+    default:
+        return true;
+    }
+}
 /// \endcond
 
 /*!
@@ -144,10 +186,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     diag.emplace_back(DiagLevel::Warning,
                         "The version indicator byte is not zero, the tag atom might be unsupported and hence not be parsed correctly.", context);
                 }
-                setTypeInfo(*rawDataType = reader.readUInt24BE());
+                *rawDataType = reader.readUInt24BE();
+                if (dataAtomFound == 1) {
+                    setTypeInfo(*rawDataType);
+                }
                 try { // try to show warning if parsed raw data type differs from expected raw data type for this atom id
                     const vector<std::uint32_t> expectedRawDataTypes = this->expectedRawDataTypes();
-                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), m_parsedRawDataType) == expectedRawDataTypes.cend()) {
+                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), *rawDataType) == expectedRawDataTypes.cend()) {
                         diag.emplace_back(DiagLevel::Warning, "Unexpected data type indicator found.", context);
                     }
                 } catch (const Failure &) {
@@ -160,13 +205,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                 case RawDataType::Utf16:
                     stream.seekg(static_cast<streamoff>(dataAtom->dataOffset() + 8));
                     val->assignText(reader.readString(dataAtom->dataSize() - 8),
-                        (m_parsedRawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
+                        (*rawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
                     break;
                 case RawDataType::Gif:
                 case RawDataType::Jpeg:
                 case RawDataType::Png:
                 case RawDataType::Bmp: {
-                    switch (m_parsedRawDataType) {
+                    switch (*rawDataType) {
                     case RawDataType::Gif:
                         val->setMimeType("image/gif");
                         break;
@@ -188,38 +233,63 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     break;
                 }
                 case RawDataType::BeSignedInt: {
-                    auto number = int();
-                    if (dataAtom->dataSize() > (8 + 4)) {
-                        diag.emplace_back(DiagLevel::Warning, "Data atom stores integer of invalid size. Trying to read data anyway.", context);
-                    }
-                    if (dataAtom->dataSize() >= (8 + 4)) {
-                        number = reader.readInt32BE();
-                    } else if (dataAtom->dataSize() == (8 + 2)) {
+                    auto number = std::int64_t();
+                    switch (dataAtom->dataSize() - 8) {
+                    case 1:
+                        number = static_cast<std::int8_t>(reader.readByte());
+                        break;
+                    case 2:
                         number = reader.readInt16BE();
-                    } else if (dataAtom->dataSize() == (8 + 1)) {
-                        number = reader.readChar();
+                        break;
+                    case 3:
+                        number = static_cast<std::int32_t>(reader.readUInt24BE() << 8) / 0x100;
+                        break;
+                    case 4:
+                        number = reader.readInt32BE();
+                        break;
+                    case 8:
+                        number = reader.readInt64BE();
+                        break;
+                    default:
+                        diag.emplace_back(DiagLevel::Warning, "Data atom stores integer of invalid size. It will be treated as binary data.", context);
+                        readRawData(*dataAtom, reader, *val);
+                        continue;
                     }
-                    if (!assignSpecialInteger(ilstChild, number, *val)) {
-                        val->assignInteger(number);
+                    if (number > std::numeric_limits<std::int32_t>::max()) {
+                        val->assignUnsignedInteger(static_cast<std::uint64_t>(number));
+                    } else if (number < std::numeric_limits<std::int32_t>::min()) {
+                        stream.seekg(static_cast<streamoff>(dataAtom->dataOffset() + 8));
+                        readRawData(*dataAtom, reader, *val);
+                    } else if (!assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
+                        val->assignInteger(static_cast<int>(number));
                     }
                     break;
                 }
                 case RawDataType::BeUnsignedInt: {
                     auto number = std::uint64_t();
-                    if (dataAtom->dataSize() > (8 + 8)) {
-                        diag.emplace_back(DiagLevel::Warning, "Data atom stores integer of invalid size. Trying to read data anyway.", context);
-                    }
-                    if (dataAtom->dataSize() >= (8 + 8)) {
-                        number = reader.readUInt64BE();
-                    } else if (dataAtom->dataSize() >= (8 + 4)) {
-                        number = reader.readUInt32BE();
-                    } else if (dataAtom->dataSize() == (8 + 2)) {
-                        number = reader.readUInt16BE();
-                    } else if (dataAtom->dataSize() == (8 + 1)) {
+                    switch (dataAtom->dataSize() - 8) {
+                    case 1:
                         number = reader.readByte();
+                        break;
+                    case 2:
+                        number = reader.readUInt16BE();
+                        break;
+                    case 3:
+                        number = reader.readUInt24BE();
+                        break;
+                    case 4:
+                        number = reader.readUInt32BE();
+                        break;
+                    case 8:
+                        number = reader.readUInt64BE();
+                        break;
+                    default:
+                        diag.emplace_back(DiagLevel::Warning, "Data atom stores integer of invalid size. It will be treated as binary data.", context);
+                        readRawData(*dataAtom, reader, *val);
+                        continue;
                     }
-                    if (number <= static_cast<std::uint64_t>(std::numeric_limits<int>::max())
-                        && !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
+                    if (number > static_cast<std::uint64_t>(std::numeric_limits<int>::max())
+                        || !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
                         val->assignUnsignedInteger(number);
                     }
                     break;
@@ -251,18 +321,11 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                         }
                         break;
                     default: // no supported data type, read raw data
-                        const auto dataSize = static_cast<streamsize>(dataAtom->dataSize() - 8);
-                        auto data = make_unique<char[]>(static_cast<size_t>(dataSize));
-                        stream.read(data.get(), dataSize);
-                        if (ilstChild.id() == Mp4TagAtomIds::Cover) {
-                            val->assignData(std::move(data), static_cast<size_t>(dataSize), TagDataType::Picture);
-                        } else {
-                            val->assignData(std::move(data), static_cast<size_t>(dataSize), TagDataType::Undefined);
-                        }
+                        readRawData(*dataAtom, reader, *val, ilstChild.id() == Mp4TagAtomIds::Cover ? TagDataType::Picture : TagDataType::Undefined);
                     }
                 }
             } else if (dataAtom->id() == Mp4AtomIds::Mean) {
-                if (dataAtom->dataSize() < 8) {
+                if (dataAtom->dataSize() < 4) {
                     diag.emplace_back(DiagLevel::Warning,
                         "Truncated child atom \"mean\" in tag atom (ilst child) found. It will be ignored and discarded when applying changes.",
                         context);
@@ -453,10 +516,10 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
         default:;
         }
         break;
+    case PreDefinedGenre:
     case TrackPosition:
     case DiskPosition:
         return RawDataType::Reserved;
-    case PreDefinedGenre:
     case Bpm:
     case Rating:
     case Mp4TagAtomIds::MediaType:
@@ -469,6 +532,8 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
             return RawDataType::Png;
         } else if (mimeType == "image/bmp") {
             return RawDataType::Bmp;
+        } else if (mimeType == "image/gif") {
+            return RawDataType::Gif;
         }
     } break;
     case Extended:
@@ -549,9 +614,11 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
     m_totalSize = 8 + (m_field.name().empty() ? 0 : (12 + m_field.name().size())) + (m_field.mean().empty() ? 0 : (12 + m_field.mean().size()));
 
     // prepare making data atom and calculate the expected size
-    m_totalSize += prepareDataAtom(field.value(), field.countryIndicator(), field.languageIndicator(), context, diag);
+    m_totalSize += prepareDataAtom(field.value(), m_field.isTypeInfoAssigned() ? std::make_optional(m_field.typeInfo()) : std::nullopt,
+        field.countryIndicator(), field.languageIndicator(), context, diag);
     for (const auto &additionalData : m_field.additionalData()) {
-        m_totalSize += prepareDataAtom(additionalData.value, additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
+        m_totalSize += prepareDataAtom(additionalData.value, additionalData.rawDataType, additionalData.countryIndicator,
+            additionalData.languageIndicator, context, diag);
     }
 
     if (m_totalSize > numeric_limits<std::uint32_t>::max()) {
@@ -564,6 +631,9 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
 static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue> fieldId, const TagValue &value, CppUtilities::BinaryWriter &writer)
 {
     switch (fieldId) {
+    case Mp4TagAtomIds::PreDefinedGenre:
+        writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1));
+        return true;
     case Mp4TagAtomIds::MediaType:
         if (value.type() == TagDataType::Text) {
             if (const auto id = mp4TagMediaTypeId(value.toString(TagTextEncoding::Utf8)); id.has_value()) {
@@ -590,7 +660,8 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
  * \brief Prepares making a data atom for the specified \a value.
  */
 std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
-    const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
+    const TagValue &value, std::optional<std::uint32_t> rawDataType, std::uint16_t countryIndicator, std::uint16_t languageIndicator,
+    const std::string &context, Diagnostics &diag)
 {
     // add new data entry
     auto &data = m_data.emplace_back();
@@ -603,7 +674,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
 
     try {
         // try to use appropriate raw data type
-        data.rawType = m_field.isTypeInfoAssigned() ? m_field.typeInfo() : m_field.appropriateRawDataTypeForValue(value);
+        data.rawType
+            = rawDataType && isRawDataTypeApplicable(*rawDataType, m_field.id(), value) ? *rawDataType : m_field.appropriateRawDataTypeForValue(value);
     } catch (const Failure &) {
         // unable to obtain appropriate raw data type
         if (m_field.id() == Mp4TagAtomIds::Cover) {
@@ -628,14 +700,24 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 }
                 break;
             case RawDataType::Utf16:
-                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16LittleEndian) {
-                    m_writer.writeString(value.toString(TagTextEncoding::Utf16LittleEndian));
+                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16BigEndian) {
+                    m_writer.writeString(value.toString(TagTextEncoding::Utf16BigEndian));
                 }
                 break;
             case RawDataType::BeSignedInt: {
                 if (writeSpecialInteger(m_field.id(), value, m_writer)) {
                     break;
                 }
+                if (value.type() == TagDataType::Undefined || value.type() == TagDataType::Binary) {
+                    break; // leave converted data empty to write original data later
+                }
+                if (value.type() == TagDataType::UnsignedInteger) {
+                    if (const auto unsignedNumber = value.toUnsignedInteger();
+                        unsignedNumber > static_cast<std::uint64_t>(numeric_limits<std::int32_t>::max())) {
+                        m_writer.writeUInt64BE(unsignedNumber);
+                        break;
+                    }
+                }
                 const auto number = value.toInteger();
                 if (number <= numeric_limits<std::int16_t>::max() && number >= numeric_limits<std::int16_t>::min()) {
                     m_writer.writeInt16BE(static_cast<std::int16_t>(number));
@@ -648,6 +730,9 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 if (writeSpecialInteger(m_field.id(), value, m_writer)) {
                     break;
                 }
+                if (value.type() == TagDataType::Undefined || value.type() == TagDataType::Binary) {
+                    break; // leave converted data empty to write original data later
+                }
                 const auto number = value.toUnsignedInteger();
                 if (number <= numeric_limits<std::uint16_t>::max()) {
                     m_writer.writeUInt16BE(static_cast<std::uint16_t>(number));
@@ -669,9 +754,10 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 case Mp4TagAtomIds::TrackPosition:
                 case Mp4TagAtomIds::DiskPosition: {
                     PositionInSet pos = value.toPositionInSet();
-                    m_writer.writeInt32BE(pos.position());
-                    if (pos.total() <= numeric_limits<std::int16_t>::max()) {
-                        m_writer.writeInt16BE(static_cast<std::int16_t>(pos.total()));
+                    constexpr auto max = static_cast<std::int32_t>(numeric_limits<std::uint16_t>::max());
+                    if (pos.position() >= 0 && pos.position() <= max && pos.total() >= 0 && pos.total() <= max) {
+                        m_writer.writeInt32BE(pos.position());
+                        m_writer.writeUInt16BE(static_cast<std::uint16_t>(pos.total()));
                     } else {
                         throw ConversionException(
                             "Integer can not be assigned to the field with the id \"" % interpretIntegerAsString<std::uint32_t>(m_field.id())
@@ -680,9 +766,6 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                     m_writer.writeUInt16BE(0);
                     break;
                 }
-                case Mp4TagAtomIds::PreDefinedGenre:
-                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex()));
-                    break;
                 default:
                     if (writeSpecialInteger(m_field.id(), value, m_writer)) {
                         break;
diff --git a/mp4/mp4tagfield.h b/mp4/mp4tagfield.h
index a491763..f33d3ac 100644
--- a/mp4/mp4tagfield.h
+++ b/mp4/mp4tagfield.h
@@ -7,6 +7,7 @@
 #include <c++utilities/io/binarywriter.h>
 
 #include <cstdint>
+#include <optional>
 #include <sstream>
 #include <vector>
 
@@ -85,7 +86,8 @@ private:
 
     Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag);
     std::uint64_t prepareDataAtom(
-        const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
+        const TagValue &value, std::optional<std::uint32_t> rawDataType, std::uint16_t countryIndicator, std::uint16_t languageIndicator,
+        const std::string &context, Diagnostics &diag);
 
     Mp4TagField &m_field;
     CppUtilities::BinaryWriter m_writer;
-- 
2.43.0


From 1be363db48b5766106d7e9fb851d912c57fc95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:37 +0000
Subject: [PATCH 043/117] fix: preserve rating, default flag and nested-only
 fields of Matroska tags and recognize genre

---
 matroska/matroskatag.cpp      |  3 ++-
 matroska/matroskatagfield.cpp | 35 +++++++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index 1c3c20f..4b02a50 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -218,6 +218,7 @@ KnownField MatroskaTag::internallyGetKnownField(const IdentifierType &id) const
         { dateRecorded(), KnownField::RecordDate },
         { dateRelease(), KnownField::ReleaseDate },
         { title(), KnownField::Title },
+        { genre(), KnownField::Genre },
         { partNumber(), KnownField::PartNumber },
         { totalParts(), KnownField::TotalParts },
         { encoder(), KnownField::Encoder },
@@ -460,7 +461,7 @@ MatroskaTagMaker::MatroskaTagMaker(MatroskaTag &tag, Diagnostics &diag)
     m_maker.reserve(m_tag.fields().size());
     m_simpleTagsSize = 0; // including ID and size
     for (auto &pair : m_tag.fields()) {
-        if (pair.second.value().isNull()) {
+        if (pair.second.value().isNull() && pair.second.nestedFields().empty()) {
             continue;
         }
         try {
diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 451a39c..f38054c 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -5,6 +5,7 @@
 
 #include "../exceptions.h"
 
+#include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/binarywriter.h>
 
 #include <memory>
@@ -137,14 +138,19 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
                     "\"SimpleTag\"-element contains unknown element ", child->idToString(), " at ", child->startOffset(), ". It will be ignored."),
                 context);
         }
+    }
 
-        // set rating as Popularity to preserve the scale information
-        if (id() == MatroskaTagIds::rating()) {
-            try {
-                value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
-            } catch (const ConversionException &) {
-                diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
-            }
+    // assume the default value for "TagDefault" if the element is absent
+    if (!tagDefaultFound) {
+        setDefault(true);
+    }
+
+    // set rating as Popularity to preserve the scale information
+    if (id() == MatroskaTagIds::rating() && value().type() == TagDataType::Text && !value().isEmpty()) {
+        try {
+            value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
+        } catch (const ConversionException &) {
+            diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
         }
     }
 }
@@ -218,7 +224,12 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
 {
     try {
         if (m_field.value().type() == TagDataType::Popularity) {
-            m_stringValue = m_field.value().toScaledPopularity(TagType::MatroskaTag).toString();
+            // note: A rating of zero means "no rating" on the generic scale but is the lowest rating on the scale used by Matroska.
+            const auto popularity = m_field.value().toPopularity();
+            const auto scaled = m_field.value().toScaledPopularity(TagType::MatroskaTag);
+            if (!popularity.isEmpty() || popularity.scale == TagType::MatroskaTag) {
+                m_stringValue = scaled.isEmpty() ? numberToString(scaled.rating) : scaled.toString();
+            }
         } else {
             m_stringValue = m_field.value().toString(TagTextEncoding::Utf8);
         }
@@ -238,7 +249,9 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         = m_languageIETF.empty() ? 0 : (2 + EbmlElement::calculateSizeDenotationLength(m_languageIETF.size()) + m_languageIETF.size());
 
     // compute size of "TagString"/"TagBinary" element's data
+    // note: The element is omitted if the field has no value (but e.g. only nested fields).
     const auto valueSize = m_isBinary ? m_field.value().dataSize() : m_stringValue.size();
+    const auto valueElementSize = m_field.value().isNull() ? 0 : 2 + EbmlElement::calculateSizeDenotationLength(valueSize) + valueSize;
 
     // compute "SimpleTag" element size
     m_simpleTagSize =
@@ -252,7 +265,7 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         + 2 + 1
         + 1
         // "TagString"/"TagBinary" element
-        + 2 + EbmlElement::calculateSizeDenotationLength(valueSize) + valueSize;
+        + valueElementSize;
 
     // compute size of nested tags
     for (auto &nestedField : field.nestedFields()) {
@@ -304,7 +317,9 @@ void MatroskaTagFieldMaker::make(ostream &stream) const
     stream.put(static_cast<ostream::char_type>(0x80 | 1));
     stream.put(m_field.isDefault() ? 1 : 0);
     // write "TagString"/"TagBinary" element
-    if (m_isBinary) {
+    if (m_field.value().isNull()) {
+        // omit the element if there's no value
+    } else if (m_isBinary) {
         writer.writeUInt16BE(MatroskaIds::TagBinary);
         sizeDenotationLen = EbmlElement::makeSizeDenotation(m_field.value().dataSize(), buff);
         stream.write(buff, sizeDenotationLen);
-- 
2.43.0


From 75a8669d7dcff5a8f1213d6cc129ffb1518f3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 044/117] fix: preserve attachments, tags and chapters behind
 the clusters of Matroska files

---
 matroska/matroskacontainer.cpp | 52 +++++++++++++++++++++++++++++-----
 matroska/matroskacontainer.h   |  1 +
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 711c126..f2b6503 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -413,7 +413,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
     m_tagsElements.clear();
     m_seekInfos.clear();
     m_segmentCount = 0;
-    std::uint64_t currentOffset = 0;
     vector<MatroskaSeekInfo>::difference_type seekInfosIndex = 0;
 
     // loop through all top level elements
@@ -504,11 +503,11 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                             }
                             break;
                         case MatroskaIds::Cluster:
-                            // stop as soon as the first cluster has been reached if all relevant information has been gathered
+                            // stop as soon as the first cluster has been reached if the file is not supposed to be fully processed
                             // -> take elements from seek tables within this segment into account
                             for (auto i = m_seekInfos.cbegin() + seekInfosIndex, end = m_seekInfos.cend(); i != end; ++i, ++seekInfosIndex) {
                                 for (const auto &infoPair : (*i)->info()) {
-                                    std::uint64_t offset = currentOffset + topLevelElement->dataOffset() + infoPair.second;
+                                    std::uint64_t offset = topLevelElement->dataOffset() + infoPair.second;
                                     if (offset >= fileInfo().size()) {
                                         diag.emplace_back(DiagLevel::Critical,
                                             argsToString("Offset (", offset, ") denoted by \"SeekHead\" element is invalid."), context);
@@ -563,9 +562,8 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                                     }
                                 }
                             }
-                            // -> stop if tracks and tags have been found or the file exceeds the max. size to fully process
-                            if (((!m_tracksElements.empty() && !m_tagsElements.empty()) || fileInfo().size() > fileInfo().maxFullParseSize())
-                                && !m_segmentInfoElements.empty()) {
+                            // -> stop if the file exceeds the max. size to fully process (as there might be further elements after the clusters)
+                            if (fileInfo().size() > fileInfo().maxFullParseSize() && !m_segmentInfoElements.empty()) {
                                 goto finish;
                             }
                             break;
@@ -575,7 +573,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                         break;
                     }
                 }
-                currentOffset += topLevelElement->totalSize();
                 break;
             default:;
             }
@@ -896,6 +893,44 @@ static std::uint32_t computeEbmlCrc32(std::istream &stream, std::uint64_t size,
     return static_cast<std::uint32_t>(checksum);
 }
 
+/*!
+ * \brief Parses "Tags"- and "Attachments"-elements which have not been considered when parsing the header (because
+ *        the file exceeds MediaFileInfo::maxFullParseSize() and those elements are not denoted by a "SeekHead").
+ * \remarks This is required when making a file because those elements would be lost otherwise.
+ */
+void MatroskaContainer::parseRemainingElements(Diagnostics &diag, AbortableProgressFeedback &progress)
+{
+    auto tagsElements = std::vector<EbmlElement *>(), attachmentsElements = std::vector<EbmlElement *>();
+    try {
+        for (EbmlElement *level0Element = firstElement(); level0Element; level0Element = level0Element->nextSibling()) {
+            level0Element->parse(diag);
+            if (level0Element->id() != MatroskaIds::Segment) {
+                continue;
+            }
+            for (EbmlElement *level1Element = level0Element->firstChild(); level1Element; level1Element = level1Element->nextSibling()) {
+                level1Element->parse(diag);
+                if (level1Element->id() == MatroskaIds::Tags && excludesOffset(m_tagsElements, level1Element->startOffset())) {
+                    tagsElements.emplace_back(level1Element);
+                } else if (level1Element->id() == MatroskaIds::Attachments && excludesOffset(m_attachmentsElements, level1Element->startOffset())) {
+                    attachmentsElements.emplace_back(level1Element);
+                }
+            }
+        }
+    } catch (const Failure &) {
+        // parsing errors are handled when going through the elements again to determine the layout of the new file
+    }
+    if (!tagsElements.empty()) {
+        tagsElements.swap(m_tagsElements);
+        internalParseTags(diag, progress);
+        m_tagsElements.insert(m_tagsElements.begin(), tagsElements.begin(), tagsElements.end());
+    }
+    if (!attachmentsElements.empty()) {
+        attachmentsElements.swap(m_attachmentsElements);
+        internalParseAttachments(diag, progress);
+        m_attachmentsElements.insert(m_attachmentsElements.begin(), attachmentsElements.begin(), attachmentsElements.end());
+    }
+}
+
 void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("making Matroska container");
@@ -915,6 +950,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         throw InvalidDataException();
     }
 
+    // take all tags and attachments into account
+    parseRemainingElements(diag, progress);
+
     // define variables for parsing the elements of the original file
     EbmlElement *level0Element = firstElement();
     if (!level0Element) {
diff --git a/matroska/matroskacontainer.h b/matroska/matroskacontainer.h
index c1c0987..66e464e 100644
--- a/matroska/matroskacontainer.h
+++ b/matroska/matroskacontainer.h
@@ -57,6 +57,7 @@ protected:
 private:
     void parseSegmentInfo(Diagnostics &diag);
     void readTrackStatisticsFromTags(Diagnostics &diag);
+    void parseRemainingElements(Diagnostics &diag, AbortableProgressFeedback &progress);
 
     std::uint64_t m_maxIdLength;
     std::uint64_t m_maxSizeLength;
-- 
2.43.0


From 23acdda06b1eddd238a962f6bdfa730c6cbe21c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:45 +0000
Subject: [PATCH 045/117] fix: preserve unknown genre numbers of ID3v1 tags

---
 id3/id3v1tag.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 9222155..168a7ec 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -128,7 +128,9 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
 
     // write genre
     try {
-        const auto genreIndex(m_genre.toStandardGenreIndex());
+        // note: An index read from an existing tag is preserved even if the genre is not known.
+        const auto genreIndex = !m_genre.isEmpty() && m_genre.type() == TagDataType::StandardGenreIndex ? m_genre.toInteger()
+                                                                                                      : m_genre.toStandardGenreIndex();
         if (genreIndex < 0x00 || genreIndex > 0xFF) {
             throw ConversionException();
         }
-- 
2.43.0


From 86fc946609d2126eb3b4eb334e1e163d51272bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:23 +0000
Subject: [PATCH 046/117] fix: avoid leaving a half-written file behind when
 aborting in-place updates of Matroska and MP4 files

---
 matroska/matroskacontainer.cpp | 10 +++++++---
 mp4/mp4container.cpp           |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index f2b6503..847bb39 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1869,7 +1869,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     }
                 } else {
                     // can't just skip existing "Cluster"-elements: "Position"-elements must be updated
-                    progress.nextStepOrStop("Updating cluster ...",
+                    // note: Not checking whether the operation has been aborted as the original file could not be restored anymore.
+                    progress.updateStep("Updating cluster ...",
                         static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag)) {
                         for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
@@ -1994,9 +1995,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 fileInfo().reportSizeChanged(newSize);
             }
         }
+        // note: Not aborting anymore if the original file could not be restored because it has been updated in-place.
+        AbortableProgressFeedback nonAbortableProgress;
+        auto &finalProgress = rewriteRequired ? progress : nonAbortableProgress;
         reset();
         try {
-            parseHeader(diag, progress);
+            parseHeader(diag, finalProgress);
         } catch (const OperationAbortedException &) {
             throw;
         } catch (const Failure &) {
@@ -2010,7 +2014,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             for (const auto &crc32Offset : crc32Offsets) {
                 // note: The read and write positions of file streams are not independent.
                 outputStream.seekg(static_cast<streamoff>(get<0>(crc32Offset) + 6));
-                const auto checksum = computeEbmlCrc32(outputStream, get<1>(crc32Offset) - 6, progress);
+                const auto checksum = computeEbmlCrc32(outputStream, get<1>(crc32Offset) - 6, finalProgress);
                 outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2));
                 writer().writeUInt32LE(checksum);
             }
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 79af166..2270b0b 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -883,9 +883,11 @@ calculatePadding:
             }
         }
 
+        // note: Not aborting anymore if the original file could not be restored because it has been updated in-place.
+        AbortableProgressFeedback nonAbortableProgress;
         reset();
         try {
-            parseTracks(diag, progress);
+            parseTracks(diag, rewriteRequired ? progress : nonAbortableProgress);
         } catch (const OperationAbortedException &) {
             throw;
         } catch (const Failure &) {
-- 
2.43.0


From 633a3b11efc6576d6a3dd49a31eb196e9b299c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:58 +0000
Subject: [PATCH 047/117] fix: honour request to abort when updating files
 without container in-place

---
 mediafileinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index eba18b5..f94d283 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1685,6 +1685,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 return;
             }
             progress.updateStep("Removing ID3v1 tag ...");
+            progress.stopIfAborted();
             stream().close();
             auto ec = std::error_code();
             std::filesystem::resize_file(makeNativePath(BasicFileInfo::pathForOpen(path())), size() - 128, ec);
@@ -1699,6 +1700,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // add or update ID3v1 tag
             if (m_fileStructureFlags & MediaFileStructureFlags::ActualExistingId3v1Tag) {
                 progress.updateStep("Updating existing ID3v1 tag ...");
+                progress.stopIfAborted();
                 // ensure the file is still open / not readonly
                 open();
                 stream().seekp(-128, ios_base::end);
@@ -1709,6 +1711,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 }
             } else {
                 progress.updateStep("Adding new ID3v1 tag ...");
+                progress.stopIfAborted();
                 // ensure the file is still open / not readonly
                 open();
                 stream().seekp(0, ios_base::end);
@@ -1794,6 +1797,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
         padding += 4;
     }
     progress.updateStep(rewriteRequired ? "Preparing streams for rewriting ..." : "Preparing streams for updating ...");
+    progress.stopIfAborted();
 
     // setup stream(s) for writing
     // -> define variables needed to handle output stream and backup stream (required when rewriting the file)
-- 
2.43.0


From 8fed1fcdff475b0f9da398249c7f449e5d557e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:30 +0000
Subject: [PATCH 048/117] fix: report abort when copying elements entirely
 instead of truncating the output silently

---
 genericfileelement.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index eef3987..e468716 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -954,6 +954,7 @@ void GenericFileElement<ImplementationType>::copyInternal(
     if (progress) {
         copyHelper.callbackCopy(stream, targetStream, bytesToCopy, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
             std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), std::placeholders::_1));
+        progress->stopIfAborted(); // callbackCopy() just returns early when aborted
     } else {
         copyHelper.copy(stream, targetStream, bytesToCopy);
     }
-- 
2.43.0


From c9e49e9e9947fca283297c16c5f7fd4579593132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:18 +0000
Subject: [PATCH 049/117] fix: avoid missing write errors when closing the
 output file

---
 matroska/matroskacontainer.cpp | 2 ++
 mediafileinfo.cpp              | 2 ++
 mp4/mp4container.cpp           | 2 ++
 ogg/oggcontainer.cpp           | 1 +
 4 files changed, 7 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 847bb39..0b4b10e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1971,6 +1971,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             }
 
             // the outputStream needs to be reopened to be able to read again
+            outputStream.flush(); // ensure write errors are not missed
             outputStream.close();
             outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
@@ -1979,6 +1980,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
                 // -> close stream before truncating
+                outputStream.flush(); // ensure write errors are not missed
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index f94d283..bf43f8e 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1933,12 +1933,14 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
             // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
             // usage anyways because it is write-only
+            outputStream.flush(); // ensure write errors are not missed
             outputStream.close();
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < size()) {
                 // file is smaller after the modification -> truncate
                 // -> prevent deferring final write operations
+                outputStream.flush(); // ensure write errors are not missed
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 2270b0b..5faab52 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -858,6 +858,7 @@ calculatePadding:
                 fileInfo().setSaveFilePath(string());
             }
             // the outputStream needs to be reopened to be able to read again
+            outputStream.flush(); // ensure write errors are not missed
             outputStream.close();
             outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
@@ -866,6 +867,7 @@ calculatePadding:
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
                 // -> close stream before truncating
+                outputStream.flush(); // ensure write errors are not missed
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 559f72f..881681f 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -661,6 +661,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         // close backups stream; reopen new file as readable stream
         auto &stream = fileInfo().stream();
         backupStream.close();
+        stream.flush(); // ensure write errors are not missed
         fileInfo().close();
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
 
-- 
2.43.0


From 81c1f324ba82e05c0aa38762d566415b1e3bb26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:12 +0000
Subject: [PATCH 050/117] fix: detect partial writes of FLAC meta-data and MP4
 tag fields

---
 mediafileinfo.cpp   | 4 +++-
 mp4/mp4tagfield.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index bf43f8e..2e8c06f 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1873,7 +1873,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
 
             // write FLAC metadata
-            outputStream << flacMetaData.rdbuf();
+            // note: Not using operator<< because it does not treat partial writes as error.
+            const auto flacMetaDataBuffer = flacMetaData.str();
+            outputStream.write(flacMetaDataBuffer.data(), static_cast<std::streamsize>(flacMetaDataBuffer.size()));
 
             // write padding
             if (flacPadding) {
diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 3a8d288..01b9f68 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -836,7 +836,9 @@ void Mp4TagFieldMaker::make(ostream &stream)
         m_writer.writeUInt16BE(data.languageIndicator);
         if (data.convertedData.tellp()) {
             // write converted data
-            stream << data.convertedData.rdbuf();
+            // note: Not using operator<< because it does not treat partial writes as error.
+            const auto convertedData = data.convertedData.str();
+            stream.write(convertedData.data(), static_cast<std::streamsize>(convertedData.size()));
         } else {
             // no conversion was needed, write data directly from tag value
             stream.write(data.rawData.data(), static_cast<std::streamoff>(data.rawData.size()));
-- 
2.43.0


From b3eef88ca2e6d40d4dc5f47064fa0c955722d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:55 +0000
Subject: [PATCH 051/117] fix: keep original path and allow re-using the object
 when writing to save path failed

---
 backuphelper.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 3198c9d..a2e4ccf 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -246,6 +246,20 @@ void handleFailureAfterFileModifiedCanonical(MediaFileInfo &fileInfo, const std:
         fileInfo.container()->reset();
     }
 
+    if (backupPath.empty()) {
+        // close the output stream so the file will be re-opened when accessing it again; don't handle any errors anymore at this point
+        outputStream.exceptions(ios_base::goodbit);
+        outputStream.close();
+        outputStream.clear();
+        outputStream.exceptions(ios_base::badbit | ios_base::failbit);
+
+        // revert considering the "save as path" as regular path because it has not been written successfully
+        if (fileInfo.path() != originalPath) {
+            fileInfo.setSaveFilePath(fileInfo.path());
+            fileInfo.reportPathChanged(originalPath);
+        }
+    }
+
     // re-throw the current exception
     try {
         throw;
-- 
2.43.0


From d88eacc4dccac8b23f6e9602b1f750fe33c0c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:00 +0000
Subject: [PATCH 052/117] fix: avoid overwriting dangling symlinks and
 mistaking dots in directories for extensions when creating backups

---
 backuphelper.cpp  |  4 ++--
 basicfileinfo.cpp | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index a2e4ccf..c806b5b 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -142,8 +142,8 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
             }
         }
 
-        // test whether the backup path is still unused; otherwise continue loop
-        if (!std::filesystem::exists(makeNativePath(BasicFileInfo::pathForOpen(backupPath)), ec)) {
+        // test whether the backup path is still unused (considering also dangling symlinks); otherwise continue loop
+        if (!std::filesystem::exists(std::filesystem::symlink_status(makeNativePath(BasicFileInfo::pathForOpen(backupPath)), ec))) {
             break;
         }
     }
diff --git a/basicfileinfo.cpp b/basicfileinfo.cpp
index f9a4991..a2e6b9c 100644
--- a/basicfileinfo.cpp
+++ b/basicfileinfo.cpp
@@ -161,7 +161,8 @@ std::string BasicFileInfo::fileName(std::string_view path, bool cutExtension)
     } else {
         lastSeparator = lastSlash > lastBackSlash ? lastSlash : lastBackSlash;
     }
-    return std::string(lastPoint != string::npos ? path.substr(lastSeparator + 1, lastPoint - lastSeparator - 1) : path.substr(lastSeparator + 1));
+    return std::string(lastPoint != string::npos && lastPoint > lastSeparator ? path.substr(lastSeparator + 1, lastPoint - lastSeparator - 1)
+                                                                              : path.substr(lastSeparator + 1));
 }
 
 /*!
@@ -182,7 +183,8 @@ std::string BasicFileInfo::fileName(bool cutExtension) const
 std::string BasicFileInfo::extension(std::string_view path)
 {
     const auto lastPoint = path.rfind('.');
-    if (lastPoint == std::string::npos) {
+    const auto lastSeparator = path.find_last_of("/\\");
+    if (lastPoint == std::string::npos || (lastSeparator != std::string::npos && lastPoint < lastSeparator)) {
         return std::string();
     } else {
         return std::string(path.data() + lastPoint, path.size() - lastPoint);
@@ -203,7 +205,9 @@ std::string BasicFileInfo::extension() const
 std::string BasicFileInfo::pathWithoutExtension(std::string_view fullPath)
 {
     const auto lastPoint = fullPath.rfind('.');
-    return std::string(lastPoint != std::string::npos ? fullPath.substr(0, lastPoint) : fullPath);
+    const auto lastSeparator = fullPath.find_last_of("/\\");
+    const auto hasExtension = lastPoint != std::string::npos && (lastSeparator == std::string::npos || lastPoint > lastSeparator);
+    return std::string(hasExtension ? fullPath.substr(0, lastPoint) : fullPath);
 }
 
 /*!
-- 
2.43.0


From 799c43feb728d9d3ced50ea03c78f011cf2fd6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:06 +0000
Subject: [PATCH 053/117] fix: keep end-of-stream flag when removing comment
 from the last page of an Ogg stream

---
 ogg/oggcontainer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 881681f..f21ad8a 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -583,12 +583,16 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 auto continuePreviousPacket = currentPage.isContinued();
                 auto isFirstPage = true;
                 auto bytesLeft = packets.empty() ? std::uint32_t() : packets.front().size;
-                for (auto packet = packets.cbegin(), end = packets.cend(); packet != end; isFirstPage = false) {
+                // note: If no packets are left, an empty page is written if the page denotes the end of the logical bitstream.
+                const auto writeEmptyPage = packets.empty() && (page.headerTypeFlag() & 0x04);
+                for (auto packet = packets.cbegin(), end = packets.cend(); packet != end || (writeEmptyPage && isFirstPage); isFirstPage = false) {
                     // compute segment table
                     auto segmentTable = std::array<char, 0xFF>();
                     auto segmentCount = std::size_t();
                     auto dataSize = std::uint32_t();
-                    auto absoluteGranulePosition = std::numeric_limits<std::uint64_t>::max(); // means "no packets finish on this page"
+                    auto absoluteGranulePosition = writeEmptyPage
+                        ? page.absoluteGranulePosition()
+                        : std::numeric_limits<std::uint64_t>::max(); // means "no packets finish on this page"
                     const auto isContinued = continuePreviousPacket;
                     while (packet != end && segmentCount < segmentTable.size()
                         && (continuePreviousPacket || !packet->startsNewPage || !segmentCount)) {
-- 
2.43.0


From 893d7179e3613f86cd962a2137e0e8bf28002887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 054/117] fix: avoid undefined behavior and out-of-bounds reads
 when computing technical information of damaged files

---
 aac/aacframe.cpp                   |  6 +++---
 abstracttrack.h                    | 30 ++++++++++++++++++++++++++++++
 adts/adtsstream.cpp                |  2 +-
 flac/flacstream.cpp                |  2 +-
 ivf/ivfstream.cpp                  |  2 +-
 matroska/matroskacontainer.cpp     |  2 +-
 matroska/matroskatrack.cpp         | 12 ++++++------
 mp4/mp4container.cpp               | 18 ++++++++----------
 mp4/mp4track.cpp                   | 14 +++++++-------
 mpegaudio/mpegaudioframe.cpp       | 13 ++++++++-----
 mpegaudio/mpegaudioframe.h         |  2 +-
 mpegaudio/mpegaudioframestream.cpp | 10 ++++++----
 ogg/oggstream.cpp                  |  4 ++--
 wav/waveaudiostream.cpp            |  8 ++++----
 14 files changed, 79 insertions(+), 46 deletions(-)

diff --git a/aac/aacframe.cpp b/aac/aacframe.cpp
index 62120b0..dd72eee 100644
--- a/aac/aacframe.cpp
+++ b/aac/aacframe.cpp
@@ -1297,12 +1297,12 @@ void AacFrameElementParser::parseSbrChannelPairElement(std::shared_ptr<AacSbrInf
 
 shared_ptr<AacSbrInfo> AacFrameElementParser::makeSbrInfo(std::uint8_t sbrElement, bool isDrm)
 {
-    if (m_mpeg4ExtensionSamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)
-        && m_mpeg4SamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)) {
+    if (m_mpeg4ExtensionSamplingFrequencyIndex >= std::size(mpeg4SamplingFrequencyTable)
+        && m_mpeg4SamplingFrequencyIndex >= std::size(mpeg4SamplingFrequencyTable)) {
         throw InvalidDataException(); // sampling frequency index is invalid
     }
     return make_shared<AacSbrInfo>(m_elementId[sbrElement],
-        m_mpeg4ExtensionSamplingFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)
+        m_mpeg4ExtensionSamplingFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)
             ? mpeg4SamplingFrequencyTable[m_mpeg4ExtensionSamplingFrequencyIndex]
             : mpeg4SamplingFrequencyTable[m_mpeg4SamplingFrequencyIndex] * 2,
         m_frameLength, isDrm);
diff --git a/abstracttrack.h b/abstracttrack.h
index f3bae43..e4fe48b 100644
--- a/abstracttrack.h
+++ b/abstracttrack.h
@@ -41,6 +41,36 @@ enum class TrackType {
     IvfStream, /**< The track is a TagParser::IvfStream. */
 };
 
+/*!
+ * \brief Converts the specified number of \a seconds into a time span.
+ * \returns Returns a null time span if \a seconds is not a positive number or too big to be represented.
+ */
+constexpr CppUtilities::TimeSpan timeSpanFromSeconds(double seconds)
+{
+    return seconds > 0.0 && seconds < 922337203685.0 ? CppUtilities::TimeSpan::fromSeconds(seconds) : CppUtilities::TimeSpan();
+}
+
+/*!
+ * \brief Converts the specified \a value which is specified in units of 1 / \a timeScale seconds into a time span.
+ * \returns Returns a null time span if \a timeScale is zero or the \a value is too big to be represented.
+ */
+constexpr CppUtilities::TimeSpan timeSpanFromTimeScale(std::uint64_t value, std::uint64_t timeScale)
+{
+    return !timeScale                ? CppUtilities::TimeSpan()
+        : value <= 922337203685ul ? CppUtilities::TimeSpan(static_cast<CppUtilities::TimeSpan::TickType>(
+              value * static_cast<std::uint64_t>(CppUtilities::TimeSpan::ticksPerSecond) / timeScale))
+                                  : timeSpanFromSeconds(static_cast<double>(value) / static_cast<double>(timeScale));
+}
+
+/*!
+ * \brief Converts the specified \a value to an integer.
+ * \returns Returns zero if \a value is not a positive number or too big to be represented.
+ */
+constexpr std::uint32_t uint32FromDouble(double value)
+{
+    return value > 0.0 && value < 4294967296.0 ? static_cast<std::uint32_t>(value) : 0u;
+}
+
 /*!
  * \brief The TrackFlags enum specifies miscellaneous boolean properties of a track.
  */
diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 405fbda..9253f72 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -30,7 +30,7 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
-    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
+    m_samplingFrequency = sampleRateIndex < std::size(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
 }
 
 } // namespace TagParser
diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 9576d6d..9002841 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -103,7 +103,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 m_samplingFrequency = streamInfo.samplingFrequency();
                 m_sampleCount = streamInfo.totalSampleCount();
                 m_bitsPerSample = streamInfo.bitsPerSample();
-                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                m_duration = timeSpanFromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
             } else {
                 diag.emplace_back(DiagLevel::Critical, "\"METADATA_BLOCK_STREAMINFO\" is truncated and will be ignored.", context);
             }
diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index 05a272f..7711266 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -52,7 +52,7 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
 
     // compute further values
     m_format = FourccIds::fourccToMediaFormat(formatId);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_fps);
+    m_duration = timeSpanFromSeconds(static_cast<double>(m_sampleCount) / m_fps);
 
     // skip unused bytes
     m_istream->seekg(4, ios_base::cur);
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 0b4b10e..93fe9be 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -641,7 +641,7 @@ void MatroskaContainer::parseSegmentInfo(Diagnostics &diag)
             m_titles.emplace_back();
         }
         if (rawDuration > 0.0) {
-            m_duration += TimeSpan::fromSeconds(rawDuration * static_cast<double>(timeScale) / 1000000000.0);
+            m_duration += timeSpanFromSeconds(rawDuration * static_cast<double>(timeScale) / 1000000000.0);
         }
     }
 }
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 74beeb4..9f063c7 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -362,7 +362,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     m_cropping.setRight(static_cast<std::uint32_t>(subElement->readUInteger()));
                     break;
                 case MatroskaIds::FrameRate:
-                    m_fps = static_cast<std::uint32_t>(subElement->readFloat());
+                    m_fps = uint32FromDouble(subElement->readFloat());
                     break;
                 case MatroskaIds::FlagInterlaced:
                     modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger());
@@ -391,12 +391,12 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     break;
                 case MatroskaIds::SamplingFrequency:
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = static_cast<std::uint32_t>(subElement->readFloat());
+                        m_samplingFrequency = uint32FromDouble(subElement->readFloat());
                     }
                     break;
                 case MatroskaIds::OutputSamplingFrequency:
                     if (!m_extensionSamplingFrequency) {
-                        m_extensionSamplingFrequency = static_cast<std::uint32_t>(subElement->readFloat());
+                        m_extensionSamplingFrequency = uint32FromDouble(subElement->readFloat());
                     }
                     break;
                 default:;
@@ -447,7 +447,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
         switch (m_mediaType) {
         case MediaType::Video:
             if (!m_fps && defaultDuration) {
-                m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
+                m_fps = uint32FromDouble(1000000000.0 / static_cast<double>(defaultDuration));
             }
             break;
         default:;
@@ -491,14 +491,14 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 audioSpecificConfig->audioObjectType, audioSpecificConfig->sbrPresent, audioSpecificConfig->psPresent);
             if (audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                 //m_samplingFrequency = audioSpecificConfig->sampleFrequency;
-            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_samplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->sampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
             }
             if (audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                 //m_extensionSamplingFrequency = audioSpecificConfig->extensionSampleFrequency;
-            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_extensionSamplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->extensionSampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid extension sample frequency index.", context);
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 5faab52..d8e038e 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -135,18 +135,16 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (version) {
                         case 0:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
+                            m_creationTime = epoch + timeSpanFromTimeScale(reader().readUInt32BE(), 1u);
+                            m_modificationTime = epoch + timeSpanFromTimeScale(reader().readUInt32BE(), 1u);
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = timeSpanFromTimeScale(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 1:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
+                            m_creationTime = epoch + timeSpanFromTimeScale(reader().readUInt64BE(), 1u);
+                            m_modificationTime = epoch + timeSpanFromTimeScale(reader().readUInt64BE(), 1u);
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = timeSpanFromTimeScale(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
@@ -169,10 +167,10 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (durationSize) {
                         case 4u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt32BE()) / static_cast<double>(m_timeScale));
+                            m_duration = timeSpanFromSeconds(static_cast<double>(reader().readUInt32BE()) / static_cast<double>(m_timeScale));
                             break;
                         case 8u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt64BE()) / static_cast<double>(m_timeScale));
+                            m_duration = timeSpanFromSeconds(static_cast<double>(reader().readUInt64BE()) / static_cast<double>(m_timeScale));
                             break;
                         default:;
                         }
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index b3a3d61..f70a536 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1685,9 +1685,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         m_timeScale = 0;
         m_duration = TimeSpan();
     }
-    m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
-    m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
-    m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale);
+    m_creationTime = Mp4Container::epoch + timeSpanFromTimeScale(m_rawMdhdCreationTime, 1u);
+    m_modificationTime = Mp4Container::epoch + timeSpanFromTimeScale(m_rawMdhdModificationTime, 1u);
+    m_duration = timeSpanFromTimeScale(m_rawMdhdDuration, m_timeScale);
 
     std::uint16_t tmp = reader.readUInt16BE();
     if (tmp) {
@@ -1897,14 +1897,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     m_esInfo->audioSpecificConfig->sbrPresent, m_esInfo->audioSpecificConfig->psPresent);
                                 if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                                     m_samplingFrequency = m_esInfo->audioSpecificConfig->sampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_samplingFrequency = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->sampleFrequencyIndex];
                                 } else {
                                     diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
                                 }
                                 if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                                     m_extensionSamplingFrequency = m_esInfo->audioSpecificConfig->extensionSampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_extensionSamplingFrequency
                                         = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex];
                                 } else {
@@ -2162,12 +2162,12 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
             timeScale = trakAtom().container().timeScale();
         }
         if (timeScale) {
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(totalDuration) / static_cast<double>(timeScale));
+            m_duration = timeSpanFromSeconds(static_cast<double>(totalDuration) / static_cast<double>(timeScale));
         }
     }
 
     // calculate average bitrate
-    if (m_bitrate < 0.01 && m_bitrate > -0.01) {
+    if (m_bitrate < 0.01 && m_bitrate > -0.01 && !m_duration.isNull()) {
         m_bitrate = (static_cast<double>(m_size) * 0.0078125) / m_duration.totalSeconds();
     }
 
diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index df8a99d..f57ece5 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -35,11 +35,11 @@ std::string_view mpegChannelModeString(MpegChannelMode channelMode)
  * \brief The MpegAudioFrame class is used to parse MPEG audio frames.
  */
 
-const std::uint16_t MpegAudioFrame::s_bitrateTable[0x2][0x3][0xF] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 },
-                                                                          { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384 },
-                                                                          { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 } },
-    { { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 },
-        { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 } } };
+const std::uint16_t MpegAudioFrame::s_bitrateTable[0x2][0x3][0x10] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448, 0 },
+                                                                          { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 0 },
+                                                                          { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0 } },
+    { { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256, 0 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0 },
+        { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0 } } };
 
 /*!
  * \brief Parses the header read using the specified \a reader.
@@ -207,6 +207,9 @@ std::uint32_t MpegAudioFrame::sampleCount() const
  */
 std::uint32_t MpegAudioFrame::size() const
 {
+    if (!samplingFrequency()) {
+        return 0;
+    }
     switch (m_header & 0x60000u) {
     case 0x60000u: // layer 1
         return static_cast<std::uint32_t>(
diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 7f95a0d..34ff7f8 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -65,7 +65,7 @@ public:
 private:
     static constexpr std::uint64_t s_xingHeaderOffset = 0x24;
     static constexpr std::uint32_t s_sync = 0xFFE00000u;
-    static const std::uint16_t s_bitrateTable[0x2][0x3][0xF];
+    static const std::uint16_t s_bitrateTable[0x2][0x3][0x10];
     std::uint32_t m_header;
     std::uint64_t m_xingHeader;
     XingHeaderFlags m_xingHeaderFlags;
diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 32d05ba..1361c31 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -79,12 +79,14 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
         }
     }
     if (frame.isXingFramefieldPresent()) {
-        const auto duration = static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
-        m_bitrate = static_cast<double>(m_size) / duration / 125.0;
-        m_duration = TimeSpan::fromSeconds(duration);
+        const auto duration = frame.samplingFrequency()
+            ? static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())
+            : 0.0;
+        m_bitrate = duration > 0.0 ? static_cast<double>(m_size) / duration / 125.0 : 0.0;
+        m_duration = timeSpanFromSeconds(duration);
     } else {
         m_bitrate = frame.bitrate();
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125)));
+        m_duration = timeSpanFromSeconds(static_cast<double>(m_size) / (m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125)));
     }
 }
 
diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index 79c8bbb..1e8f88f 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -285,7 +285,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     // estimate duration from size and bitrate if sample count and sample rate could not be determined
     if (m_duration.isNull() && m_size && m_bitrate != 0.0) {
         // calculate duration from stream size and bitrate, assuming 1 % overhead
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0) * 1.1);
+        m_duration = timeSpanFromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0) * 1.1);
     }
 }
 
@@ -316,7 +316,7 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
 
     // actually calculate the duration
     if (m_sampleCount && m_samplingFrequency != 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+        m_duration = timeSpanFromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
     }
 }
 
diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38c6950..d8a194f 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -172,8 +172,8 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         case 0x64617461u: // data segment
             m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
             m_size = restHeaderLen;
-            m_sampleCount = m_size / m_chunkSize;
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            m_sampleCount = m_chunkSize ? m_size / m_chunkSize : 0;
+            m_duration = timeSpanFromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
             break;
         default:;
         }
@@ -190,8 +190,8 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         ? ((static_cast<double>(m_size) * 8.0)
               / (static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
         : frame.bitrate();
-    m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
+    m_bytesPerSecond = uint32FromDouble(m_bitrate * 125.0);
+    m_duration = timeSpanFromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
 }
 
 } // namespace TagParser
-- 
2.43.0


From 0e9fb3c9d0b8df967bec39c71c44fb83470fe62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 055/117] fix: avoid huge allocations and integer overflows
 when reading chunk sizes and computing timings of damaged MP4 files

---
 mp4/mp4track.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index f70a536..9d91042 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -500,7 +500,8 @@ Mp4Timings Mp4Track::computeTimings() const
         timings.tkhdCreationTime = timings.mdhdCreationTime = static_cast<std::uint64_t>((m_creationTime - Mp4Container::epoch).totalSeconds());
         timings.tkhdModificationTime = timings.mdhdModificationTime
             = static_cast<std::uint64_t>((m_modificationTime - Mp4Container::epoch).totalSeconds());
-        timings.tkhdDuration = timings.mdhdDuration = static_cast<std::uint64_t>(m_duration.totalTicks() * m_timeScale / TimeSpan::ticksPerSecond);
+        timings.tkhdDuration = timings.mdhdDuration = static_cast<std::uint64_t>(m_duration.totalTicks()) * m_timeScale
+            / static_cast<std::uint64_t>(TimeSpan::ticksPerSecond);
     }
     return timings;
 }
@@ -573,9 +574,13 @@ vector<std::uint64_t> Mp4Track::readChunkSizes(Diagnostics &diag)
     // accumulate chunk sizes from the table
     vector<std::uint64_t> chunkSizes;
     if (!sampleToChunkTable.empty()) {
-        // prepare reading
+        // prepare reading, don't trust the denoted chunk count
         auto tableIterator = sampleToChunkTable.cbegin();
-        chunkSizes.reserve(m_chunkCount);
+        const auto chunkCount = std::min<std::uint64_t>(m_chunkCount, (std::max<std::uint64_t>(m_stcoAtom->dataSize(), 8u) - 8u) / m_chunkOffsetSize);
+        if (chunkCount < m_chunkCount) {
+            diag.emplace_back(DiagLevel::Critical, "The stco/co64 atom is truncated. It stores less chunk offsets as denoted.", context);
+        }
+        chunkSizes.reserve(chunkCount);
         // read first entry
         size_t sampleIndex = 0;
         std::uint32_t previousChunkIndex = get<0>(*tableIterator); // the first chunk has the index 1 and not zero!
@@ -588,7 +593,7 @@ vector<std::uint64_t> Mp4Track::readChunkSizes(Diagnostics &diag)
         ++tableIterator;
         for (const auto tableEnd = sampleToChunkTable.cend(); tableIterator != tableEnd; ++tableIterator) {
             std::uint32_t firstChunkIndex = get<0>(*tableIterator);
-            if (firstChunkIndex > previousChunkIndex && firstChunkIndex <= m_chunkCount) {
+            if (firstChunkIndex > previousChunkIndex && firstChunkIndex <= chunkCount) {
                 addChunkSizeEntries(chunkSizes, firstChunkIndex - previousChunkIndex, sampleIndex, samplesPerChunk, diag);
             } else {
                 diag.emplace_back(DiagLevel::Critical,
@@ -600,8 +605,8 @@ vector<std::uint64_t> Mp4Track::readChunkSizes(Diagnostics &diag)
             previousChunkIndex = firstChunkIndex;
             samplesPerChunk = get<1>(*tableIterator);
         }
-        if (m_chunkCount >= previousChunkIndex) {
-            addChunkSizeEntries(chunkSizes, m_chunkCount + 1 - previousChunkIndex, sampleIndex, samplesPerChunk, diag);
+        if (chunkCount >= previousChunkIndex) {
+            addChunkSizeEntries(chunkSizes, chunkCount + 1 - previousChunkIndex, sampleIndex, samplesPerChunk, diag);
         }
     }
     return chunkSizes;
-- 
2.43.0


From ed72552e6caf6184893e7ada01eacadfdd36ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 056/117] fix: write clusters of all segments when rewriting
 Matroska files

---
 matroska/matroskacontainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 93fe9be..6fcc55a 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1472,7 +1472,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // if rewrite is required, pretend writing the remaining elements to compute total segment size and cluster sizes
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
-                    if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
+                    level1Element = level0Element->childById(MatroskaIds::Cluster, diag);
+                    if (!segmentIndex && rewriteRequired && level1Element) {
                         // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
                         const auto preferredPadding = fileInfo().preferredPadding();
                         segment.totalDataSize += (segment.newPadding = newPadding = preferredPadding == 1 ? 2 : preferredPadding);
-- 
2.43.0


From 01e2cf9f44fb51db600708c98a166b2597fe1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:39 +0000
Subject: [PATCH 057/117] fix: consider positions in Matroska files relative to
 the containing segment and rewrite files with multiple segments

---
 matroska/matroskacontainer.cpp | 67 +++++++++++++++-------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 6fcc55a..c0f8a11 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -90,7 +90,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
         auto ids = std::unordered_set<EbmlElement::IdentifierType>();
         auto cueTimeFound = false, cueTrackPositionsFound = false;
         auto clusterElement = std::unique_ptr<EbmlElement>();
-        auto pos = std::uint64_t(), prevClusterSize = std::uint64_t(), currentOffset = std::uint64_t();
+        auto pos = std::uint64_t(), prevClusterSize = std::uint64_t();
         // iterate through all segments
         for (EbmlElement *segmentElement = m_firstElement->siblingById(MatroskaIds::Segment, diag); segmentElement;
             segmentElement = segmentElement->siblingById(MatroskaIds::Segment, diag)) {
@@ -171,7 +171,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                                         case MatroskaIds::CueClusterPosition:
                                             // validate "Cluster" position denoted by "CueClusterPosition"-element
                                             clusterElement = make_unique<EbmlElement>(
-                                                *this, segmentElement->dataOffset() + subElement->readUInteger() - currentOffset);
+                                                *this, segmentElement->dataOffset() + subElement->readUInteger());
                                             try {
                                                 clusterElement->parse(diag);
                                                 if (clusterElement->id() != MatroskaIds::Cluster) {
@@ -263,7 +263,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                         case MatroskaIds::Position:
                             // validate position
                             if ((pos = clusterElementChild->readUInteger()) > 0
-                                && (segmentChildElement->startOffset() - segmentElement->dataOffset() + currentOffset) != pos) {
+                                && (segmentChildElement->startOffset() - segmentElement->dataOffset()) != pos) {
                                 diag.emplace_back(DiagLevel::Critical,
                                     argsToString("\"Position\"-element at ", clusterElementChild->startOffset(), " points to ", pos,
                                         " which is not the offset of the containing \"Cluster\"-element."),
@@ -287,7 +287,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                 default:;
                 }
             }
-            currentOffset += segmentElement->totalSize();
+            prevClusterSize = 0;
         }
     }
     // add a warning when no index could be found
@@ -984,8 +984,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
     std::uint64_t offset;
     // current total offset (including EBML header)
     std::uint64_t totalOffset;
-    // current write offset (used to calculate positions)
-    std::uint64_t currentPosition = 0;
     // holds the offsets of all CRC-32 elements and the length of the enclosing block
     std::vector<std::tuple<std::uint64_t, std::uint64_t>> crc32Offsets;
     // size length used to make size denotations
@@ -1132,8 +1130,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // define variables to store sizes, offsets and other information required to make a header and "Segment"-elements
         // -> current "pretent" write offset
         std::uint64_t currentOffset = ebmlHeaderSize;
-        // -> current read offset (used to calculate positions)
-        std::uint64_t readOffset = 0;
         // -> index of current element during iteration
         unsigned int index;
 
@@ -1149,7 +1145,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         }
 
         // calculate sizes and other information required to make segments
-        for (level0Element = firstElement(), currentPosition = newPadding = segmentIndex = 0; level0Element;
+        for (level0Element = firstElement(), newPadding = segmentIndex = 0; level0Element;
             level0Element = level0Element->nextSibling()) {
             switch (level0Element->id()) {
             case EbmlIds::Header:
@@ -1162,6 +1158,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 break;
 
             case MatroskaIds::Segment: {
+                // rewrite files with multiple segments (in-place updates are only supported for files with a single segment)
+                if (segmentIndex && !rewriteRequired) {
+                    rewriteRequired = true;
+                    goto calculateSegmentData;
+                }
+
                 // get reference to the current segment data instance
                 SegmentData &segment = segmentData[segmentIndex];
 
@@ -1208,7 +1210,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 for (level1Element = level0Element->childById(MatroskaIds::SegmentInfo, diag), index = 0; level1Element;
                     level1Element = level1Element->siblingById(MatroskaIds::SegmentInfo, diag), ++index) {
                     // update offset in "SeekHead"-element
-                    if (segment.seekInfo.push(index, MatroskaIds::SegmentInfo, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(index, MatroskaIds::SegmentInfo, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "SegmentInfo"-element
@@ -1244,7 +1246,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing "Tracks"-element
                 if (trackHeaderSize) {
                     // update offsets in "SeekHead"-element
-                    if (segment.seekInfo.push(0, MatroskaIds::Tracks, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(0, MatroskaIds::Tracks, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Tracks"-element
@@ -1256,7 +1258,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 for (level1Element = level0Element->childById(MatroskaIds::Chapters, diag), index = 0; level1Element;
                     level1Element = level1Element->siblingById(MatroskaIds::Chapters, diag), ++index) {
                     // update offset in "SeekHead"-element
-                    if (segment.seekInfo.push(index, MatroskaIds::Chapters, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(index, MatroskaIds::Chapters, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of element
@@ -1284,7 +1286,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Tags"-element
                     if (tagsSize) {
                         // update offsets in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Tags"-element
@@ -1294,7 +1296,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Attachments"-element
                     if (attachmentsSize) {
                         // update offsets in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Attachments"-element
@@ -1308,7 +1310,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing "Cues"-element
                 if (newCuesPos == ElementPosition::BeforeData && segment.cuesElement) {
                     // update offset of "Cues"-element in "SeekHead"-element
-                    if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Cues"-element
@@ -1354,7 +1356,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             // -> update offset of "Cluster"-element in "Cues"-element and get end offset of last "Cluster"-element
                             bool cuesInvalidated = false;
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
-                                clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
+                                clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset();
                                 segment.clusterEndOffset = level1Element->endOffset();
                                 if (segment.cuesElement
                                     && segment.cuesUpdater.updateOffsets(
@@ -1386,7 +1388,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             progress.updateStep("Calculating offsets of elements after cluster ...");
                             if (newCuesPos == ElementPosition::AfterData && segment.cuesElement) {
                                 // update offset of "Cues"-element in "SeekHead"-element
-                                if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                                if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                                     goto calculateSegmentSize;
                                 } else {
                                     // add size of "Cues"-element
@@ -1398,7 +1400,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 // pretend writing "Tags"-element
                                 if (tagsSize) {
                                     // update offsets in "SeekHead"-element
-                                    if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                                    if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                                         goto calculateSegmentSize;
                                     } else {
                                         // add size of "Tags"-element
@@ -1408,7 +1410,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 // pretend writing "Attachments"-element
                                 if (attachmentsSize) {
                                     // update offsets in "SeekHead"-element
-                                    if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                                    if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                                         goto calculateSegmentSize;
                                     } else {
                                         // add size of "Attachments"-element
@@ -1484,12 +1486,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     bool cuesInvalidated = false;
                     for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                         // update offset of "Cluster"-element in "Cues"-element
-                        clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
-                        if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, currentPosition + segment.totalDataSize)
+                        clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset();
+                        if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, segment.totalDataSize)
                             && newCuesPos == ElementPosition::BeforeData) {
                             cuesInvalidated = true;
                         } else {
-                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, currentPosition + segment.totalDataSize)) {
+                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Cluster"-element
@@ -1506,7 +1508,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case EbmlIds::Crc32:
                                         break;
                                     case MatroskaIds::Position:
-                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
+                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.totalDataSize);
                                         break;
                                     default:
                                         clusterSize += level2Element->totalSize();
@@ -1536,7 +1538,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     progress.updateStep("Calculating offsets of elements after cluster ...");
                     if (newCuesPos == ElementPosition::AfterData && segment.cuesElement) {
                         // update offset of "Cues"-element in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Cues"-element
@@ -1551,7 +1553,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         // pretend writing "Tags"-element
                         if (tagsSize) {
                             // update offsets in "SeekHead"-element
-                            if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                            if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Tags"-element
@@ -1561,7 +1563,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         // pretend writing "Attachments"-element
                         if (attachmentsSize) {
                             // update offsets in "SeekHead"-element
-                            if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                            if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Attachments"-element
@@ -1577,12 +1579,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // increase write offsets by the size of the segment which size has just been computed
                 sizeLength = rewriteRequired ? EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) : segment.sizeDenotationLength;
                 segment.totalSize = 4 + sizeLength + segment.totalDataSize;
-                currentPosition += segment.totalSize;
                 currentOffset += segment.totalSize;
 
-                // increase the read offset by the size of the segment read from the original file
-                readOffset += level0Element->totalSize();
-
                 break;
             }
             default:
@@ -1591,7 +1589,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     "The top-level element \"" % level0Element->idToString() + "\" of the original file is unknown and will just be copied.",
                     context);
                 currentOffset += level0Element->totalSize();
-                readOffset += level0Element->totalSize();
             }
         }
 
@@ -1687,7 +1684,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         EbmlElement::makeSimpleElement(outputStream, EbmlIds::DocTypeReadVersion, m_doctypeReadVersion);
 
         // iterates through all level 0 elements of the original file
-        for (level0Element = firstElement(), segmentIndex = 0, currentPosition = 0; level0Element; level0Element = level0Element->nextSibling()) {
+        for (level0Element = firstElement(), segmentIndex = 0; level0Element; level0Element = level0Element->nextSibling()) {
 
             // write all level 0 elements of the original file
             switch (level0Element->id()) {
@@ -1843,7 +1840,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     unsigned int index = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
-                        clusterSize = currentPosition + (static_cast<std::uint64_t>(outputStream.tellp()) - offset);
+                        clusterSize = static_cast<std::uint64_t>(outputStream.tellp()) - offset;
                         // write header; checking whether clusterSizesIterator is valid shouldn't be necessary
                         outputWriter.writeUInt32BE(MatroskaIds::Cluster);
                         sizeLength = EbmlElement::makeSizeDenotation(*clusterSizesIterator, buff);
@@ -1947,15 +1944,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // increase the current segment index
                 ++segmentIndex;
 
-                // increase write offsets by the size of the segment which has just been written
-                currentPosition += segment.totalSize;
-
                 break;
             }
             default:
                 // just copy any unknown top-level elements
                 level0Element->copyEntirely(outputStream, diag, nullptr);
-                currentPosition += level0Element->totalSize();
             }
         }
 
-- 
2.43.0


From cc8a2e3eab7b8c9ddff90c8e281c3a74b58fb1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:36 +0000
Subject: [PATCH 058/117] fix: avoid huge allocations, out-of-bounds reads and
 undocumented exceptions when parsing damaged files

---
 flac/flacstream.cpp  |  9 +++++++--
 id3/id3v2frame.cpp   |  9 ++++++---
 mp4/mp4track.cpp     |  4 +++-
 ogg/oggcontainer.cpp | 11 +++++++++--
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 9002841..6ae3b6f 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -92,6 +92,11 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
         // remember start offset
         const auto startOffset = m_istream->tellg();
 
+        // don't attempt to read beyond the end of the file
+        const auto dataOffset = static_cast<std::uint64_t>(startOffset);
+        const auto availableSize = m_mediaFileInfo.size() > dataOffset ? m_mediaFileInfo.size() - dataOffset : 0u;
+        const auto dataSize = static_cast<std::uint32_t>(std::min<std::uint64_t>(header.dataSize(), availableSize));
+
         // parse relevant meta data
         switch (static_cast<FlacMetaDataBlockType>(header.type())) {
         case FlacMetaDataBlockType::StreamInfo:
@@ -120,7 +125,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 if (m_mediaFileInfo.fileHandlingFlags() & MediaFileHandlingFlags::ConvertTotalFields) {
                     flags += VorbisCommentFlags::ConvertTotalFields;
                 }
-                m_vorbisComment->parse(*m_istream, header.dataSize(), flags, diag);
+                m_vorbisComment->parse(*m_istream, dataSize, flags, diag);
             } catch (const Failure &) {
                 // error is logged via notifications, just continue with the next metadata block
             }
@@ -132,7 +137,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 VorbisCommentField coverField;
                 coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
-                picture.parse(*m_istream, header.dataSize());
+                picture.parse(*m_istream, dataSize);
                 coverField.setTypeInfo(picture.pictureType());
 
                 if (coverField.value().isEmpty()) {
diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 765211e..da307fc 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -553,10 +553,13 @@ std::uint16_t Id3v2Frame::makeFlag(std::uint8_t version) const
  */
 std::string Id3v2Frame::ignoreAdditionalValuesDiagMsg() const
 {
-    if (m_additionalValues.size() == 1) {
-        return argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.");
+    try {
+        return m_additionalValues.size() == 1
+            ? argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.")
+            : argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
+    } catch (const ConversionException &) {
+        return argsToString(m_additionalValues.size(), " additional value(s) are supposed to be ignored.");
     }
-    return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
 }
 
 /*!
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 9d91042..7eb5972 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1731,7 +1731,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
     // -> name
     m_istream->seekg(12, ios_base::cur); // skip reserved bytes
-    if (static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1) {
+    if (m_hdlrAtom->dataSize() <= 12 + 4 + 8) {
+        diag.emplace_back(DiagLevel::Warning, "The \"hdlr\"-atom is truncated. The track name will be ignored.", context);
+    } else if (static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1) {
         // assume size prefixed string (seems to appear in QuickTime files)
         m_istream->seekg(1, ios_base::cur);
         m_name = reader.readString(tmp);
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index f21ad8a..d822441 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -311,8 +311,15 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         default:
             diag.emplace_back(DiagLevel::Critical, "Stream format not supported.", context);
         }
-        params.lastPageIndex = m_iterator.currentPageIndex();
-        params.lastSegmentIndex = m_iterator.currentSegmentIndex();
+        if (m_iterator) {
+            params.lastPageIndex = m_iterator.currentPageIndex();
+            params.lastSegmentIndex = m_iterator.currentSegmentIndex();
+        } else {
+            // consider the last segment if the end of the file has been exceeded
+            const auto &lastPage = m_iterator.pages().back();
+            params.lastPageIndex = m_iterator.pages().size() - 1;
+            params.lastSegmentIndex = lastPage.segmentSizes().empty() ? 0 : lastPage.segmentSizes().size() - 1;
+        }
         fileInfo().reportPaddingSizeChanged(fileInfo().paddingSize() + padding);
 
         // do a few sanity checks on the continued-flag and absolute granule position as some Ogg demuxers are picky about them
-- 
2.43.0


From 4feb9742c4b3b4b099b2a7833495f5720300f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:56 +0000
Subject: [PATCH 059/117] fix: avoid undefined behavior and huge allocations
 when parsing AVC configuration, damaged MP4 track headers and oversized
 elements

---
 avc/avcinfo.cpp            | 82 ++++++++++++++++++++++++--------------
 avc/avcinfo.h              |  2 +-
 genericfileelement.h       |  5 +++
 matroska/matroskatrack.cpp |  1 +
 mp4/mp4track.cpp           |  9 +++--
 5 files changed, 63 insertions(+), 36 deletions(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 6adac0f..1461933 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -13,6 +13,26 @@ using namespace CppUtilities;
 
 namespace TagParser {
 
+/// \cond
+template <typename IntType> static IntType readUnsignedExpGolomb(BitReader &reader)
+{
+    auto leadingZeros = std::uint8_t();
+    for (; !reader.readBit(); ++leadingZeros) {
+        if (leadingZeros >= 32) {
+            throw InvalidDataException(); // value does not fit into 32-bit integer
+        }
+    }
+    const auto suffix = leadingZeros ? reader.readBits<std::uint64_t>(leadingZeros) : 0u;
+    return static_cast<IntType>(((std::uint64_t(1) << leadingZeros) | suffix) - 1u);
+}
+
+static sgolomb readSignedExpGolomb(BitReader &reader)
+{
+    const auto value = static_cast<std::int64_t>(readUnsignedExpGolomb<std::uint64_t>(reader));
+    return static_cast<sgolomb>((value % 2) ? (value + 1) / 2 : -(value / 2));
+}
+/// \endcond
+
 /*!
  * \struct TagParser::SpsInfo
  * \brief The SpsInfo struct holds the sequence parameter set.
@@ -42,7 +62,7 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         profileIndication = bitReader.readBits<std::uint8_t>(8);
         profileConstraints = bitReader.readBits<std::uint8_t>(8);
         levelIndication = bitReader.readBits<std::uint8_t>(8);
-        id = bitReader.readUnsignedExpGolombCodedBits<ugolomb>();
+        id = readUnsignedExpGolomb<ugolomb>(bitReader);
 
         // read chroma profile specific values
         switch (profileIndication) {
@@ -56,11 +76,11 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         case 128:
         case 244:
             // high-level profile
-            if ((chromaFormatIndication = bitReader.readUnsignedExpGolombCodedBits<ugolomb>()) == 3) {
+            if ((chromaFormatIndication = readUnsignedExpGolomb<ugolomb>(bitReader)) == 3) {
                 bitReader.skipBits(1); // separate color plane flag
             }
-            bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit depth luma minus8
-            bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit depth chroma minus8
+            readUnsignedExpGolomb<std::uint8_t>(bitReader); // bit depth luma minus8
+            readUnsignedExpGolomb<std::uint8_t>(bitReader); // bit depth chroma minus8
             bitReader.skipBits(1); // qpprime y zero transform bypass flag
             if (bitReader.readBit()) { // sequence scaling matrix present flag
                 for (std::uint8_t i = 0; i < 8; ++i) {
@@ -80,18 +100,18 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         }
 
         // read misc values
-        log2MaxFrameNum = bitReader.readUnsignedExpGolombCodedBits<ugolomb>() + 4;
-        switch (pictureOrderCountType = bitReader.readUnsignedExpGolombCodedBits<ugolomb>()) {
+        log2MaxFrameNum = readUnsignedExpGolomb<ugolomb>(bitReader) + 4;
+        switch (pictureOrderCountType = readUnsignedExpGolomb<ugolomb>(bitReader)) {
         case 0:
-            log2MaxPictureOrderCountLsb = bitReader.readUnsignedExpGolombCodedBits<ugolomb>() + 4;
+            log2MaxPictureOrderCountLsb = readUnsignedExpGolomb<ugolomb>(bitReader) + 4;
             break;
         case 1:
             deltaPicOrderAlwaysZeroFlag = bitReader.readBit();
-            offsetForNonRefPic = bitReader.readSignedExpGolombCodedBits<sgolomb>();
-            offsetForTopToBottomField = bitReader.readSignedExpGolombCodedBits<sgolomb>();
-            numRefFramesInPicOrderCntCycle = bitReader.readUnsignedExpGolombCodedBits<ugolomb>();
+            offsetForNonRefPic = readSignedExpGolomb(bitReader);
+            offsetForTopToBottomField = readSignedExpGolomb(bitReader);
+            numRefFramesInPicOrderCntCycle = readUnsignedExpGolomb<ugolomb>(bitReader);
             for (std::uint8_t i = 0; i < numRefFramesInPicOrderCntCycle; ++i) {
-                bitReader.readUnsignedExpGolombCodedBits<ugolomb>(); // offset for ref frames
+                readUnsignedExpGolomb<ugolomb>(bitReader); // offset for ref frames
             }
             break;
         case 2:
@@ -99,13 +119,13 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         default:
             throw InvalidDataException();
         }
-        bitReader.readUnsignedExpGolombCodedBits<ugolomb>(); // ref frames num
+        readUnsignedExpGolomb<ugolomb>(bitReader); // ref frames num
         bitReader.skipBits(1); // gaps in frame num value allowed flag
 
         // read picture size related values
         Size mbSize;
-        mbSize.setWidth(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>() + 1);
-        mbSize.setHeight(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>() + 1);
+        mbSize.setWidth(readUnsignedExpGolomb<std::uint32_t>(bitReader) + 1);
+        mbSize.setHeight(readUnsignedExpGolomb<std::uint32_t>(bitReader) + 1);
         if (!(frameMbsOnly = bitReader.readBit())) { // frame mbs only flag
             bitReader.readBit(); // mb adaptive frame field flag
         }
@@ -113,10 +133,10 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
 
         // read cropping values
         if (bitReader.readBit()) { // frame cropping flag
-            cropping.setLeft(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>());
-            cropping.setRight(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>());
-            cropping.setTop(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>());
-            cropping.setBottom(bitReader.readUnsignedExpGolombCodedBits<std::uint32_t>());
+            cropping.setLeft(readUnsignedExpGolomb<std::uint32_t>(bitReader));
+            cropping.setRight(readUnsignedExpGolomb<std::uint32_t>(bitReader));
+            cropping.setTop(readUnsignedExpGolomb<std::uint32_t>(bitReader));
+            cropping.setBottom(readUnsignedExpGolomb<std::uint32_t>(bitReader));
         }
 
         // calculate actual picture size
@@ -166,8 +186,8 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
                 }
             }
             if (bitReader.readBit()) { // chroma loc info present
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // chroma sample loc type top field
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // chroma sample loc type bottom field
+                readUnsignedExpGolomb<std::uint8_t>(bitReader); // chroma sample loc type top field
+                readUnsignedExpGolomb<std::uint8_t>(bitReader); // chroma sample loc type bottom field
             }
 
             // read timing info
@@ -196,12 +216,12 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
             // TODO: investigate error (truncated data) when parsing mtx-test-data/mkv/attachment-without-fileuid.mkv
             if (bitReader.readBit()) { // bitstream restriction flag
                 bitReader.skipBits(1); // motion vectors over pic boundaries flag
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // max bytes per pic denom
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // max bytes per mb denom
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // log2 max mv length horizontal
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // log2 max mv length vertical
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // reorder frames num
-                bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // max decoder frame buffering
+                readUnsignedExpGolomb<std::uint8_t>(bitReader); // max bytes per pic denom
+                readUnsignedExpGolomb<std::uint8_t>(bitReader); // max bytes per mb denom
+                readUnsignedExpGolomb<std::uint8_t>(bitReader); // log2 max mv length horizontal
+                readUnsignedExpGolomb<std::uint8_t>(bitReader); // log2 max mv length vertical
+                readUnsignedExpGolomb<std::uint8_t>(bitReader); // reorder frames num
+                readUnsignedExpGolomb<std::uint8_t>(bitReader); // max decoder frame buffering
             }
         }
 
@@ -236,8 +256,8 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
         if (bitReader.readBits<std::uint8_t>(5) != 8) { // nal unit type
             throw NotImplementedException();
         }
-        id = bitReader.readUnsignedExpGolombCodedBits<ugolomb>();
-        spsId = bitReader.readUnsignedExpGolombCodedBits<ugolomb>();
+        id = readUnsignedExpGolomb<ugolomb>(bitReader);
+        spsId = readUnsignedExpGolomb<ugolomb>(bitReader);
         bitReader.skipBits(1); // entropy coding mode flag
         picOrderPresent = bitReader.readBit();
     } catch (const std::ios_base::failure &) {
@@ -256,13 +276,13 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
  */
 void HrdParameters::parse(CppUtilities::BitReader &reader)
 {
-    cpbCount = reader.readUnsignedExpGolombCodedBits<ugolomb>() + 1;
+    cpbCount = readUnsignedExpGolomb<ugolomb>(reader) + 1;
     bitRateScale = reader.readBits<std::uint8_t>(4);
     cpbSizeScale = reader.readBits<std::uint8_t>(4);
     for (ugolomb i = 0; i < cpbCount; ++i) {
         // just skip those values
-        reader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit rate value minus 1
-        reader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // cpb size value minus 1
+        readUnsignedExpGolomb<std::uint8_t>(reader); // bit rate value minus 1
+        readUnsignedExpGolomb<std::uint8_t>(reader); // cpb size value minus 1
         reader.skipBits(1); // cbr flag
     }
     initialCpbRemovalDelayLength = reader.readBits<std::uint8_t>(5) + 1;
diff --git a/avc/avcinfo.h b/avc/avcinfo.h
index a1fd385..811746b 100644
--- a/avc/avcinfo.h
+++ b/avc/avcinfo.h
@@ -41,7 +41,7 @@ constexpr TimingInfo::TimingInfo()
 
 constexpr std::int64_t TimingInfo::defaultDuration() const
 {
-    return 1000000000ll * unitsInTick / timeScale;
+    return timeScale ? 1000000000ll * unitsInTick / timeScale : 0;
 }
 
 struct TAG_PARSER_EXPORT HrdParameters {
diff --git a/genericfileelement.h b/genericfileelement.h
index e468716..c62590e 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -882,9 +882,14 @@ void GenericFileElement<ImplementationType>::copyEntirely(TargetStream &targetSt
 /*!
  * \brief Buffers the element (header and data).
  * \remarks The element must have been parsed.
+ * \throws Throws TruncatedDataException if the element exceeds the end of the file.
  */
 template <class ImplementationType> void GenericFileElement<ImplementationType>::makeBuffer()
 {
+    const auto fileSize = container().fileInfo().size();
+    if (startOffset() > fileSize || totalSize() > fileSize - startOffset()) {
+        throw TruncatedDataException();
+    }
     m_buffer = std::make_unique<char[]>(totalSize());
     container().stream().seekg(static_cast<std::streamoff>(startOffset()));
     container().stream().read(m_buffer.get(), static_cast<std::streamsize>(totalSize()));
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 9f063c7..3eecc6c 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -14,6 +14,7 @@
 #include "../mp4/mp4track.h"
 
 #include "../exceptions.h"
+#include "../mediafileinfo.h"
 #include "../mediaformat.h"
 
 #include <c++utilities/conversion/stringconversion.h>
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 7eb5972..77b2c11 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -50,7 +50,7 @@ struct TrackHeaderInfo {
 
 private:
     /// \brief Specifies the size which is required for <i>making a new</i> track header based one the existing one.
-    std::uint64_t requiredSize = 100;
+    std::uint64_t requiredSize = 92;
     /// \brief Specifies whether there actually a track header exists and whether it can be used as basis for a new one.
     bool canUseExisting = false;
     /// \brief Specifies whether the existing track header is truncated.
@@ -218,7 +218,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
             actualTableSize -= 8;
         }
         std::uint32_t actualChunkCount = chunkCount();
-        std::uint64_t calculatedTableSize = chunkCount() * offsetSize;
+        std::uint64_t calculatedTableSize = static_cast<std::uint64_t>(chunkCount()) * offsetSize;
         if (calculatedTableSize < actualTableSize) {
             diag.emplace_back(DiagLevel::Critical,
                 "The stco/co64 atom stores more chunk offsets as denoted. The additional chunk offsets will be ignored.", context);
@@ -440,7 +440,7 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
     }
 
     // check the version of the existing tkhd atom to determine where additional data starts
-    switch (info.version = static_cast<std::uint8_t>(m_tkhdAtom->buffer()[m_tkhdAtom->headerSize()])) {
+    switch (info.version = m_tkhdAtom->dataSize() ? static_cast<std::uint8_t>(m_tkhdAtom->buffer()[m_tkhdAtom->headerSize()]) : 0u) {
     case 0:
         info.additionalDataOffset = 32;
         break;
@@ -464,7 +464,8 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
     }
 
     // determine required size
-    info.requiredSize = m_tkhdAtom->dataSize() + 8;
+    // note: If the existing header can not be used default values which are 52 bytes long are written.
+    info.requiredSize = (info.canUseExisting ? m_tkhdAtom->dataSize() : info.additionalDataOffset + 52u) + 8;
     info.timings = computeTimings();
     info.timingsVersion = info.timings.requiredTkhdVersion();
     if (info.version == 0) {
-- 
2.43.0


From a1638fa43c58922f030e4b98a83f621627bbcbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:43 +0000
Subject: [PATCH 060/117] fix: avoid long loops and overflow when reading
 fragmented MP4 tracks without per-sample fields

---
 mp4/mp4track.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 77b2c11..7fd8700 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -307,7 +307,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                             }
                             for (Mp4Atom *trunAtom = trafAtom->childById(Mp4AtomIds::TrackFragmentRun, diag); trunAtom;
                                 trunAtom = trunAtom->siblingById(Mp4AtomIds::TrackFragmentRun, diag)) {
-                                std::uint32_t trunCalculatedDataSize = 8;
+                                std::uint64_t trunCalculatedDataSize = 8;
                                 if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                     diag.emplace_back(DiagLevel::Critical, "trun atom is truncated.", context);
                                 } else {
@@ -334,7 +334,7 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                                     if (trunFlags & 0x000800) { // sample-composition-time-offsets present
                                         entrySize += 4;
                                     }
-                                    trunCalculatedDataSize += entrySize * sampleCount;
+                                    trunCalculatedDataSize += static_cast<std::uint64_t>(entrySize) * sampleCount;
                                     if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                         diag.emplace_back(DiagLevel::Critical, "trun atom is truncated (presence of fields denoted).", context);
                                     } else {
@@ -345,6 +345,10 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
                                         if (trunFlags & 0x000004) { // first-sample-flags present
                                             inputStream().seekg(4, ios_base::cur);
                                         }
+                                        if (!entrySize) { // no per-sample fields present
+                                            m_size += static_cast<std::uint64_t>(sampleCount) * defaultSampleSize;
+                                            continue;
+                                        }
                                         for (std::uint32_t i = 0; i < sampleCount; ++i) {
                                             if (trunFlags & 0x000100) { // sample-duration present
                                                 //totalDuration += reader().readUInt32BE();
@@ -2094,7 +2098,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         }
                         for (Mp4Atom *trunAtom = trafAtom->childById(TrackFragmentRun, diag); trunAtom;
                             trunAtom = trunAtom->siblingById(TrackFragmentRun, diag)) {
-                            std::uint32_t trunCalculatedDataSize = 8;
+                            std::uint64_t trunCalculatedDataSize = 8;
                             if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                 diag.emplace_back(DiagLevel::Critical, "trun atom is truncated.", context);
                             } else {
@@ -2121,7 +2125,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                 if (trunFlags & 0x000800) { // sample-composition-time-offsets present
                                     entrySize += 4;
                                 }
-                                trunCalculatedDataSize += entrySize * sampleCount;
+                                trunCalculatedDataSize += static_cast<std::uint64_t>(entrySize) * sampleCount;
                                 if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                     diag.emplace_back(DiagLevel::Critical, "trun atom is truncated (presence of fields denoted).", context);
                                 } else {
@@ -2132,6 +2136,11 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     if (trunFlags & 0x000004) { // first-sample-flags present
                                         m_istream->seekg(4, ios_base::cur);
                                     }
+                                    if (!entrySize) { // no per-sample fields present
+                                        totalDuration += static_cast<std::uint64_t>(sampleCount) * defaultSampleDuration;
+                                        m_size += static_cast<std::uint64_t>(sampleCount) * defaultSampleSize;
+                                        continue;
+                                    }
                                     for (std::uint32_t i = 0; i < sampleCount; ++i) {
                                         if (trunFlags & 0x000100) { // sample-duration present
                                             totalDuration += reader.readUInt32BE();
-- 
2.43.0


From 5e819fa0fdf03de43d2db20255f205936bb5f827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:07 +0000
Subject: [PATCH 061/117] fix: make copying, moving, comparing and converting
 tag values consistent

* Copy flags and native data as well when copying a TagValue
* Initialize encoding of description and flags in all constructors
* Leave moved-from TagValue in a consistent state
* Return correct result when converting non-text to a wide string
* Avoid exception from comparison functions if description is invalid
* Compare UTF-16 code units as a whole when ignoring the case
* Avoid calling iconv with null as encoding if the encoding is unspecified
* Avoid undefined behavior when converting out-of-range rating to integer
* Allow converting the maximum value to PositionInSet/TimeSpan
---
 tagvalue.cpp | 188 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 132 insertions(+), 56 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index aaa0924..4ddf537 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -14,6 +14,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <limits>
 #include <sstream>
 #include <utility>
 
@@ -137,10 +138,11 @@ TagValue::TagValue(const TagValue &other)
     , m_desc(other.m_desc)
     , m_mimeType(other.m_mimeType)
     , m_locale(other.m_locale)
+    , m_nativeData(other.m_nativeData)
     , m_type(other.m_type)
     , m_encoding(other.m_encoding)
     , m_descEncoding(other.m_descEncoding)
-    , m_flags(TagValueFlags::None)
+    , m_flags(other.m_flags)
 {
     if (!other.isEmpty()) {
         m_ptr = make_unique<char[]>(m_size);
@@ -148,7 +150,24 @@ TagValue::TagValue(const TagValue &other)
     }
 }
 
-TagValue::TagValue(TagValue &&other) = default;
+/*!
+ * \brief Constructs a new TagValue taking over the data of the given TagValue instance.
+ * \remarks The \a other instance does not hold any data afterwards.
+ */
+TagValue::TagValue(TagValue &&other)
+    : m_ptr(std::move(other.m_ptr))
+    , m_size(std::exchange(other.m_size, 0))
+    , m_desc(std::move(other.m_desc))
+    , m_mimeType(std::move(other.m_mimeType))
+    , m_locale(std::move(other.m_locale))
+    , m_nativeData(std::move(other.m_nativeData))
+    , m_type(other.m_type)
+    , m_encoding(other.m_encoding)
+    , m_descEncoding(other.m_descEncoding)
+    , m_flags(other.m_flags)
+    , m_p(std::move(other.m_p))
+{
+}
 
 /*!
  * \brief Constructs an empty TagValue.
@@ -189,6 +208,8 @@ TagValue::TagValue(const char *text, std::size_t textSize, TagTextEncoding textE
  * \remarks Strips the BOM of the specified \a text.
  */
 TagValue::TagValue(const char *text, TagTextEncoding textEncoding, TagTextEncoding convertTo)
+    : m_descEncoding(TagTextEncoding::Latin1)
+    , m_flags(TagValueFlags::None)
 {
     assignText(text, std::strlen(text), textEncoding, convertTo);
 }
@@ -295,6 +316,7 @@ TagValue &TagValue::operator=(const TagValue &other)
     m_desc = other.m_desc;
     m_mimeType = other.m_mimeType;
     m_locale = other.m_locale;
+    m_nativeData = other.m_nativeData;
     m_flags = other.m_flags;
     m_encoding = other.m_encoding;
     m_descEncoding = other.m_descEncoding;
@@ -307,9 +329,39 @@ TagValue &TagValue::operator=(const TagValue &other)
     return *this;
 }
 
-TagValue &TagValue::operator=(TagValue &&other) = default;
+/*!
+ * \brief Takes over the data of another TagValue instance.
+ * \remarks The \a other instance does not hold any data afterwards (unless it is the current instance).
+ */
+TagValue &TagValue::operator=(TagValue &&other)
+{
+    if (this == &other) {
+        return *this;
+    }
+    m_ptr = std::move(other.m_ptr);
+    m_size = std::exchange(other.m_size, 0);
+    m_desc = std::move(other.m_desc);
+    m_mimeType = std::move(other.m_mimeType);
+    m_locale = std::move(other.m_locale);
+    m_nativeData = std::move(other.m_nativeData);
+    m_type = other.m_type;
+    m_encoding = other.m_encoding;
+    m_descEncoding = other.m_descEncoding;
+    m_flags = other.m_flags;
+    m_p = std::move(other.m_p);
+    return *this;
+}
 
 /// \cond
+template <typename IntType> static IntType ratingToInteger(double rating)
+{
+    constexpr auto limit = static_cast<double>(std::numeric_limits<IntType>::max() / 2 + 1) * 2.0;
+    if (!(rating > static_cast<double>(std::numeric_limits<IntType>::min()) - 1.0 && rating < limit)) {
+        throw ConversionException("The assigned rating exceeds the range of the requested integer type.");
+    }
+    return static_cast<IntType>(rating);
+}
+
 TagTextEncoding pickUtfEncoding(TagTextEncoding encoding1, TagTextEncoding encoding2)
 {
     switch (encoding1) {
@@ -328,6 +380,24 @@ TagTextEncoding pickUtfEncoding(TagTextEncoding encoding1, TagTextEncoding encod
     }
     return TagTextEncoding::Utf8;
 }
+/// \brief Compares equally encoded text considering UTF-16 code units as a whole when ignoring the case.
+static bool compareText(const char *data1, std::size_t size1, const char *data2, std::size_t size2, TagTextEncoding encoding, bool ignoreCase)
+{
+    const auto isLittleEndian = encoding == TagTextEncoding::Utf16LittleEndian;
+    if (!ignoreCase || (!isLittleEndian && encoding != TagTextEncoding::Utf16BigEndian) || size1 != size2 || size1 % 2) {
+        return TagValue::compareData(data1, size1, data2, size2, ignoreCase);
+    }
+    const auto toLower = [isLittleEndian](const char *data) {
+        const auto codeUnit = isLittleEndian ? LE::toInt<std::uint16_t>(data) : BE::toInt<std::uint16_t>(data);
+        return codeUnit < 0x80 ? static_cast<std::uint16_t>(CaseInsensitiveCharComparer::toLower(static_cast<unsigned char>(codeUnit))) : codeUnit;
+    };
+    for (auto i = std::size_t(); i != size1; i += 2) {
+        if (toLower(data1 + i) != toLower(data2 + i)) {
+            return false;
+        }
+    }
+    return true;
+}
 /// \endcond
 
 /*!
@@ -353,51 +423,53 @@ TagTextEncoding pickUtfEncoding(TagTextEncoding encoding1, TagTextEncoding encod
  */
 bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options) const
 {
-    // check whether meta-data is equal (except description)
-    if (!(options & TagValueComparisionFlags::IgnoreMetaData)) {
-        // check meta-data which always uses UTF-8 (everything but description)
-        if (m_mimeType != other.m_mimeType || m_locale != other.m_locale || m_flags != other.m_flags) {
-            return false;
-        }
-
-        // check description which might use different encodings
-        if (m_descEncoding == other.m_descEncoding || m_descEncoding == TagTextEncoding::Unspecified
-            || other.m_descEncoding == TagTextEncoding::Unspecified || m_desc.empty() || other.m_desc.empty()) {
-            if (!compareData(m_desc, other.m_desc, options & TagValueComparisionFlags::CaseInsensitive)) {
+    try {
+        // check whether meta-data is equal (except description)
+        if (!(options & TagValueComparisionFlags::IgnoreMetaData)) {
+            // check meta-data which always uses UTF-8 (everything but description)
+            if (m_mimeType != other.m_mimeType || m_locale != other.m_locale || m_flags != other.m_flags) {
                 return false;
             }
-        } else {
-            const auto utfEncodingToUse = pickUtfEncoding(m_descEncoding, other.m_descEncoding);
-            StringData str1, str2;
-            const char *data1, *data2;
-            size_t size1, size2;
-            if (m_descEncoding != utfEncodingToUse) {
-                const auto inputParameter = encodingParameter(m_descEncoding), outputParameter = encodingParameter(utfEncodingToUse);
-                str1 = convertString(
-                    inputParameter.first, outputParameter.first, m_desc.data(), m_desc.size(), outputParameter.second / inputParameter.second);
-                data1 = str1.first.get();
-                size1 = str1.second;
-            } else {
-                data1 = m_desc.data();
-                size1 = m_desc.size();
-            }
-            if (other.m_descEncoding != utfEncodingToUse) {
-                const auto inputParameter = encodingParameter(other.m_descEncoding), outputParameter = encodingParameter(utfEncodingToUse);
-                str2 = convertString(inputParameter.first, outputParameter.first, other.m_desc.data(), other.m_desc.size(),
-                    outputParameter.second / inputParameter.second);
-                data2 = str2.first.get();
-                size2 = str2.second;
+
+            // check description which might use different encodings
+            if (m_descEncoding == other.m_descEncoding || m_descEncoding == TagTextEncoding::Unspecified
+                || other.m_descEncoding == TagTextEncoding::Unspecified || m_desc.empty() || other.m_desc.empty()) {
+                if (!compareText(m_desc.data(), m_desc.size(), other.m_desc.data(), other.m_desc.size(),
+                        m_descEncoding == other.m_descEncoding ? m_descEncoding : TagTextEncoding::Unspecified,
+                        options & TagValueComparisionFlags::CaseInsensitive)) {
+                    return false;
+                }
             } else {
-                data2 = other.m_desc.data();
-                size2 = other.m_desc.size();
-            }
-            if (!compareData(data1, size1, data2, size2, options & TagValueComparisionFlags::CaseInsensitive)) {
-                return false;
+                const auto utfEncodingToUse = pickUtfEncoding(m_descEncoding, other.m_descEncoding);
+                StringData str1, str2;
+                const char *data1, *data2;
+                size_t size1, size2;
+                if (m_descEncoding != utfEncodingToUse) {
+                    const auto inputParameter = encodingParameter(m_descEncoding), outputParameter = encodingParameter(utfEncodingToUse);
+                    str1 = convertString(
+                        inputParameter.first, outputParameter.first, m_desc.data(), m_desc.size(), outputParameter.second / inputParameter.second);
+                    data1 = str1.first.get();
+                    size1 = str1.second;
+                } else {
+                    data1 = m_desc.data();
+                    size1 = m_desc.size();
+                }
+                if (other.m_descEncoding != utfEncodingToUse) {
+                    const auto inputParameter = encodingParameter(other.m_descEncoding), outputParameter = encodingParameter(utfEncodingToUse);
+                    str2 = convertString(inputParameter.first, outputParameter.first, other.m_desc.data(), other.m_desc.size(),
+                        outputParameter.second / inputParameter.second);
+                    data2 = str2.first.get();
+                    size2 = str2.second;
+                } else {
+                    data2 = other.m_desc.data();
+                    size2 = other.m_desc.size();
+                }
+                if (!compareText(data1, size1, data2, size2, utfEncodingToUse, options & TagValueComparisionFlags::CaseInsensitive)) {
+                    return false;
+                }
             }
         }
-    }
 
-    try {
         // check for equality if both types are identical
         if (m_type == other.m_type) {
             switch (m_type) {
@@ -408,7 +480,9 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
                 }
                 if (m_encoding == other.m_encoding || m_encoding == TagTextEncoding::Unspecified
                     || other.m_encoding == TagTextEncoding::Unspecified) {
-                    return compareData(other, options & TagValueComparisionFlags::CaseInsensitive);
+                    return compareText(m_ptr.get(), m_size, other.m_ptr.get(), other.m_size,
+                        m_encoding == other.m_encoding ? m_encoding : TagTextEncoding::Unspecified,
+                        options & TagValueComparisionFlags::CaseInsensitive);
                 }
 
                 // compare UTF-8 or UTF-16 representation of strings avoiding unnecessary conversions
@@ -432,7 +506,7 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
                     data2 = other.m_ptr.get();
                     size2 = other.m_size;
                 }
-                return compareData(data1, size1, data2, size2, options & TagValueComparisionFlags::CaseInsensitive);
+                return compareText(data1, size1, data2, size2, utfEncodingToUse, options & TagValueComparisionFlags::CaseInsensitive);
             }
             case TagDataType::PositionInSet:
                 return toPositionInSet() == other.toPositionInSet();
@@ -484,7 +558,9 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
         }
 
         // handle other types where an implicit conversion to string can be done by comparing the string representation
-        return compareData(toString(), other.toString(m_encoding), options & TagValueComparisionFlags::CaseInsensitive);
+        const auto str1 = toString(), str2 = other.toString(m_encoding);
+        return compareText(
+            str1.data(), str1.size(), str2.data(), str2.size(), m_encoding, options & TagValueComparisionFlags::CaseInsensitive);
 
     } catch (const ConversionException &) {
         return false;
@@ -566,7 +642,7 @@ std::int32_t TagValue::toInteger() const
         }
         throw ConversionException("Can not convert assigned data to integer because the data size is not appropriate.");
     case TagDataType::Popularity:
-        return static_cast<std::int32_t>(toPopularity().rating);
+        return ratingToInteger<std::int32_t>(toPopularity().rating);
     case TagDataType::UnsignedInteger: {
         const auto unsignedInteger = toUnsignedInteger();
         if (unsignedInteger > std::numeric_limits<std::int32_t>::max()) {
@@ -606,7 +682,7 @@ std::uint64_t TagValue::toUnsignedInteger() const
         return static_cast<std::uint64_t>(integer);
     }
     case TagDataType::Popularity:
-        return static_cast<std::uint64_t>(toPopularity().rating);
+        return ratingToInteger<std::uint64_t>(toPopularity().rating);
     case TagDataType::UnsignedInteger:
         if (m_size == sizeof(std::uint64_t)) {
             return *reinterpret_cast<std::uint64_t *>(m_ptr.get());
@@ -704,7 +780,7 @@ PositionInSet TagValue::toPositionInSet() const
         switch (m_size) {
         case sizeof(std::uint64_t): {
             const auto track = *(reinterpret_cast<std::uint64_t *>(m_ptr.get()));
-            if (track < std::numeric_limits<std::int32_t>::max()) {
+            if (track <= static_cast<std::uint64_t>(std::numeric_limits<std::int32_t>::max())) {
                 return PositionInSet(static_cast<std::int32_t>(track));
             }
         }
@@ -743,7 +819,7 @@ TimeSpan TagValue::toTimeSpan() const
         switch (m_size) {
         case sizeof(std::uint64_t): {
             const auto ticks = *(reinterpret_cast<std::uint64_t *>(m_ptr.get()));
-            if (ticks < static_cast<std::uint64_t>(std::numeric_limits<std::int64_t>::max())) {
+            if (ticks <= static_cast<std::uint64_t>(std::numeric_limits<std::int64_t>::max())) {
                 return TimeSpan(static_cast<std::int64_t>(ticks));
             }
         }
@@ -923,7 +999,7 @@ void TagValue::convertDataEncoding(TagTextEncoding encoding)
     if (m_encoding == encoding) {
         return;
     }
-    if (type() == TagDataType::Text) {
+    if (type() == TagDataType::Text && m_encoding != TagTextEncoding::Unspecified && encoding != TagTextEncoding::Unspecified) {
         StringData encodedData;
         switch (encoding) {
         case TagTextEncoding::Utf8:
@@ -975,7 +1051,7 @@ void TagValue::convertDescriptionEncoding(TagTextEncoding encoding)
     if (encoding == m_descEncoding) {
         return;
     }
-    if (m_desc.empty()) {
+    if (m_desc.empty() || m_descEncoding == TagTextEncoding::Unspecified || encoding == TagTextEncoding::Unspecified) {
         m_descEncoding = encoding;
         return;
     }
@@ -1123,7 +1199,7 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
     string regularStrRes;
     switch (m_type) {
     case TagDataType::Text:
-        if (encoding == TagTextEncoding::Unspecified || encoding == dataEncoding()) {
+        if (encoding == TagTextEncoding::Unspecified || dataEncoding() == TagTextEncoding::Unspecified || encoding == dataEncoding()) {
             result.assign(reinterpret_cast<const char16_t *>(m_ptr.get()), m_size / sizeof(char16_t));
         } else {
             StringData encodedData;
@@ -1190,8 +1266,8 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
         throw ConversionException(argsToString("Can not convert ", tagDataTypeString(m_type), " to string."));
     }
     if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
-        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), result.size())
-                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), result.size());
+        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), regularStrRes.size())
+                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), regularStrRes.size());
         result.assign(reinterpret_cast<const char16_t *>(encodedData.first.get()), encodedData.second / sizeof(const char16_t));
     }
 }
@@ -1218,7 +1294,7 @@ void TagValue::assignText(const char *text, std::size_t textSize, TagTextEncodin
         return;
     }
 
-    if (convertTo == TagTextEncoding::Unspecified || textEncoding == convertTo) {
+    if (convertTo == TagTextEncoding::Unspecified || textEncoding == TagTextEncoding::Unspecified || textEncoding == convertTo) {
         m_ptr = make_unique<char[]>(m_size = textSize);
         copy(text, text + textSize, m_ptr.get());
         return;
@@ -1292,7 +1368,7 @@ void TagValue::assignData(const char *data, size_t length, TagDataType type, Tag
     if (type == TagDataType::Text) {
         stripBom(data, length, encoding);
     }
-    if (length > m_size) {
+    if (length > m_size || !m_ptr) {
         m_ptr = make_unique<char[]>(length);
     }
     if (length) {
-- 
2.43.0


From fe56aba1248550779d53979795523c10421f36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:53 +0000
Subject: [PATCH 062/117] fix: keep time when converting a date to a wide
 string

---
 tagvalue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 4ddf537..9edb615 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1251,7 +1251,7 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
         regularStrRes = toTimeSpan().toString();
         break;
     case TagDataType::DateTime:
-        regularStrRes = toDateTime().toString(DateTimeOutputFormat::IsoOmittingDefaultComponents);
+        regularStrRes = toDateTime().toIsoString();
         break;
     case TagDataType::Popularity:
         regularStrRes = toPopularity().toString();
-- 
2.43.0


From 1d1953e028617a9ce361081988ff4022db2be8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:01 +0000
Subject: [PATCH 063/117] fix: read 4-bit entries of compact sample size tables
 and reject a field size of zero

---
 mp4/mp4track.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 7fd8700..57d87dd 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1995,19 +1995,20 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                 diag.emplace_back(DiagLevel::Critical, "The stsz atom is truncated. It stores less entries as denoted.", context);
                 actualSampleCount = static_cast<std::uint64_t>(floor(static_cast<double>(actualSampleSizeTableSize) / (0.125 * fieldSize)));
             }
-            m_sampleSizes.reserve(actualSampleCount);
+            if (fieldSize) {
+                m_sampleSizes.reserve(actualSampleCount);
+            }
             std::uint32_t i = 1;
             switch (fieldSize) {
             case 4:
                 for (; i <= actualSampleCount; i += 2) {
-                    std::uint8_t val = reader.readByte();
+                    const std::uint8_t val = reader.readByte();
                     m_sampleSizes.push_back(val >> 4);
-                    m_sampleSizes.push_back(val & 0xF0);
-                    m_size += (val >> 4) + (val & 0xF0);
-                }
-                if (i <= actualSampleCount + 1) {
-                    m_sampleSizes.push_back(reader.readByte() >> 4);
                     m_size += m_sampleSizes.back();
+                    if (i < actualSampleCount) {
+                        m_sampleSizes.push_back(val & 0x0F);
+                        m_size += m_sampleSizes.back();
+                    }
                 }
                 break;
             case 8:
-- 
2.43.0


From 71e9454f9621bc8ae535d42fb89d0e37b049d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:29 +0000
Subject: [PATCH 064/117] fix: preserve additional children of the MP4 media
 atom when re-writing tracks

---
 mp4/mp4track.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 57d87dd..5d7bdab 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1123,6 +1123,22 @@ void Mp4Track::addInfo(const Av1Configuration &av1Config, AbstractTrack &track)
     throw NotImplementedException();
 }
 
+/// \brief Returns whether the child of the "mdia"-atom with the specified \a atomId is generated when making a track (and not copied as-is).
+/// \remarks Padding is not preserved.
+static bool isGeneratedMediaChild(std::uint32_t atomId)
+{
+    switch (atomId) {
+    case Mp4AtomIds::MediaHeader:
+    case Mp4AtomIds::HandlerReference:
+    case Mp4AtomIds::MediaInformation:
+    case Mp4AtomIds::Free:
+    case Mp4AtomIds::Skip:
+        return true;
+    default:
+        return false;
+    }
+}
+
 /*!
  * \brief Buffers all atoms required by the makeTrack() method.
  *
@@ -1142,6 +1158,13 @@ void Mp4Track::bufferTrackAtoms(Diagnostics &diag)
         }
         trakChild->makeBuffer();
     }
+    if (m_mdiaAtom) {
+        for (Mp4Atom *mdiaChild = m_mdiaAtom->firstChild(); mdiaChild; mdiaChild = mdiaChild->nextSibling()) {
+            if (!isGeneratedMediaChild(mdiaChild->id())) {
+                mdiaChild->makeBuffer();
+            }
+        }
+    }
     if (m_minfAtom) {
         for (Mp4Atom *childAtom = m_minfAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
             if (childAtom->id() == Mp4AtomIds::SampleTable) {
@@ -1234,6 +1257,15 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
     }
     // ... mdia header + hdlr total size + minf header
     size += 8 + (33 + m_name.size()) + 8;
+    // ... children of mdia beside mdhd, hdlr and minf
+    if (m_mdiaAtom) {
+        for (Mp4Atom *mdiaChild = m_mdiaAtom->firstChild(); mdiaChild; mdiaChild = mdiaChild->nextSibling()) {
+            if (isGeneratedMediaChild(mdiaChild->id())) {
+                continue;
+            }
+            size += mdiaChild->totalSize();
+        }
+    }
     // ... minf children
     auto dinfAtomWritten = false;
     if (m_minfAtom) {
@@ -1476,6 +1508,14 @@ void Mp4Track::makeMedia(Diagnostics &diag)
     for (int i = 0; i < 3; ++i)
         writer().writeUInt32BE(0); // reserved
     writer().writeTerminatedString(m_name);
+    // copy other existing atoms (e.g. extended language tag) as-is
+    if (m_mdiaAtom) {
+        for (Mp4Atom *mdiaChild = m_mdiaAtom->firstChild(); mdiaChild; mdiaChild = mdiaChild->nextSibling()) {
+            if (!isGeneratedMediaChild(mdiaChild->id())) {
+                mdiaChild->copyPreferablyFromBuffer(outputStream(), diag, nullptr);
+            }
+        }
+    }
     // write minf atom
     makeMediaInfo(diag);
     // write size (of mdia atom)
-- 
2.43.0


From 1bc0847ed51a58c5e56ce517f368aaedc27c2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:05 +0000
Subject: [PATCH 065/117] fix: return first assigned tag value when a preceding
 value has been removed

---
 fieldbasedtag.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index 6d95b6c..24b5c37 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -122,8 +122,19 @@ template <class ImplementationType> TagTextEncoding FieldMapBasedTag<Implementat
  */
 template <class ImplementationType> const TagValue &FieldMapBasedTag<ImplementationType>::internallyGetValue(const IdentifierType &id) const
 {
-    auto i = m_fields.find(id);
-    return i != m_fields.end() ? i->second.value() : TagValue::empty();
+    // return the first assigned value
+    // note: There might be an empty value in front of it because the value has been removed.
+    auto values = std::vector<const TagValue *>();
+    for (auto range = m_fields.equal_range(id); range.first != range.second; ++range.first) {
+        if (const auto &value = range.first->second.value(); !value.isEmpty()) {
+            return value;
+        }
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(range.first->second, values);
+        if (!values.empty()) {
+            return *values.front();
+        }
+    }
+    return TagValue::empty();
 }
 
 /*!
@@ -299,12 +310,7 @@ template <class ImplementationType> inline bool FieldMapBasedTag<ImplementationT
  */
 template <class ImplementationType> bool FieldMapBasedTag<ImplementationType>::internallyHasField(const IdentifierType &id) const
 {
-    for (auto range = m_fields.equal_range(id); range.first != range.second; ++range.first) {
-        if (!range.first->second.value().isEmpty()) {
-            return true;
-        }
-    }
-    return false;
+    return !static_cast<const ImplementationType *>(this)->internallyGetValue(id).isEmpty();
 }
 
 /*!
@@ -340,8 +346,11 @@ template <class ImplementationType> inline auto FieldMapBasedTag<ImplementationT
 template <class ImplementationType> std::size_t FieldMapBasedTag<ImplementationType>::fieldCount() const
 {
     auto count = std::size_t(0);
+    auto values = std::vector<const TagValue *>();
     for (const auto &field : m_fields) {
-        if (!field.second.value().isEmpty()) {
+        values.clear();
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(field.second, values);
+        if (!values.empty()) {
             ++count;
         }
     }
-- 
2.43.0


From afdcbfdd7716ec07ebcbefd2b0618181e8d73afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:02 +0000
Subject: [PATCH 066/117] fix: insert all fields of another tag, not only the
 first one of each ID

---
 fieldbasedtag.h  | 87 ++++++++++++++++++++++++++++++++++++++----------
 id3/id3v2tag.cpp | 31 +++++++++++++++++
 id3/id3v2tag.h   |  1 +
 mp4/mp4tag.cpp   |  9 +++++
 mp4/mp4tag.h     |  1 +
 5 files changed, 112 insertions(+), 17 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index 24b5c37..83cb894 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -5,6 +5,7 @@
 
 #include <functional>
 #include <map>
+#include <set>
 
 namespace TagParser {
 
@@ -72,6 +73,7 @@ protected:
     bool internallySetValue(const IdentifierType &id, const TagValue &value);
     bool internallySetValues(const IdentifierType &id, const std::vector<TagValue> &values);
     bool internallyHasField(const IdentifierType &id) const;
+    bool internallyIsSameField(const FieldType &field, const FieldType &otherField) const;
     // no default implementation: IdentifierType internallyGetFieldId(KnownField field) const;
     // no default implementation: KnownField internallyGetKnownField(const IdentifierType &id) const;
     TagDataType internallyGetProposedDataType(const IdentifierType &id) const;
@@ -400,6 +402,17 @@ template <class ImplementationType> inline TagDataType FieldMapBasedTag<Implemen
     return static_cast<ImplementationType *>(this)->determineProposedDataType(id);
 }
 
+/*!
+ * \brief Default implementation for checking whether a field is supposed to be overwritten by another field with the same ID in insertFields().
+ * \remarks Shadow in subclass to provide custom implementation.
+ */
+template <class ImplementationType>
+bool FieldMapBasedTag<ImplementationType>::internallyIsSameField(const FieldType &field, const FieldType &otherField) const
+{
+    return field.isTypeInfoAssigned() == otherField.isTypeInfoAssigned()
+        && (!field.isTypeInfoAssigned() || field.typeInfo() == otherField.typeInfo());
+}
+
 /*!
  * \brief Inserts all fields \a from another tag of the same field type and compare function.
  * \param from Specifies the tag the fields should be inserted from.
@@ -409,32 +422,72 @@ template <class ImplementationType> inline TagDataType FieldMapBasedTag<Implemen
 template <class ImplementationType>
 std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBasedTag<ImplementationType> &from, bool overwrite)
 {
-    auto fieldsInserted = std::size_t(0);
+    const auto *const self = static_cast<const ImplementationType *>(this);
+    auto values = std::vector<const TagValue *>();
+    const auto isEmpty = [self, &values](const FieldType &field) {
+        values.clear();
+        self->internallyGetValuesFromField(field, values);
+        return values.empty();
+    };
+
+    // assign/insert fields
+    // note: Fields which have just been inserted must not be considered as already existing. The other tag might contain
+    //       multiple fields with the same ID.
+    auto insertedFields = std::set<const FieldType *>();
     for (const auto &pair : from.fields()) {
         const FieldType &fromField = pair.second;
-        if (fromField.value().isEmpty()) {
+        if (isEmpty(fromField)) {
             continue;
         }
-        bool fieldInserted = false;
-        auto range = fields().equal_range(fromField.id());
-        for (auto i = range.first; i != range.second; ++i) {
-            FieldType &ownField = i->second;
-            if ((fromField.isTypeInfoAssigned() && ownField.isTypeInfoAssigned() && fromField.typeInfo() == ownField.typeInfo())
-                || (!fromField.isTypeInfoAssigned() && !ownField.isTypeInfoAssigned())) {
-                if (overwrite || ownField.value().isEmpty()) {
-                    ownField = fromField;
-                    ++fieldsInserted;
-                }
-                fieldInserted = true;
+        auto *destination = static_cast<FieldType *>(nullptr);
+        auto keepExisting = false;
+        for (auto range = fields().equal_range(fromField.id()); range.first != range.second; ++range.first) {
+            FieldType &ownField = range.first->second;
+            if (insertedFields.find(&ownField) != insertedFields.end() || !self->internallyIsSameField(ownField, fromField)) {
                 continue;
             }
+            if (!overwrite && !isEmpty(ownField)) {
+                keepExisting = true;
+                break;
+            }
+            if (!destination) {
+                destination = &ownField;
+            }
+        }
+        if (keepExisting) {
+            continue;
+        }
+        if (destination) {
+            *destination = fromField;
+        } else {
+            destination = &fields().insert(std::make_pair(fromField.id(), fromField))->second;
         }
-        if (!fieldInserted) {
-            fields().insert(std::make_pair(fromField.id(), fromField));
-            ++fieldsInserted;
+        insertedFields.emplace(destination);
+    }
+
+    // remove remaining existing fields which are supposed to be overwritten
+    if (overwrite && !insertedFields.empty()) {
+        for (auto i = fields().begin(); i != fields().end();) {
+            const auto isOverwritten = [&] {
+                if (insertedFields.find(&i->second) != insertedFields.end()) {
+                    return false;
+                }
+                for (auto range = fields().equal_range(i->first); range.first != range.second; ++range.first) {
+                    if (insertedFields.find(&range.first->second) != insertedFields.end()
+                        && self->internallyIsSameField(i->second, range.first->second)) {
+                        return true;
+                    }
+                }
+                return false;
+            }();
+            if (isOverwritten) {
+                i = fields().erase(i);
+            } else {
+                ++i;
+            }
         }
     }
-    return fieldsInserted;
+    return insertedFields.size();
 }
 
 template <class ImplementationType> std::size_t FieldMapBasedTag<ImplementationType>::insertValues(const Tag &from, bool overwrite)
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index cb636d3..910fb75 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -91,6 +91,37 @@ void Id3v2Tag::internallyGetValuesFromField(const Id3v2Tag::FieldType &field, st
     }
 }
 
+/*!
+ * \brief Distinguishes frames which are allowed to be present multiple times by the attributes which must be unique.
+ */
+bool Id3v2Tag::internallyIsSameField(const Id3v2Tag::FieldType &field, const Id3v2Tag::FieldType &otherField) const
+{
+    if (!CRTPBase::internallyIsSameField(field, otherField)) {
+        return false;
+    }
+    const auto &value = field.value(), &otherValue = otherField.value();
+    using namespace Id3v2FrameIds;
+    switch (field.id()) {
+    case sComment:
+    case lComment:
+    case sUnsynchronizedLyrics:
+    case lUnsynchronizedLyrics:
+    case sSynchronizedLyrics:
+    case lSynchronizedLyrics:
+        if (value.locale().someAbbreviatedName() != otherValue.locale().someAbbreviatedName()) {
+            return false;
+        }
+        [[fallthrough]];
+    case sCover:
+    case lCover:
+        return TagValue(value.description(), value.descriptionEncoding()) == TagValue(otherValue.description(), otherValue.descriptionEncoding());
+    default:
+        // distinguish user-defined and unknown frames by their data
+        return isTextFrame(field.id()) || isUrlFrame(field.id()) || internallyGetKnownField(field.id()) != KnownField::Invalid
+            || value == otherValue;
+    }
+}
+
 /*!
  * \brief Uses default implementation for non-text frames and applies special handling to text frames.
  *
diff --git a/id3/id3v2tag.h b/id3/id3v2tag.h
index 15042c1..5273597 100644
--- a/id3/id3v2tag.h
+++ b/id3/id3v2tag.h
@@ -116,6 +116,7 @@ protected:
     KnownField internallyGetKnownField(const IdentifierType &id) const;
     TagDataType internallyGetProposedDataType(const std::uint32_t &id) const;
     void internallyGetValuesFromField(const FieldType &field, std::vector<const TagValue *> &values) const;
+    bool internallyIsSameField(const FieldType &field, const FieldType &otherField) const;
     bool internallySetValues(const IdentifierType &id, const std::vector<TagValue> &values);
 
 private:
diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 9de8fbd..1b5b566 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -284,6 +284,15 @@ void Mp4Tag::internallyGetValuesFromField(const Mp4Tag::FieldType &field, std::v
     }
 }
 
+/*!
+ * \brief Distinguishes extended fields by their "mean" and "name" as well.
+ */
+bool Mp4Tag::internallyIsSameField(const Mp4Tag::FieldType &field, const Mp4Tag::FieldType &otherField) const
+{
+    return (field.id() != Mp4TagAtomIds::Extended || (field.mean() == otherField.mean() && field.name() == otherField.name()))
+        && CRTPBase::internallyIsSameField(field, otherField);
+}
+
 bool Mp4Tag::setValue(KnownField field, const TagValue &value)
 {
     switch (field) {
diff --git a/mp4/mp4tag.h b/mp4/mp4tag.h
index 587bf47..1206d21 100644
--- a/mp4/mp4tag.h
+++ b/mp4/mp4tag.h
@@ -128,6 +128,7 @@ protected:
     IdentifierType internallyGetFieldId(KnownField field) const;
     KnownField internallyGetKnownField(const IdentifierType &id) const;
     void internallyGetValuesFromField(const FieldType &field, std::vector<const TagValue *> &values) const;
+    bool internallyIsSameField(const FieldType &field, const FieldType &otherField) const;
 };
 
 /*!
-- 
2.43.0


From 1078b40d27e4a83ed5960540d6367c8bde568581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:19 +0000
Subject: [PATCH 067/117] fix: transfer all fields and values when inserting
 values of a tag of another format

---
 tag.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tag.cpp b/tag.cpp
index 065e98b..2a25369 100644
--- a/tag.cpp
+++ b/tag.cpp
@@ -89,14 +89,23 @@ bool Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 std::size_t Tag::insertValues(const Tag &from, bool overwrite)
 {
     auto count = std::size_t(0);
-    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(KnownField::Description); i <= last; ++i) {
-        auto field = static_cast<KnownField>(i);
+    for (auto field = firstKnownField; field != KnownField::Invalid; field = nextKnownField(field)) {
         const TagValue &ownValue = value(field);
-        if (overwrite || ownValue.isEmpty()) {
-            const TagValue &otherValue = from.value(field);
-            if (!otherValue.isEmpty() && setValue(field, otherValue)) {
-                ++count;
-            }
+        if (!overwrite && !ownValue.isEmpty()) {
+            continue;
+        }
+        auto otherValues = std::vector<TagValue>();
+        for (const auto *const otherValue : from.values(field)) {
+            otherValues.emplace_back(*otherValue);
+        }
+        if (otherValues.empty()) {
+            continue;
+        }
+        if (!supportsMultipleValues(field)) {
+            otherValues.resize(1);
+        }
+        if (setValues(field, otherValues)) {
+            count += otherValues.size();
         }
     }
     return count;
-- 
2.43.0


From 3e3f7712ee74d56a38150779fcba9148f92c2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:25 +0000
Subject: [PATCH 068/117] fix: return first assigned value of extended MP4 tag
 fields

---
 mp4/mp4tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 1b5b566..597ff93 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -109,7 +109,7 @@ const TagValue &Mp4Tag::value(std::string_view mean, std::string_view name) cons
 {
     auto range = fields().equal_range(Mp4TagAtomIds::Extended);
     for (auto i = range.first; i != range.second; ++i) {
-        if (i->second.mean() == mean && i->second.name() == name) {
+        if (i->second.mean() == mean && i->second.name() == name && !i->second.value().isEmpty()) {
             return i->second.value();
         }
     }
-- 
2.43.0


From 7b102b7a466482a9e3495f88541a9770865c9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:33 +0000
Subject: [PATCH 069/117] fix: map ISRC (ID3v2) and language (Vorbis comment)
 in both directions

---
 id3/id3v2tag.cpp         | 4 ++++
 vorbis/vorbiscomment.cpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 910fb75..5afb9c7 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -238,6 +238,8 @@ Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
             return lOriginalMediaType;
         case KnownField::Mood:
             return lMood;
+        case KnownField::ISRC:
+            return lISRC;
         case KnownField::InitialKey:
             return lKey;
         case KnownField::PublisherWebpage:
@@ -306,6 +308,8 @@ Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
             return sCopyright;
         case KnownField::OriginalMediaType:
             return sOriginalMediaType;
+        case KnownField::ISRC:
+            return sISRC;
         case KnownField::InitialKey:
             return sKey;
         case KnownField::PublisherWebpage:
diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index f6167eb..411e154 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -144,6 +144,7 @@ KnownField VorbisComment::internallyGetKnownField(const IdentifierType &id) cons
          { grouping(), KnownField::Grouping },
          { label(), KnownField::RecordLabel },
          { performer(), KnownField::Performers },
+         { language(), KnownField::Language },
          { lyricist(), KnownField::Lyricist },
          { lyrics(), KnownField::Lyrics },
          { albumArtist(), KnownField::AlbumArtist },
-- 
2.43.0


From 1c03d012071c256794f2125b9d542847080550c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:06 +0000
Subject: [PATCH 070/117] fix: handle the vendor of Vorbis comments
 consistently when accessed as field

---
 vorbis/vorbiscomment.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 vorbis/vorbiscomment.h   | 13 ++++++++++---
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 411e154..9623353 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -45,6 +45,46 @@ bool VorbisComment::setValue(KnownField field, const TagValue &value)
     }
 }
 
+std::vector<const TagValue *> VorbisComment::values(KnownField field) const
+{
+    switch (field) {
+    case KnownField::Vendor:
+        return Tag::values(field);
+    default:
+        return FieldMapBasedTag<VorbisComment>::values(field);
+    }
+}
+
+bool VorbisComment::setValues(KnownField field, const std::vector<TagValue> &values)
+{
+    switch (field) {
+    case KnownField::Vendor:
+        return Tag::setValues(field, values);
+    default:
+        return FieldMapBasedTag<VorbisComment>::setValues(field, values);
+    }
+}
+
+bool VorbisComment::hasField(KnownField field) const
+{
+    switch (field) {
+    case KnownField::Vendor:
+        return !vendor().isEmpty();
+    default:
+        return FieldMapBasedTag<VorbisComment>::hasField(field);
+    }
+}
+
+bool VorbisComment::supportsField(KnownField field) const
+{
+    switch (field) {
+    case KnownField::Vendor:
+        return true;
+    default:
+        return FieldMapBasedTag<VorbisComment>::supportsField(field);
+    }
+}
+
 VorbisComment::IdentifierType VorbisComment::internallyGetFieldId(KnownField field) const
 {
     using namespace VorbisCommentIds;
diff --git a/vorbis/vorbiscomment.h b/vorbis/vorbiscomment.h
index af73d32..6cee5d4 100644
--- a/vorbis/vorbiscomment.h
+++ b/vorbis/vorbiscomment.h
@@ -40,6 +40,13 @@ public:
     const TagValue &value(KnownField field) const override;
     using FieldMapBasedTag<VorbisComment>::setValue;
     bool setValue(KnownField field, const TagValue &value) override;
+    using FieldMapBasedTag<VorbisComment>::values;
+    std::vector<const TagValue *> values(KnownField field) const override;
+    using FieldMapBasedTag<VorbisComment>::setValues;
+    bool setValues(KnownField field, const std::vector<TagValue> &values) override;
+    using FieldMapBasedTag<VorbisComment>::hasField;
+    bool hasField(KnownField field) const override;
+    bool supportsField(KnownField field) const override;
 
     void parse(OggIterator &iterator, VorbisCommentFlags flags, Diagnostics &diag);
     void parse(OggIterator &iterator, VorbisCommentFlags flags, std::uint64_t &padding, Diagnostics &diag);
@@ -95,12 +102,12 @@ inline void VorbisComment::setVendor(const TagValue &vendor)
 }
 
 /*!
- * \brief Allows multiple values for all fields.
+ * \brief Allows multiple values for all fields (except the vendor which is not stored as regular field).
  * \remarks "Field names are not required to be unique (occur once) within a comment header."
  */
-inline bool VorbisComment::supportsMultipleValues(KnownField) const
+inline bool VorbisComment::supportsMultipleValues(KnownField field) const
 {
-    return true;
+    return field != KnownField::Vendor;
 }
 
 } // namespace TagParser
-- 
2.43.0


From 5445fa464154f0df66772ce40c2c93e765ffcdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:39 +0000
Subject: [PATCH 071/117] fix: keep genre and record label of MP4 tags unique
 when inserting values of another MP4 tag

---
 fieldbasedtag.h |  2 +-
 mp4/mp4tag.cpp  | 36 ++++++++++++++++++++++++++++++++++++
 mp4/mp4tag.h    |  1 +
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index 83cb894..9f7c1b2 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -61,7 +61,7 @@ public:
     using Tag::proposedDataType;
     TagDataType proposedDataType(const IdentifierType &id) const;
     std::size_t insertFields(const FieldMapBasedTag<ImplementationType> &from, bool overwrite);
-    std::size_t insertValues(const Tag &from, bool overwrite);
+    std::size_t insertValues(const Tag &from, bool overwrite) override;
     void ensureTextValuesAreProperlyEncoded();
 
 protected:
diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 597ff93..99e92dd 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -8,6 +8,8 @@
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/binarywriter.h>
 
+#include <algorithm>
+
 using namespace std;
 using namespace CppUtilities;
 
@@ -391,6 +393,40 @@ bool Mp4Tag::hasField(KnownField field) const
     }
 }
 
+/*!
+ * \brief Inserts all compatible values \a from another Tag.
+ * \remarks Takes into account that the genre and the record label might be stored in two different ways.
+ */
+std::size_t Mp4Tag::insertValues(const Tag &from, bool overwrite)
+{
+    if (type() != from.type() || this == &from) {
+        return FieldMapBasedTag<Mp4Tag>::insertValues(from, overwrite);
+    }
+    if (overwrite) {
+        // get rid of existing values regardless of how they are stored
+        for (const auto field : { KnownField::Genre, KnownField::RecordLabel }) {
+            if (from.hasField(field)) {
+                setValues(field, std::vector<TagValue>());
+            }
+        }
+        return FieldMapBasedTag<Mp4Tag>::insertValues(from, overwrite);
+    }
+    using namespace Mp4TagAtomIds;
+    const auto hasGenre = FieldMapBasedTag<Mp4Tag>::hasField(Genre), hasPreDefinedGenre = FieldMapBasedTag<Mp4Tag>::hasField(PreDefinedGenre);
+    const auto hasOnlyExtendedLabel = hasField(KnownField::RecordLabel) && !FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::RecordLabel);
+    auto inserted = FieldMapBasedTag<Mp4Tag>::insertValues(from, overwrite);
+    const auto discard = [this, &inserted](IdentifierType id) { inserted -= std::min(inserted, fields().erase(id)); };
+    if (hasGenre && !hasPreDefinedGenre) {
+        discard(PreDefinedGenre);
+    } else if (hasPreDefinedGenre && !hasGenre) {
+        discard(Genre);
+    }
+    if (hasOnlyExtendedLabel) {
+        discard(Mp4TagAtomIds::RecordLabel);
+    }
+    return inserted;
+}
+
 /*!
  * \brief Parses tag information from the specified \a metaAtom.
  *
diff --git a/mp4/mp4tag.h b/mp4/mp4tag.h
index 1206d21..43c2d9e 100644
--- a/mp4/mp4tag.h
+++ b/mp4/mp4tag.h
@@ -118,6 +118,7 @@ public:
     bool setValue(std::string_view mean, std::string_view name, const TagValue &value);
     using FieldMapBasedTag<Mp4Tag>::hasField;
     bool hasField(KnownField value) const override;
+    std::size_t insertValues(const Tag &from, bool overwrite) override;
     bool supportsMultipleValues(KnownField) const override;
 
     void parse(Mp4Atom &metaAtom, Diagnostics &diag);
-- 
2.43.0


From 1194e17d7c6326572a633ee5ba430baea05ca828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:50 +0000
Subject: [PATCH 072/117] fix: keep zero bytes of signature when skipping junk

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 2e8c06f..343aa56 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -177,6 +177,8 @@ startParsingSignature:
         for (buffOffset = buff; buffOffset != buffEnd && !(*buffOffset); ++buffOffset, ++bytesSkipped)
             ;
         if (bytesSkipped >= 4) {
+            // don't skip up to 3 zero bytes which are already part of the signature
+            bytesSkipped -= 3;
         skipJunkBytes:
             m_containerOffset += static_cast<std::streamoff>(bytesSkipped);
             m_paddingSize += bytesSkipped;
-- 
2.43.0


From 0fdac82851487c0261db09667a7ea9b3ad461028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:50 +0000
Subject: [PATCH 073/117] fix: recognise signatures in buffers with less than 8
 bytes

---
 signature.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/signature.cpp b/signature.cpp
index b4675ef..d7b4b12 100644
--- a/signature.cpp
+++ b/signature.cpp
@@ -4,6 +4,7 @@
 #include <c++utilities/conversion/binaryconversion.h>
 
 #include <cstdint>
+#include <string>
 
 using namespace CppUtilities;
 
@@ -113,18 +114,16 @@ enum Sig16 : std::uint16_t {
 ContainerFormat parseSignature(std::string_view buffer)
 {
     // read signature
-    std::uint64_t sig = 0;
-    if (buffer.size() >= 8) {
-        sig = BE::toInt<std::uint64_t>(buffer.data());
-    } else if (buffer.size() >= 4) {
-        sig = BE::toInt<std::uint32_t>(buffer.data());
-        sig <<= 4;
-    } else if (buffer.size() >= 2) {
-        sig = BE::toInt<std::uint16_t>(buffer.data());
-        sig <<= 6;
-    } else {
+    if (buffer.size() < 2) {
         return ContainerFormat::Unknown;
     }
+    if (buffer.size() < 8) {
+        // pad the buffer with bytes which are not part of any signature at the relevant positions
+        auto paddedBuffer = std::string(8, '\xAA');
+        buffer.copy(paddedBuffer.data(), buffer.size());
+        return parseSignature(paddedBuffer);
+    }
+    const auto sig = BE::toInt<std::uint64_t>(buffer.data());
     // return corresponding container format
     switch (sig) { // check 64-bit signatures
     case ApeTag:
-- 
2.43.0


From 147a086612e05b8ebe05c677f1f72667b2343ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 074/117] fix: parse AVC parameter sets with scaling lists and
 emulation prevention bytes correctly

---
 avc/avcconfiguration.cpp |  6 +++---
 avc/avcinfo.cpp          | 42 ++++++++++++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/avc/avcconfiguration.cpp b/avc/avcconfiguration.cpp
index 8b25fab..faaa124 100644
--- a/avc/avcconfiguration.cpp
+++ b/avc/avcconfiguration.cpp
@@ -36,7 +36,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
     naluSizeLength = (reader.readByte() & 0x03) + 1;
 
     // read SPS info entries
-    std::uint8_t spsEntryCount = reader.readByte() & 0x0f;
+    std::uint8_t spsEntryCount = reader.readByte() & 0x1f;
     std::uint8_t ignoredSpsEntries = 0;
     spsInfos.reserve(spsEntryCount);
     for (; spsEntryCount; --spsEntryCount) {
@@ -55,7 +55,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
         } catch (const Failure &) {
             error = true;
         }
-        maxSize -= spsInfos.back().size;
+        maxSize -= SpsInfo::minSize + spsInfos.back().size;
         if (error) {
             spsInfos.pop_back();
             ++ignoredSpsEntries;
@@ -82,7 +82,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
         } catch (const Failure &) {
             error = true;
         }
-        maxSize -= ppsInfos.back().size;
+        maxSize -= PpsInfo::minSize + ppsInfos.back().size;
         if (error) {
             ppsInfos.pop_back();
             ++ignoredPpsEntries;
diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 1461933..da61562 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -31,6 +31,34 @@ static sgolomb readSignedExpGolomb(BitReader &reader)
     const auto value = static_cast<std::int64_t>(readUnsignedExpGolomb<std::uint64_t>(reader));
     return static_cast<sgolomb>((value % 2) ? (value + 1) / 2 : -(value / 2));
 }
+
+/*!
+ * \brief Reads \a size bytes into \a buffer omitting emulation prevention bytes.
+ * \returns Returns the number of bytes \a buffer contains.
+ */
+static std::size_t readRbsp(BinaryReader &reader, char *buffer, std::size_t size)
+{
+    reader.read(buffer, static_cast<std::streamsize>(size));
+    auto rbspSize = std::size_t(), zeroBytes = std::size_t();
+    for (auto i = std::size_t(); i != size; ++i) {
+        if (zeroBytes >= 2 && buffer[i] == 0x03) {
+            zeroBytes = 0;
+            continue;
+        }
+        zeroBytes = buffer[i] ? 0 : zeroBytes + 1;
+        buffer[rbspSize++] = buffer[i];
+    }
+    return rbspSize;
+}
+
+static void skipScalingList(BitReader &reader, std::size_t size)
+{
+    auto lastScale = std::int64_t(8), nextScale = std::int64_t(8);
+    for (auto i = std::size_t(); i != size && nextScale; ++i) {
+        nextScale = (lastScale + readSignedExpGolomb(reader) + 256) % 256;
+        lastScale = nextScale ? nextScale : lastScale;
+    }
+}
 /// \endcond
 
 /*!
@@ -50,8 +78,7 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
 
     // buffer data for reading with BitReader
     auto buffer = make_unique<char[]>(size);
-    reader.read(buffer.get(), size);
-    BitReader bitReader(buffer.get(), size);
+    BitReader bitReader(buffer.get(), readRbsp(reader, buffer.get(), size));
 
     try {
         // read general values
@@ -83,14 +110,10 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
             readUnsignedExpGolomb<std::uint8_t>(bitReader); // bit depth chroma minus8
             bitReader.skipBits(1); // qpprime y zero transform bypass flag
             if (bitReader.readBit()) { // sequence scaling matrix present flag
-                for (std::uint8_t i = 0; i < 8; ++i) {
+                for (std::uint8_t i = 0; i < (chromaFormatIndication == 3 ? 12 : 8); ++i) {
                     // TODO: store values
                     if (bitReader.readBit()) { // sequence scaling list present
-                        if (i < 6) {
-                            bitReader.skipBits(16); // scalingList4x4[i]
-                        } else {
-                            bitReader.skipBits(64); // scalingList8x8[i - 6]
-                        }
+                        skipScalingList(bitReader, i < 6 ? 16 : 64); // scalingList4x4[i] or scalingList8x8[i - 6]
                     }
                 }
             }
@@ -247,8 +270,7 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
 
     // buffer data for reading with BitReader
     auto buffer = make_unique<char[]>(size);
-    reader.read(buffer.get(), size);
-    BitReader bitReader(buffer.get(), size);
+    BitReader bitReader(buffer.get(), readRbsp(reader, buffer.get(), size));
 
     try {
         // read general values
-- 
2.43.0


From a4232fe8e9ba7f37d5017c55df54f1592989fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 075/117] fix: return correct MPEG version of ADTS frames

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 88fce67..61fef79 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -57,7 +57,7 @@ constexpr bool AdtsFrame::isValid() const
  */
 constexpr bool AdtsFrame::isMpeg4() const
 {
-    return m_header1 & 0x8u;
+    return (m_header1 & 0x8u) == 0;
 }
 
 /*!
-- 
2.43.0


From 6e3ac1ae2cbc3f51f5ff338e6e40ec2cff0c4f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 076/117] fix: consider time base when determining frame rate
 and duration of IVF files

---
 ivf/ivfframe.cpp  | 4 ++--
 ivf/ivfstream.cpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ivf/ivfframe.cpp b/ivf/ivfframe.cpp
index cce1104..ace4d6f 100644
--- a/ivf/ivfframe.cpp
+++ b/ivf/ivfframe.cpp
@@ -22,8 +22,8 @@ void IvfFrame::parseHeader(CppUtilities::BinaryReader &reader, Diagnostics &diag
 {
     CPP_UTILITIES_UNUSED(diag)
     startOffset = static_cast<std::uint64_t>(reader.stream()->tellg());
-    size = reader.readUInt32BE();
-    timestamp = reader.readUInt64BE();
+    size = reader.readUInt32LE();
+    timestamp = reader.readUInt64LE();
 }
 
 } // namespace TagParser
diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index 7711266..d2cbe87 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -46,13 +46,14 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     m_formatId = interpretIntegerAsString(formatId);
     m_pixelSize.setWidth(m_reader.readUInt16LE());
     m_pixelSize.setHeight(m_reader.readUInt16LE());
-    m_fps = m_reader.readUInt32LE();
+    const auto rate = m_reader.readUInt32LE();
     m_timeScale = m_reader.readUInt32LE();
+    m_fps = m_timeScale ? rate / m_timeScale : rate;
     m_sampleCount = m_reader.readUInt32LE();
 
     // compute further values
     m_format = FourccIds::fourccToMediaFormat(formatId);
-    m_duration = timeSpanFromSeconds(static_cast<double>(m_sampleCount) / m_fps);
+    m_duration = timeSpanFromSeconds(static_cast<double>(m_sampleCount) * (m_timeScale ? m_timeScale : 1u) / rate);
 
     // skip unused bytes
     m_istream->seekg(4, ios_base::cur);
-- 
2.43.0


From 8328277e639d6a6746865fa0d406533d9c2ad613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 077/117] fix: determine frame rate and lacing flag of Matroska
 tracks independently of order and presence of elements

---
 matroska/matroskatrack.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 3eecc6c..97151ac 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -297,7 +297,8 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
     }
     // read information about the track from the children of the track entry element
     auto hasIsoLanguage = false;
-    m_flags = TrackFlags::Default | TrackFlags::Enabled;
+    auto defaultDuration = std::uint64_t();
+    m_flags = TrackFlags::Default | TrackFlags::Enabled | TrackFlags::Lacing;
     for (EbmlElement *trackInfoElement = m_trackElement->firstChild(), *subElement = nullptr; trackInfoElement;
         trackInfoElement = trackInfoElement->nextSibling()) {
         try {
@@ -306,7 +307,6 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             diag.emplace_back(DiagLevel::Critical, "Unable to parse track information element.", context);
             break;
         }
-        std::uint64_t defaultDuration = 0;
         switch (trackInfoElement->id()) {
         case MatroskaIds::TrackType:
             switch (trackInfoElement->readUInteger()) {
@@ -445,14 +445,12 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             break;
         default:;
         }
-        switch (m_mediaType) {
-        case MediaType::Video:
-            if (!m_fps && defaultDuration) {
-                m_fps = uint32FromDouble(1000000000.0 / static_cast<double>(defaultDuration));
-            }
-            break;
-        default:;
-        }
+    }
+
+    // compute frame rate from the default duration of frames
+    // note: The default duration might be present before the track type.
+    if (m_mediaType == MediaType::Video && !m_fps && defaultDuration) {
+        m_fps = uint32FromDouble(1000000000.0 / static_cast<double>(defaultDuration));
     }
 
     // read further information from the CodecPrivate element for some codecs
-- 
2.43.0


From 16bdcaf46e64a135cdb642b2c25bd0527893e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 078/117] fix: return correct format for MPEG-2 video object
 types

---
 mp4/mp4ids.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mp4/mp4ids.cpp b/mp4/mp4ids.cpp
index caab905..92bee4a 100644
--- a/mp4/mp4ids.cpp
+++ b/mp4/mp4ids.cpp
@@ -248,17 +248,17 @@ MediaFormat streamObjectTypeFormat(std::uint8_t streamObjectTypeId)
     case Aac:
         return MediaFormat(GeneralMediaFormat::Aac, SubFormats::AacMpeg4LowComplexityProfile);
     case Mpeg2VideoSimpleProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2SimpleProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2SimpleProfile);
     case Mpeg2VideoMainProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2SnrProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2MainProfile);
     case Mpeg2VideoSnrProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2SpatialProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2SnrProfile);
     case Mpeg2VideoSpatialProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2HighProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2SpatialProfile);
     case Mpeg2VideoHighProfile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2HighProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2HighProfile);
     case Mpeg2Video422Profile:
-        return MediaFormat(GeneralMediaFormat::Mpeg4Video, SubFormats::Mpeg2SimpleProfile);
+        return MediaFormat(GeneralMediaFormat::Mpeg2Video, SubFormats::Mpeg2422Profile);
     case Mpeg2AacMainProfile:
         return MediaFormat(GeneralMediaFormat::Aac, SubFormats::AacMpeg2MainProfile);
     case Mpeg2AacLowComplexityProfile:
-- 
2.43.0


From aa9635328343904a598eefe0879f6f4f89ec8c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 079/117] fix: avoid overriding creation and modification time
 of MP4 files if only the duration is unknown

---
 mp4/mp4container.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index d8e038e..08e8dba 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -199,17 +199,16 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                 ++trackNum;
             }
             // get overall duration, creation time and modification time if not determined yet
-            if (m_duration.isNull() || m_modificationTime.isNull() || m_creationTime.isNull()) {
-                for (const auto &track : tracks()) {
-                    if (track->duration() > m_duration) {
-                        m_duration = track->duration();
-                    }
-                    if (track->modificationTime() > m_modificationTime) {
-                        m_modificationTime = track->modificationTime();
-                    }
-                    if (track->creationTime() < m_creationTime) {
-                        m_creationTime = track->creationTime();
-                    }
+            const auto noDuration = m_duration.isNull(), noModificationTime = m_modificationTime.isNull(), noCreationTime = m_creationTime.isNull();
+            for (const auto &track : tracks()) {
+                if (noDuration && track->duration() > m_duration) {
+                    m_duration = track->duration();
+                }
+                if (noModificationTime && track->modificationTime() > m_modificationTime) {
+                    m_modificationTime = track->modificationTime();
+                }
+                if (noCreationTime && (m_creationTime.isNull() || track->creationTime() < m_creationTime)) {
+                    m_creationTime = track->creationTime();
                 }
             }
         }
-- 
2.43.0


From 1128752aa9c3c96e073eb265106df56d46245abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 080/117] fix: read sampling frequency from MP4 audio sample
 entries

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 5d7bdab..5063d06 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1830,7 +1830,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_bitsPerSample = reader.readUInt16BE();
                     m_istream->seekg(4, ios_base::cur); // skip reserved bytes (again)
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = reader.readUInt32BE() >> 16;
+                        m_samplingFrequency = reader.readUInt32BE();
                         if (codecConfigContainerAtom->id() != FourccIds::DolbyMpl) {
                             m_samplingFrequency >>= 16;
                         }
-- 
2.43.0


From e0aa77d6c91de54bc049020472ad61f63a2de261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 081/117] fix: find Xing header of MPEG-2 and mono frames and
 avoid mistaking other data for one

---
 mpegaudio/mpegaudioframe.cpp | 20 ++++++++++++++++++--
 mpegaudio/mpegaudioframe.h   |  5 +++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index f57ece5..2a42b72 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -60,10 +60,13 @@ void MpegAudioFrame::parseHeader(BinaryReader &reader, Diagnostics &diag)
     }
 
     // read XING header (see https://www.codeproject.com/Articles/8295/MPEG-Audio-Frame-Header#XINGHeader)
-    if (size() < s_xingHeaderOffset - 4 + 8) {
+    m_xingHeader = 0;
+    m_xingHeaderFlags = XingHeaderFlags::None;
+    const auto sideInfoSize = xingHeaderOffset();
+    if (!sideInfoSize || size() < sideInfoSize + 8u) {
         return;
     }
-    reader.stream()->seekg(s_xingHeaderOffset - 4, ios_base::cur);
+    reader.stream()->seekg(sideInfoSize - 4, ios_base::cur);
     m_xingHeader = reader.readUInt64BE();
     if (isXingHeaderAvailable()) {
         m_xingHeaderFlags = static_cast<XingHeaderFlags>(m_xingHeader & 0xffffffffuL);
@@ -82,6 +85,19 @@ void MpegAudioFrame::parseHeader(BinaryReader &reader, Diagnostics &diag)
     }
 }
 
+/*!
+ * \brief Returns the offset of the Xing header which is placed after the side information of layer 3 frames.
+ * \returns Returns zero if the frame can not contain a Xing header.
+ */
+std::uint8_t MpegAudioFrame::xingHeaderOffset() const
+{
+    if (layer() != 3) {
+        return 0;
+    }
+    const auto isMono = channelMode() == MpegChannelMode::SingleChannel;
+    return 4 + (mpegVersion() == 1.0 ? (isMono ? 17 : 32) : (isMono ? 9 : 17));
+}
+
 /*!
  * \brief Returns the MPEG version if known (1.0, 2.0 or 2.5); otherwise returns 0.
  */
diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 34ff7f8..0ab8087 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -63,7 +63,8 @@ public:
     constexpr std::uint32_t xingQualityIndicator() const;
 
 private:
-    static constexpr std::uint64_t s_xingHeaderOffset = 0x24;
+    std::uint8_t xingHeaderOffset() const;
+
     static constexpr std::uint32_t s_sync = 0xFFE00000u;
     static const std::uint16_t s_bitrateTable[0x2][0x3][0x10];
     std::uint32_t m_header;
@@ -158,7 +159,7 @@ constexpr XingHeaderFlags operator&(XingHeaderFlags lhs, XingHeaderFlags rhs)
  */
 constexpr bool MpegAudioFrame::isXingHeaderAvailable() const
 {
-    return ((m_xingHeader & 0x58696e6700000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0x496e666f00000000uL) == 0x496e666f00000000uL);
+    return (m_xingHeader >> 32) == 0x58696e67u || (m_xingHeader >> 32) == 0x496e666fu;
 }
 
 /*!
-- 
2.43.0


From d42cfdbe16e7ecfd3b2f879e667cf2790f7d9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 082/117] fix: compute size of MPEG audio frames correctly

---
 mpegaudio/mpegaudioframe.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index 2a42b72..cdfc2a3 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -228,15 +228,10 @@ std::uint32_t MpegAudioFrame::size() const
     }
     switch (m_header & 0x60000u) {
     case 0x60000u: // layer 1
-        return static_cast<std::uint32_t>(
-                   ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-                   + static_cast<double>(paddingSize()))
-            * 4;
+        return (sampleCount() / 32u * bitrate() * 1000u / samplingFrequency()) * 4u + paddingSize();
     case 0x40000u: // layer 2
     case 0x20000u: // layer 3
-        return static_cast<std::uint32_t>(
-            ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-            + static_cast<double>(paddingSize()));
+        return sampleCount() / 8u * bitrate() * 1000u / samplingFrequency() + paddingSize();
     default:
         return 0;
     }
-- 
2.43.0


From 177bd493b8ba2bca71f214406e42f35e84fd5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 083/117] fix: avoid overflow when computing duration of MPEG
 audio streams

---
 mpegaudio/mpegaudioframestream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 1361c31..58aa079 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -80,7 +80,7 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
     }
     if (frame.isXingFramefieldPresent()) {
         const auto duration = frame.samplingFrequency()
-            ? static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())
+            ? static_cast<double>(frame.xingFrameCount()) * frame.sampleCount() / static_cast<double>(frame.samplingFrequency())
             : 0.0;
         m_bitrate = duration > 0.0 ? static_cast<double>(m_size) / duration / 125.0 : 0.0;
         m_duration = timeSpanFromSeconds(duration);
-- 
2.43.0


From d125c6d413453ce9fd7de26b66cd4a9ec5e19124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 084/117] fix: consider padding byte of RIFF segments when
 parsing WAVE files

---
 wav/waveaudiostream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index d8a194f..72c4ed6 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -162,6 +162,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     while (!m_dataOffset) {
         const auto segmentId = m_reader.readUInt32BE();
         auto restHeaderLen = static_cast<std::uint64_t>(m_reader.readUInt32LE());
+        const auto paddingLen = restHeaderLen & 1u; // segments start at even offsets
         switch (segmentId) {
         case 0x666D7420u: { // format segment
             WaveFormatHeader waveHeader;
@@ -177,7 +178,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
             break;
         default:;
         }
-        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen), ios_base::cur);
+        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen + paddingLen), ios_base::cur);
     }
     if (m_format.general != GeneralMediaFormat::Mpeg1Audio || !m_dataOffset) {
         return;
-- 
2.43.0


From 8303cc92adfa55da5ef843f63e4a9ee37c0ed9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:57 +0000
Subject: [PATCH 085/117] fix: compute bitrate and duration of MPEG audio in
 WAVE files using consistent units

---
 wav/waveaudiostream.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 72c4ed6..40f3015 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -187,12 +187,15 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     MpegAudioFrame frame;
     frame.parseHeader(m_reader, diag);
     MpegAudioFrameStream::addInfo(frame, *this);
-    m_bitrate = frame.isXingFramefieldPresent()
-        ? ((static_cast<double>(m_size) * 8.0)
-              / (static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
-        : frame.bitrate();
+    if (frame.isXingFramefieldPresent() && frame.xingFrameCount() && frame.samplingFrequency()) {
+        const auto duration = static_cast<double>(frame.xingFrameCount()) * frame.sampleCount() / static_cast<double>(frame.samplingFrequency());
+        m_bitrate = static_cast<double>(m_size) / duration / 125.0;
+        m_duration = timeSpanFromSeconds(duration);
+    } else {
+        m_bitrate = frame.bitrate();
+        m_duration = timeSpanFromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
+    }
     m_bytesPerSecond = uint32FromDouble(m_bitrate * 125.0);
-    m_duration = timeSpanFromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
 }
 
 } // namespace TagParser
-- 
2.43.0


From e5857360a9542b379bc88ac1917c121361c04562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:37 +0000
Subject: [PATCH 086/117] fix: consider track-wide defaults when computing size
 and duration of fragmented MP4 tracks

---
 mp4/mp4track.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 5063d06..135ec68 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2023,7 +2023,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         }
         if (constantSize) {
             m_sampleSizes.push_back(constantSize);
-            m_size = constantSize * m_sampleCount;
+            m_size = static_cast<std::uint64_t>(constantSize) * m_sampleCount;
         } else {
             auto actualSampleCount = m_sampleCount;
             const auto calculatedSampleSizeTableSize
@@ -2077,6 +2077,25 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         }
     }
 
+    // read default values for fragments
+    auto trackDefaultSampleDuration = std::uint32_t(), trackDefaultSampleSize = std::uint32_t();
+    if (Mp4Atom *const mvexAtom = m_trakAtom->parent() ? m_trakAtom->parent()->childById(MovieExtends, diag) : nullptr) {
+        for (Mp4Atom *trexAtom = mvexAtom->childById(TrackExtends, diag); trexAtom; trexAtom = trexAtom->siblingById(TrackExtends, diag)) {
+            if (trexAtom->dataSize() < 20) {
+                diag.emplace_back(DiagLevel::Critical, "trex atom is truncated.", context);
+                continue;
+            }
+            m_istream->seekg(static_cast<streamoff>(trexAtom->dataOffset() + 4));
+            if (m_id != reader.readUInt32BE()) { // check track ID
+                continue;
+            }
+            m_istream->seekg(4, ios_base::cur); // default-sample-description-index
+            trackDefaultSampleDuration = reader.readUInt32BE();
+            trackDefaultSampleSize = reader.readUInt32BE();
+            break;
+        }
+    }
+
     // no sample sizes found, search for trun atoms
     std::uint64_t totalDuration = 0;
     for (Mp4Atom *moofAtom = m_trakAtom->container().firstElement()->siblingByIdIncludingThis(MovieFragment, diag); moofAtom;
@@ -2111,8 +2130,8 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         }
                         //uint64 baseDataOffset = moofAtom->startOffset();
                         //uint32 defaultSampleDescriptionIndex = 0;
-                        std::uint32_t defaultSampleDuration = 0;
-                        std::uint32_t defaultSampleSize = 0;
+                        std::uint32_t defaultSampleDuration = trackDefaultSampleDuration;
+                        std::uint32_t defaultSampleSize = trackDefaultSampleSize;
                         //uint32 defaultSampleFlags = 0;
                         if (tfhdAtom->dataSize() < calculatedDataSize) {
                             diag.emplace_back(DiagLevel::Critical, "tfhd atom is truncated (presence of fields denoted).", context);
-- 
2.43.0


From 54c1d94f346830f1f0b86694b0453a712cdb1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:37 +0000
Subject: [PATCH 087/117] fix: compute duration of Opus streams independently
 of the original sampling frequency

---
 ogg/oggstream.cpp | 12 ++++++------
 ogg/oggstream.h   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index 1e8f88f..bd12deb 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -103,7 +103,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         if (m_bitrate != 0.0) {
                             m_bitrate /= 1000.0;
                         }
-                        calculateDurationViaSampleCount();
+                        calculateDurationViaSampleCount(m_samplingFrequency);
                         hasIdentificationHeader = true;
                     } else {
                         diag.emplace_back(DiagLevel::Critical,
@@ -145,7 +145,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_version = ind.version();
                     m_channelCount = ind.channels();
                     m_samplingFrequency = ind.sampleRate();
-                    calculateDurationViaSampleCount(ind.preSkip());
+                    calculateDurationViaSampleCount(48000.0, ind.preSkip()); // granule positions are always specified in 48 kHz units
                     hasIdentificationHeader = true;
                 } else {
                     diag.emplace_back(
@@ -198,7 +198,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_channelCount = streamInfo.channelCount();
                     m_samplingFrequency = streamInfo.samplingFrequency();
                     m_sampleCount = streamInfo.totalSampleCount();
-                    calculateDurationViaSampleCount();
+                    calculateDurationViaSampleCount(m_samplingFrequency);
                     hasIdentificationHeader = true;
                 } else {
                     diag.emplace_back(
@@ -289,7 +289,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
 }
 
-void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
+void OggStream::calculateDurationViaSampleCount(double samplingFrequency, std::uint16_t preSkip)
 {
     // define predicate for finding pages of this stream by its stream serial number
     const auto pred = bind(&OggPage::matchesStreamSerialNumber, _1, m_id);
@@ -315,8 +315,8 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     }
 
     // actually calculate the duration
-    if (m_sampleCount && m_samplingFrequency != 0.0) {
-        m_duration = timeSpanFromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+    if (m_sampleCount && samplingFrequency != 0.0) {
+        m_duration = timeSpanFromSeconds(static_cast<double>(m_sampleCount) / samplingFrequency);
     }
 }
 
diff --git a/ogg/oggstream.h b/ogg/oggstream.h
index 11d85e0..39aa98c 100644
--- a/ogg/oggstream.h
+++ b/ogg/oggstream.h
@@ -24,7 +24,7 @@ protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
 
 private:
-    void calculateDurationViaSampleCount(std::uint16_t preSkip = 0);
+    void calculateDurationViaSampleCount(double samplingFrequency, std::uint16_t preSkip = 0);
 
     std::size_t m_startPage;
     OggContainer &m_container;
-- 
2.43.0


From 328399538d2c6b3aa32379a88b670e5b0fa0bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:37 +0000
Subject: [PATCH 088/117] fix: distinguish MPEG-2 and MPEG-4 AAC in ADTS
 streams

---
 adts/adtsstream.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 9253f72..dafb27e 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -28,6 +28,20 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_istream->seekg(static_cast<std::streamoff>(m_startOffset), ios_base::beg);
     m_firstFrame.parseHeader(m_reader);
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
+    if (!m_firstFrame.isMpeg4()) {
+        switch (m_format.sub) {
+        case SubFormats::AacMpeg4MainProfile:
+            m_format.sub = SubFormats::AacMpeg2MainProfile;
+            break;
+        case SubFormats::AacMpeg4LowComplexityProfile:
+            m_format.sub = SubFormats::AacMpeg2LowComplexityProfile;
+            break;
+        case SubFormats::AacMpeg4ScalableSamplingRateProfile:
+            m_format.sub = SubFormats::AacMpeg2ScalableSamplingRateProfile;
+            break;
+        default:;
+        }
+    }
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
     m_samplingFrequency = sampleRateIndex < std::size(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
-- 
2.43.0


From 5f45616e6d226dba087ecaa00b4f9dda996dac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:37 +0000
Subject: [PATCH 089/117] fix: check actual size of extended WAVE format header

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 40f3015..cba05c1 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -48,7 +48,7 @@ std::uint64_t WaveFormatHeader::parse(CppUtilities::BinaryReader &reader, std::u
     }
     const auto extensionSize = reader.readUInt16LE();
     bytesRead += 2;
-    if ((maxSize -= 2) < 2) {
+    if ((maxSize -= 2) < extensionSize) {
         diag.emplace_back(DiagLevel::Warning, "\"fmt \" segment is truncated (extended header truncated).", "parsing WAVE format header");
         return bytesRead;
     }
-- 
2.43.0


From 4ec924e7fff4317c7c1ff3da4f76cf105fa31d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:48 +0000
Subject: [PATCH 090/117] fix: return bitrate of WAVE audio in kbit/s

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index cba05c1..f130708 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -141,7 +141,7 @@ void WaveAudioStream::addInfo(const WaveFormatHeader &waveHeader, AbstractTrack
     track.m_bytesPerSecond = waveHeader.bytesPerSecond;
     track.m_chunkSize = waveHeader.chunkSize;
     track.m_bitsPerSample = waveHeader.bitsPerSample;
-    track.m_bitrate = waveHeader.bitrate();
+    track.m_bitrate = static_cast<double>(waveHeader.bytesPerSecond) / 125.0;
 }
 
 void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
-- 
2.43.0


From 80cdaf348fd5086a422bbd24a56297d6b4908309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:53 +0000
Subject: [PATCH 091/117] fix: use consistent unit for bitrate computed from
 size of MP4 tracks

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 135ec68..070a8ed 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2245,7 +2245,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
 
     // calculate average bitrate
     if (m_bitrate < 0.01 && m_bitrate > -0.01 && !m_duration.isNull()) {
-        m_bitrate = (static_cast<double>(m_size) * 0.0078125) / m_duration.totalSeconds();
+        m_bitrate = (static_cast<double>(m_size) * 0.008) / m_duration.totalSeconds();
     }
 
     // read stsc atom (only number of entries)
-- 
2.43.0


From 242437b5a470d4c8a89f57517b8f7dd607c853e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:53 +0000
Subject: [PATCH 092/117] fix: use registered MPEG-4 object type IDs for DTS

---
 mp4/mp4ids.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4ids.h b/mp4/mp4ids.h
index 13a94cd..b628bab 100644
--- a/mp4/mp4ids.h
+++ b/mp4/mp4ids.h
@@ -492,7 +492,7 @@ enum KnownValue : std::uint8_t {
     Dirac, /**< Dirac */
     Ac3, /**< AC-3 */
     EAc3, /**< E-AC-3 */
-    Dts, /**< DTS */
+    Dts = 0xA9, /**< DTS */
     DtsHdHighResolution, /**< DTS-HD High Resolution */
     DtsHdMasterAudio, /**< DTS-HD Master Audio */
     DtsHdExpress, /**< DTS-HD Express */
-- 
2.43.0


From 093b18a860039030b3368cf346a9d06ed8825586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:53 +0000
Subject: [PATCH 093/117] fix: use consistent unit for overall average bitrate

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 343aa56..e8f9159 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -984,7 +984,7 @@ double MediaFileInfo::overallAverageBitrate() const
     if (duration.isNull()) {
         return 0.0;
     }
-    return 0.0078125 * static_cast<double>(size()) / duration.totalSeconds();
+    return 0.008 * static_cast<double>(size()) / duration.totalSeconds();
 }
 
 /*!
-- 
2.43.0


From ce7ac03eee0fc95c9e4e05fa5d5368739a7da110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:35 +0000
Subject: [PATCH 094/117] fix: keep attachment unchanged if assigning a file
 fails

---
 abstractattachment.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/abstractattachment.cpp b/abstractattachment.cpp
index 9d586dd..d651dac 100644
--- a/abstractattachment.cpp
+++ b/abstractattachment.cpp
@@ -190,7 +190,6 @@ void AbstractAttachment::clear()
  */
 void AbstractAttachment::setFile(string_view path, Diagnostics &diag, AbortableProgressFeedback &progress)
 {
-    m_data.reset();
     auto file = make_unique<FileDataBlock>(path, diag, progress);
     const auto fileName = file->fileInfo()->fileName();
     if (!fileName.empty()) {
-- 
2.43.0


From 5ebb275a5fa3318503d07de7f368d0857bb8f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:35 +0000
Subject: [PATCH 095/117] fix: generate unique IDs for any number of Matroska
 attachments

---
 matroska/matroskacontainer.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index c0f8a11..c264f33 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -15,6 +15,7 @@
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/path.h>
 
+#include <algorithm>
 #include <chrono>
 #include <filesystem>
 #include <functional>
@@ -338,21 +339,13 @@ size_t MatroskaContainer::chapterCount() const
 MatroskaAttachment *MatroskaContainer::createAttachment()
 {
     // generate unique ID
-    static const auto randomEngine(
-        default_random_engine(static_cast<default_random_engine::result_type>(chrono::system_clock::now().time_since_epoch().count())));
-    std::uint64_t attachmentId;
-    auto dice(bind(uniform_int_distribution<decltype(attachmentId)>(), randomEngine));
-    std::uint8_t tries = 0;
-generateRandomId:
-    attachmentId = dice();
-    if (tries < 0xFF) {
-        for (const auto &attachment : m_attachments) {
-            if (attachmentId == attachment->id()) {
-                ++tries;
-                goto generateRandomId;
-            }
-        }
-    }
+    auto randomDevice = random_device();
+    auto randomEngine = mt19937_64((static_cast<std::uint64_t>(randomDevice()) << 32) | randomDevice());
+    auto distribution = uniform_int_distribution<std::uint64_t>(1);
+    auto attachmentId = std::uint64_t();
+    do {
+        attachmentId = distribution(randomEngine);
+    } while (std::any_of(m_attachments.cbegin(), m_attachments.cend(), [attachmentId](const auto &a) { return a->id() == attachmentId; }));
     // create new attachment, set ID
     m_attachments.emplace_back(make_unique<MatroskaAttachment>());
     auto &attachment = m_attachments.back();
-- 
2.43.0


From 71ca954932769254ef2378e6b52637e4ea427371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:05 +0000
Subject: [PATCH 096/117] fix: avoid cutting off first character of null
 terminated track names of MP4 files

---
 mp4/mp4track.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 070a8ed..9165afd 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1780,8 +1780,13 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         diag.emplace_back(DiagLevel::Warning, "The \"hdlr\"-atom is truncated. The track name will be ignored.", context);
     } else if (static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1) {
         // assume size prefixed string (seems to appear in QuickTime files)
-        m_istream->seekg(1, ios_base::cur);
-        m_name = reader.readString(tmp);
+        // note: If the last character is a null byte the size only matches by chance and it is a null terminated string.
+        m_name = reader.readString(tmp + 1u);
+        if (!m_name.empty() && m_name.back()) {
+            m_name.erase(0, 1);
+        } else {
+            m_name.resize(std::min(m_name.find('\0'), m_name.size()));
+        }
     } else {
         // assume null terminated string (appears in MP4 files)
         m_name = reader.readTerminatedString(m_hdlrAtom->dataSize() - 12 - 4 - 8, 0);
-- 
2.43.0


From 0d72057e84ec051d5dd9dea7efffa50ef6cfb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:14 +0000
Subject: [PATCH 097/117] fix: read track numbers of Matroska chapters

---
 matroska/matroskachapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskachapter.cpp b/matroska/matroskachapter.cpp
index d695f7a..44e9c1e 100644
--- a/matroska/matroskachapter.cpp
+++ b/matroska/matroskachapter.cpp
@@ -76,12 +76,12 @@ void MatroskaChapter::internalParse(Diagnostics &diag, AbortableProgressFeedback
                 chapterTrackElement = chapterTrackElement->nextSibling()) {
                 chapterTrackElement->parse(diag);
                 switch (chapterTrackElement->id()) {
-                case MatroskaIds::ChapterTrack:
+                case MatroskaIds::ChapterTrackNumber:
                     m_tracks.emplace_back(chapterTrackElement->readUInteger());
                     break;
                 default:
                     diag.emplace_back(DiagLevel::Warning,
-                        "\"ChapterTrack\"-element contains unknown child element \"" % chapterAtomChild->idToString() + "\". It will be ignored.",
+                        "\"ChapterTrack\"-element contains unknown child element \"" % chapterTrackElement->idToString() + "\". It will be ignored.",
                         context);
                 }
             }
-- 
2.43.0


From 2b2ee38fe4edc20cf2f4489fcc8da9dd322ef1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:14 +0000
Subject: [PATCH 098/117] fix: avoid warnings about void and checksum elements
 within Matroska chapters

---
 matroska/matroskachapter.cpp      | 6 ++++++
 matroska/matroskaeditionentry.cpp | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/matroska/matroskachapter.cpp b/matroska/matroskachapter.cpp
index 44e9c1e..5505c1c 100644
--- a/matroska/matroskachapter.cpp
+++ b/matroska/matroskachapter.cpp
@@ -79,6 +79,9 @@ void MatroskaChapter::internalParse(Diagnostics &diag, AbortableProgressFeedback
                 case MatroskaIds::ChapterTrackNumber:
                     m_tracks.emplace_back(chapterTrackElement->readUInteger());
                     break;
+                case EbmlIds::Crc32:
+                case EbmlIds::Void:
+                    break;
                 default:
                     diag.emplace_back(DiagLevel::Warning,
                         "\"ChapterTrack\"-element contains unknown child element \"" % chapterTrackElement->idToString() + "\". It will be ignored.",
@@ -117,6 +120,9 @@ void MatroskaChapter::internalParse(Diagnostics &diag, AbortableProgressFeedback
         case MatroskaIds::ChapterAtom:
             m_nestedChapters.emplace_back(make_unique<MatroskaChapter>(chapterAtomChild));
             break;
+        case EbmlIds::Crc32:
+        case EbmlIds::Void:
+            break;
         default:
             diag.emplace_back(DiagLevel::Warning,
                 "\"ChapterAtom\"-element contains unknown child element \"" % chapterAtomChild->idToString() + "\". It will be ignored.", context);
diff --git a/matroska/matroskaeditionentry.cpp b/matroska/matroskaeditionentry.cpp
index f758614..5f36644 100644
--- a/matroska/matroskaeditionentry.cpp
+++ b/matroska/matroskaeditionentry.cpp
@@ -79,6 +79,9 @@ void MatroskaEditionEntry::parse(Diagnostics &diag)
         case MatroskaIds::ChapterAtom:
             m_chapters.emplace_back(make_unique<MatroskaChapter>(entryChild));
             break;
+        case EbmlIds::Crc32:
+        case EbmlIds::Void:
+            break;
         default:
             diag.emplace_back(DiagLevel::Warning,
                 "\"EditionEntry\"-element contains unknown child element \"" % entryChild->idToString() + "\" which will be ignored.", context);
-- 
2.43.0


From c688334bef7614e154086d46379e2c2f8d870556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 099/117] fix: format position in set for all character types

---
 positioninset.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/positioninset.h b/positioninset.h
index 357781d..3aab004 100644
--- a/positioninset.h
+++ b/positioninset.h
@@ -128,14 +128,19 @@ constexpr inline bool PositionInSet::operator==(const PositionInSet &other) cons
 template <typename StringType, CppUtilities::Traits::EnableIfAny<CppUtilities::Traits::IsSpecializationOf<StringType, std::basic_string>> *>
 StringType PositionInSet::toString() const
 {
-    std::basic_stringstream<typename StringType::value_type> ss;
+    auto res = StringType();
+    const auto append = [&res](std::int32_t number) {
+        const auto digits = std::to_string(number);
+        res.append(digits.cbegin(), digits.cend());
+    };
     if (m_position) {
-        ss << m_position;
+        append(m_position);
     }
     if (m_total) {
-        ss << '/' << m_total;
+        res += '/';
+        append(m_total);
     }
-    return ss.str();
+    return res;
 }
 
 } // namespace TagParser
-- 
2.43.0


From 8d05b7623cb2f717e0102ba6facecb85f7ff1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 100/117] fix: format lists with less than two values correctly

---
 diagnostics.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/diagnostics.cpp b/diagnostics.cpp
index 39e3336..ee7b6e5 100644
--- a/diagnostics.cpp
+++ b/diagnostics.cpp
@@ -74,11 +74,9 @@ string DiagMessage::formatList(const std::vector<string> &values)
     }
     std::string res;
     res.reserve(size);
-    for (auto value = values.cbegin(), end = values.cend(), last = values.cend() - 1; value != end; ++value) {
-        if (value == last) {
-            res += " and ";
-        } else if (!res.empty()) {
-            res += ", ";
+    for (auto value = values.cbegin(), end = values.cend(); value != end; ++value) {
+        if (!res.empty()) {
+            res += (value + 1 == end) ? " and " : ", ";
         }
         res += '\"';
         res += *value;
-- 
2.43.0


From b191225ce5a140a35ec8c6354cc158d0954be817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 101/117] fix: avoid accessing memory beyond the specified URL
 when removing its prefix

---
 basicfileinfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicfileinfo.h b/basicfileinfo.h
index 7fbb59c..6b40d42 100644
--- a/basicfileinfo.h
+++ b/basicfileinfo.h
@@ -152,7 +152,7 @@ inline void BasicFileInfo::reportPathChanged(std::string &&newPath)
  */
 inline std::string_view BasicFileInfo::pathForOpen(std::string_view url)
 {
-    return CppUtilities::startsWith(url, "file:/") ? url.data() + 6 : url.data();
+    return CppUtilities::startsWith(url, "file:/") ? url.substr(6) : url;
 }
 
 } // namespace TagParser
-- 
2.43.0


From e5ddbcb60f48d3c9a2c863e6dba89fb0fbed159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 102/117] fix: return defined language in preferred format
 regardless of the order of details

---
 localehelper.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/localehelper.cpp b/localehelper.cpp
index 45f034c..3dab1ac 100644
--- a/localehelper.cpp
+++ b/localehelper.cpp
@@ -87,19 +87,18 @@ const LocaleDetail &Locale::someAbbreviatedName(LocaleFormat preferredFormat) co
     auto format = LocaleFormat::Unknown;
     const LocaleDetail *mostRelevantDetail = nullptr;
     for (const auto &detail : *this) {
-        if (!detail.empty()
-            && static_cast<std::underlying_type_t<LocaleFormat>>(detail.format) >= static_cast<std::underlying_type_t<LocaleFormat>>(format)) {
-            if (detail.format == preferredFormat) {
-                return detail;
-            }
+        if (!isLanguageDefined_ISO_639_2(detail)) {
+            continue;
+        }
+        if (detail.format == preferredFormat) {
+            return detail;
+        }
+        if (static_cast<std::underlying_type_t<LocaleFormat>>(detail.format) >= static_cast<std::underlying_type_t<LocaleFormat>>(format)) {
             format = detail.format;
             mostRelevantDetail = &detail;
         }
     }
-    if (!mostRelevantDetail || !isLanguageDefined_ISO_639_2(*mostRelevantDetail)) {
-        return LocaleDetail::getEmpty();
-    }
-    return *mostRelevantDetail;
+    return mostRelevantDetail ? *mostRelevantDetail : LocaleDetail::getEmpty();
 }
 
 /*!
-- 
2.43.0


From ee730987692b72e6c9dd49a4c4d3e328604e55fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:19 +0000
Subject: [PATCH 103/117] fix: avoid undefined behavior when formatting sizes,
 margins and ratios containing zeros

---
 aspectratio.h | 2 +-
 margin.h      | 3 ++-
 size.h        | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/aspectratio.h b/aspectratio.h
index 8b9d7af..5c02624 100644
--- a/aspectratio.h
+++ b/aspectratio.h
@@ -65,7 +65,7 @@ constexpr bool AspectRatio::isExtended() const
  */
 inline std::string AspectRatio::toString() const
 {
-    return CppUtilities::argsToString(numerator, " : ", denominator);
+    return CppUtilities::argsToString(std::to_string(numerator), " : ", std::to_string(denominator));
 }
 
 } // namespace TagParser
diff --git a/margin.h b/margin.h
index 092e790..e86c07a 100644
--- a/margin.h
+++ b/margin.h
@@ -122,7 +122,8 @@ constexpr bool Margin::isNull() const
  */
 inline std::string Margin::toString() const
 {
-    return CppUtilities::argsToString("top: ", m_top, "; left: ", m_left, "; bottom: ", m_bottom, "; right: ", m_right);
+    return CppUtilities::argsToString("top: ", std::to_string(m_top), "; left: ", std::to_string(m_left), "; bottom: ", std::to_string(m_bottom),
+        "; right: ", std::to_string(m_right));
 }
 
 } // namespace TagParser
diff --git a/size.h b/size.h
index 7ef9786..4e6c8d6 100644
--- a/size.h
+++ b/size.h
@@ -124,7 +124,7 @@ constexpr bool Size::operator>=(const Size &other) const
  */
 inline std::string Size::toString() const
 {
-    return CppUtilities::argsToString("width: ", m_width, ", height: ", m_height);
+    return CppUtilities::argsToString("width: ", std::to_string(m_width), ", height: ", std::to_string(m_height));
 }
 
 } // namespace TagParser
-- 
2.43.0


From d694af3c3434a58d95c163fdfd43d3a2780b6b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:12 +0000
Subject: [PATCH 104/117] fix: avoid exhausting the stack if there are many
 sibling elements

---
 genericfileelement.h | 78 +++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 38 deletions(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index c62590e..c1e3f55 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -66,6 +66,7 @@ public:
     GenericFileElement(const GenericFileElement &other) = delete;
     GenericFileElement(GenericFileElement &other) = delete;
     GenericFileElement &operator=(const GenericFileElement &other) = delete;
+    ~GenericFileElement();
 
     ContainerType &container();
     const ContainerType &container() const;
@@ -218,6 +219,17 @@ GenericFileElement<ImplementationType>::GenericFileElement(
 {
 }
 
+/*!
+ * \brief Destroys the element, its children and its subsequent siblings.
+ * \remarks Siblings are destroyed iteratively to avoid exhausting the stack if there are many of them.
+ */
+template <class ImplementationType> GenericFileElement<ImplementationType>::~GenericFileElement()
+{
+    while (m_nextSibling) {
+        m_nextSibling = std::move(m_nextSibling->m_nextSibling);
+    }
+}
+
 /*!
  * \brief Returns the related container.
  */
@@ -524,15 +536,12 @@ template <class ImplementationType>
 template <class IdType>
 ImplementationType *GenericFileElement<ImplementationType>::subelementByPath(Diagnostics &diag, IdType item)
 {
-    // ensure element is parsed
-    parse(diag);
-    // return the element if it matches the current and last item in the path
-    if (item == id()) {
-        return static_cast<ImplementationType *>(this);
-    }
-    // check whether a sibling matches the item
-    if (nextSibling()) {
-        return nextSibling()->subelementByPath(diag, item);
+    // return the first element (this or any sibling) that matches the current and last item in the path
+    for (auto *element = static_cast<ImplementationType *>(this); element; element = element->nextSibling()) {
+        element->parse(diag); // ensure element is parsed
+        if (item == element->id()) {
+            return element;
+        }
     }
     return nullptr;
 }
@@ -550,18 +559,12 @@ template <class ImplementationType>
 template <class IdType, class... IdTypes>
 ImplementationType *GenericFileElement<ImplementationType>::subelementByPath(Diagnostics &diag, IdType item, IdTypes... remainingPath)
 {
-    // ensure element is parsed
-    parse(diag);
-    // continue with next item in path if the element matches the current item
-    if (item == id()) {
-        if (!firstChild()) {
-            return nullptr;
+    for (auto *element = static_cast<ImplementationType *>(this); element; element = element->nextSibling()) {
+        element->parse(diag); // ensure element is parsed
+        // continue with next item in path if the element (this or any sibling) matches the current item
+        if (item == element->id()) {
+            return element->firstChild() ? element->firstChild()->subelementByPath(diag, remainingPath...) : nullptr;
         }
-        return firstChild()->subelementByPath(diag, remainingPath...);
-    }
-    // check whether a sibling matches the current item
-    if (nextSibling()) {
-        return nextSibling()->subelementByPath(diag, item, remainingPath...);
     }
     return nullptr;
 }
@@ -823,25 +826,24 @@ template <class ImplementationType>
 void GenericFileElement<ImplementationType>::validateSubsequentElementStructure(
     Diagnostics &diag, std::uint64_t *paddingSize, AbortableProgressFeedback *progress)
 {
-    if (progress) {
-        progress->stopIfAborted();
-    }
-    // validate element itself by just parsing it
-    parse(diag);
-    // validate children
-    if (firstChild()) {
-        try {
-            firstChild()->validateSubsequentElementStructure(diag, paddingSize, progress);
-        } catch (const Failure &) {
-            // ignore critical errors in child structure to continue validating siblings
-            // (critical notifications about the errors should have already been added to diag, so nothing to do)
+    // validate this element and its siblings
+    for (auto *element = static_cast<ImplementationType *>(this); element; element = element->nextSibling()) {
+        if (progress) {
+            progress->stopIfAborted();
+        }
+        // validate element itself by just parsing it
+        element->parse(diag);
+        // validate children
+        if (element->firstChild()) {
+            try {
+                element->firstChild()->validateSubsequentElementStructure(diag, paddingSize, progress);
+            } catch (const Failure &) {
+                // ignore critical errors in child structure to continue validating siblings
+                // (critical notifications about the errors should have already been added to diag, so nothing to do)
+            }
+        } else if (paddingSize && element->isPadding()) { // element is padding
+            *paddingSize += element->totalSize();
         }
-    } else if (paddingSize && isPadding()) { // element is padding
-        *paddingSize += totalSize();
-    }
-    // validate siblings
-    if (nextSibling()) {
-        nextSibling()->validateSubsequentElementStructure(diag, paddingSize, progress);
     }
 }
 
-- 
2.43.0


From 16eb21fff997933ba10f7e15333cf41c4d75fca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:53 +0000
Subject: [PATCH 105/117] fix: avoid exhausting the stack if elements are
 nested deeply

---
 genericfileelement.h     | 10 ++++++++++
 matroska/ebmlelement.cpp |  5 ++++-
 mp4/mp4atom.cpp          |  4 +++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index c1e3f55..b5d76d9 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -118,6 +118,7 @@ public:
     static constexpr std::uint32_t maximumIdLengthSupported();
     static constexpr std::uint32_t maximumSizeLengthSupported();
     static constexpr std::uint8_t minimumElementSize();
+    static constexpr std::uint8_t maximumNestingLevel();
     template <typename TargetStream = std::ostream>
     void copyHeader(TargetStream &targetStream, Diagnostics &diag, AbortableProgressFeedback *progress);
     template <typename TargetStream = std::ostream>
@@ -998,6 +999,15 @@ template <class ImplementationType> constexpr std::uint32_t GenericFileElement<I
     return sizeof(DataSizeType);
 }
 
+/*!
+ * \brief Returns the maximum level() of elements with children.
+ * \remarks Children of elements which are nested more deeply are ignored to avoid exhausting the stack when dealing with invalid files.
+ */
+template <class ImplementationType> constexpr std::uint8_t GenericFileElement<ImplementationType>::maximumNestingLevel()
+{
+    return 100;
+}
+
 /*!
  * \brief Returns the minimum element size.
  */
diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index d98c165..bc0c35b 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -190,7 +190,10 @@ void EbmlElement::internalParse(Diagnostics &diag)
 
         // check if there's a first child
         const std::uint64_t firstChildOffset = this->firstChildOffset();
-        if (firstChildOffset && firstChildOffset < totalSize()) {
+        if (firstChildOffset && firstChildOffset < totalSize() && level() > maximumNestingLevel()) {
+            diag.emplace_back(DiagLevel::Critical, "The element is nested too deeply; ignoring its children.", parsingContext());
+            m_firstChild.reset();
+        } else if (firstChildOffset && firstChildOffset < totalSize()) {
             m_firstChild.reset(new EbmlElement(static_cast<EbmlElement &>(*this), startOffset() + firstChildOffset));
         } else {
             m_firstChild.reset();
diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 36158ea..d2864a6 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -102,7 +102,9 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     m_dataSize -= headerSize();
     Mp4Atom *child = nullptr;
     if (std::uint64_t firstChildOffset = this->firstChildOffset()) {
-        if (firstChildOffset + minimumElementSize() <= totalSize()) {
+        if (level() > maximumNestingLevel()) {
+            diag.emplace_back(DiagLevel::Critical, "The atom is nested too deeply; ignoring its children.", parsingContext());
+        } else if (firstChildOffset + minimumElementSize() <= totalSize()) {
             child = new Mp4Atom(static_cast<Mp4Atom &>(*this), startOffset() + firstChildOffset);
         }
     }
-- 
2.43.0


From f3736053a8e201543f1edbfc30f0eecc3bbb356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:17 +0000
Subject: [PATCH 106/117] fix: update size of previous cluster when rewriting
 Matroska files

---
 matroska/matroskacontainer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index c264f33..b7509f4 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1476,6 +1476,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Cluster"-element
                     segment.clusterSizes.clear();
+                    std::uint64_t prevClusterSize = 0;
                     bool cuesInvalidated = false;
                     for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                         // update offset of "Cluster"-element in "Cues"-element
@@ -1503,13 +1504,17 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case MatroskaIds::Position:
                                         clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.totalDataSize);
                                         break;
+                                    case MatroskaIds::PrevSize:
+                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(prevClusterSize);
+                                        break;
                                     default:
                                         clusterSize += level2Element->totalSize();
                                     }
                                     clusterReadSize += level2Element->totalSize();
                                 }
                                 segment.clusterSizes.push_back(clusterSize);
-                                segment.totalDataSize += 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
+                                prevClusterSize = 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
+                                segment.totalDataSize += prevClusterSize;
                             }
                         }
                         // check whether aborted (because this loop might take some seconds to process)
@@ -1830,6 +1835,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
                     // write "Cluster"-element
                     auto clusterSizesIterator = segment.clusterSizes.cbegin();
+                    std::uint64_t prevClusterSize = 0;
                     unsigned int index = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
@@ -1847,10 +1853,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             case MatroskaIds::Position:
                                 EbmlElement::makeSimpleElement(outputStream, MatroskaIds::Position, clusterSize);
                                 break;
+                            case MatroskaIds::PrevSize:
+                                EbmlElement::makeSimpleElement(outputStream, MatroskaIds::PrevSize, prevClusterSize);
+                                break;
                             default:
                                 level2Element->copyEntirely(outputStream, diag, nullptr);
                             }
                         }
+                        prevClusterSize = 4u + sizeLength + *clusterSizesIterator;
                         // update percentage, check whether the operation has been aborted
                         progress.stopIfAborted();
                         if (index % 50 == 0) {
-- 
2.43.0


From 2df077502ccdfe8949d6b718bff88bec983bcbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:33 +0000
Subject: [PATCH 107/117] fix: do not interpret AVC configuration as atoms

---
 mp4/mp4atom.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index d2864a6..cb29b4a 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -211,7 +211,6 @@ bool Mp4Atom::isParent() const
     case TrackReference:
     case MovieExtends:
     case DataReference:
-    case Mp4AtomIds::AvcConfiguration:
     case FourccIds::Mpeg4Audio:
     case FourccIds::AmrNarrowband:
     case FourccIds::Amr:
-- 
2.43.0


From 6d12b588387a3e01ca679aa300e354a550ce4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:37 +0000
Subject: [PATCH 108/117] fix: avoid false warnings about tags within Ogg files
 containing multiple streams

---
 ogg/oggcontainer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index d822441..ab75a3e 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -323,11 +323,16 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         fileInfo().reportPaddingSizeChanged(fileInfo().paddingSize() + padding);
 
         // do a few sanity checks on the continued-flag and absolute granule position as some Ogg demuxers are picky about them
+        // note: Pages of other streams might be interleaved. Pages without any segments do not contain parts of the tag either.
         static constexpr auto noPacketsFinishOnPage = std::numeric_limits<std::uint64_t>::max();
+        const auto isRelevantPage = [serialNumber = m_iterator.pages()[params.firstPageIndex].streamSerialNumber()](const OggPage &page) {
+            return page.streamSerialNumber() == serialNumber && !page.segmentSizes().empty();
+        };
         if (params.firstPageIndex != params.lastPageIndex) {
             const auto pageCount = params.lastPageIndex - params.firstPageIndex;
             for (auto i = params.firstPageIndex; i < params.lastPageIndex; ++i) {
-                if (const auto &page = m_iterator.pages()[i]; page.absoluteGranulePosition() != noPacketsFinishOnPage) {
+                if (const auto &page = m_iterator.pages()[i]; isRelevantPage(page) && (i != params.firstPageIndex || !params.firstSegmentIndex)
+                    && page.absoluteGranulePosition() != noPacketsFinishOnPage) {
                     diag.emplace_back(DiagLevel::Warning,
                         argsToString("Tag spans over ", pageCount, " pages but absolute granule position of unfinished page at ", page.startOffset(),
                             " is not set to \"-1\" (it is ", page.absoluteGranulePosition(), ")."),
@@ -335,7 +340,7 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
                 }
             }
             for (auto i = params.firstPageIndex + 1; i <= params.lastPageIndex; ++i) {
-                if (const auto &page = m_iterator.pages()[i]; !page.isContinued()) {
+                if (const auto &page = m_iterator.pages()[i]; isRelevantPage(page) && !page.isContinued()) {
                     diag.emplace_back(DiagLevel::Warning,
                         argsToString("The tag is continued in Ogg page at ", page.startOffset(), " but this page is not marked as continued packet."),
                         context);
-- 
2.43.0


From 00a8ef3061cc30da2450640fa5cb1d1ab703e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:46 +0000
Subject: [PATCH 109/117] fix: consider pages without segments when validating
 Ogg pages

---
 ogg/oggcontainer.cpp | 54 ++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index ab75a3e..bf7e44e 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -194,6 +194,38 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
 
     static const auto context = std::string("parsing Ogg bitstream header");
     auto pagesSkipped = false, continueFromHere = false;
+    auto nextPageIndex = std::size_t();
+
+    // define functions to validate pages, including pages without segments (which the iterator skips)
+    const auto validateChecksum = [&](const OggPage &page) {
+        if (m_validateChecksums && page.checksum() != OggPage::computeChecksum(stream(), page.startOffset())) {
+            diag.emplace_back(DiagLevel::Warning,
+                argsToString("The denoted checksum of the Ogg page at ", page.startOffset(), " does not match the computed checksum."), context);
+        }
+    };
+    const auto validateSequenceNumber = [&](OggStream &stream, const OggPage &page) {
+        if (stream.m_currentSequenceNumber != page.sequenceNumber()) {
+            if (stream.m_currentSequenceNumber) {
+                diag.emplace_back(DiagLevel::Warning,
+                    argsToString("Page of stream ", page.streamSerialNumber(), " missing; page sequence number ", stream.m_currentSequenceNumber,
+                        " omitted at ", page.startOffset(), ", found ", page.sequenceNumber(), " instead."),
+                    context);
+            }
+            stream.m_currentSequenceNumber = page.sequenceNumber() + 1;
+        } else {
+            ++stream.m_currentSequenceNumber;
+        }
+    };
+    const auto validatePagesWithoutSegments = [&](std::size_t endIndex) {
+        for (; nextPageIndex < endIndex; ++nextPageIndex) {
+            const auto &page = m_iterator.pages()[nextPageIndex];
+            validateChecksum(page);
+            if (const auto i = m_streamsBySerialNo.find(page.streamSerialNumber()); i != m_streamsBySerialNo.end()) {
+                validateSequenceNumber(*m_tracks[i->second], page);
+            }
+        }
+        ++nextPageIndex;
+    };
 
     // iterate through pages using OggIterator helper class
     try {
@@ -202,12 +234,8 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
             continueFromHere ? [&] { continueFromHere = false; }() : m_iterator.nextPage()) {
             progress.stopIfAborted();
             const OggPage &page = m_iterator.currentPage();
-            if (m_validateChecksums && page.checksum() != OggPage::computeChecksum(stream(), page.startOffset())) {
-                diag.emplace_back(DiagLevel::Warning,
-                    argsToString(
-                        "The denoted checksum of the Ogg page at ", m_iterator.currentSegmentOffset(), " does not match the computed checksum."),
-                    context);
-            }
+            validatePagesWithoutSegments(m_iterator.currentPageIndex());
+            validateChecksum(page);
             OggStream *stream;
             auto lastNewStreamOffset = std::uint64_t();
             if (const auto streamIndex = m_streamsBySerialNo.find(page.streamSerialNumber()); streamIndex != m_streamsBySerialNo.end()) {
@@ -221,17 +249,7 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
             if (!pagesSkipped) {
                 stream->m_size += page.dataSize();
             }
-            if (stream->m_currentSequenceNumber != page.sequenceNumber()) {
-                if (stream->m_currentSequenceNumber) {
-                    diag.emplace_back(DiagLevel::Warning,
-                        argsToString("Page of stream ", page.streamSerialNumber(), " missing; page sequence number ", stream->m_currentSequenceNumber,
-                            " omitted at ", page.startOffset(), ", found ", page.sequenceNumber(), " instead."),
-                        context);
-                }
-                stream->m_currentSequenceNumber = page.sequenceNumber() + 1;
-            } else {
-                ++stream->m_currentSequenceNumber;
-            }
+            validateSequenceNumber(*stream, page);
 
             // skip pages in the middle of a big file (still more than 100 MiB to parse) if no new track has been seen since the last 20 MiB
             if (!fileInfo().isForcingFullParse() && (fileInfo().size() - page.startOffset()) > (100 * 0x100000)
@@ -244,6 +262,7 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
                         trackStream->m_size = 0;
                     }
                     pagesSkipped = continueFromHere = true;
+                    nextPageIndex = m_iterator.currentPageIndex();
                     diag.emplace_back(DiagLevel::Information,
                         argsToString("Pages in the middle of the file (", dataSizeToString(resyncedPage.startOffset() - page.startOffset()),
                             ") have been skipped to improve parsing speed. Hence track sizes can not be computed. Maybe not even all tracks could be "
@@ -257,6 +276,7 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
                 }
             }
         }
+        validatePagesWithoutSegments(m_iterator.pages().size());
     } catch (const TruncatedDataException &) {
         // thrown when page exceeds max size
         diag.emplace_back(DiagLevel::Critical, "The Ogg file is truncated.", context);
-- 
2.43.0


From d6ee6ea22fbdb7a12cf0d96def698b161242a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:26 +0000
Subject: [PATCH 110/117] fix: avoid accessing relocated Ogg page after
 skipping pages

---
 ogg/oggcontainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index bf7e44e..d014ccd 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -254,6 +254,7 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
             // skip pages in the middle of a big file (still more than 100 MiB to parse) if no new track has been seen since the last 20 MiB
             if (!fileInfo().isForcingFullParse() && (fileInfo().size() - page.startOffset()) > (100 * 0x100000)
                 && (page.startOffset() - lastNewStreamOffset) > (20 * 0x100000)) {
+                const auto skipOffset = page.startOffset(); // the page itself might be relocated when re-syncing
                 if (m_iterator.resyncAt(fileInfo().size() - (20 * 0x100000))) {
                     const OggPage &resyncedPage = m_iterator.currentPage();
                     // prevent warning about missing pages by resetting the sequence number of all streams and invalidate the stream size
@@ -264,7 +265,7 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
                     pagesSkipped = continueFromHere = true;
                     nextPageIndex = m_iterator.currentPageIndex();
                     diag.emplace_back(DiagLevel::Information,
-                        argsToString("Pages in the middle of the file (", dataSizeToString(resyncedPage.startOffset() - page.startOffset()),
+                        argsToString("Pages in the middle of the file (", dataSizeToString(resyncedPage.startOffset() - skipOffset),
                             ") have been skipped to improve parsing speed. Hence track sizes can not be computed. Maybe not even all tracks could be "
                             "detected. Force a full parse to prevent this."),
                         context);
-- 
2.43.0


From 66aacf99bd973c5352802457ff19efb1d813e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 111/117] fix: warn if there is no moov atom

---
 mp4/mp4container.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 08e8dba..b414ca4 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -125,7 +125,9 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
     static const string context("parsing tracks of MP4 container");
     try {
         // get moov atom which holds track information
-        if (Mp4Atom *moovAtom = firstElement()->siblingByIdIncludingThis(Mp4AtomIds::Movie, diag)) {
+        if (Mp4Atom *moovAtom = firstElement()->siblingByIdIncludingThis(Mp4AtomIds::Movie, diag); !moovAtom) {
+            diag.emplace_back(DiagLevel::Warning, "No moov atom found. There is no track information present.", context);
+        } else {
             // get mvhd atom which holds overall track information
             if (Mp4Atom *mvhdAtom = moovAtom->childById(Mp4AtomIds::MovieHeader, diag)) {
                 if (mvhdAtom->dataSize() > 0) {
-- 
2.43.0


From f978d642daf79aaa246c9fa77ba9ed1f397809cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 112/117] fix: report truncated tkhd, mdhd and stsd atoms

---
 mp4/mp4track.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 9165afd..38e6a2c 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1678,8 +1678,11 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     BinaryReader &reader = m_trakAtom->reader();
 
     // read tkhd atom
-    m_istream->seekg(static_cast<streamoff>(m_tkhdAtom->startOffset() + 8)); // seek to beg, skip size and name
+    m_istream->seekg(static_cast<streamoff>(m_tkhdAtom->dataOffset())); // seek to beg, skip size and name
     auto atomVersion = reader.readByte(); // read version
+    if (m_tkhdAtom->dataSize() < (atomVersion == 1 ? 36u : 24u)) {
+        diag.emplace_back(DiagLevel::Critical, "The \"tkhd\"-atom is truncated. Track ID, creation time and modification time might be wrong.", context);
+    }
     const auto flags = reader.readUInt24BE();
     modFlagEnum(m_flags, TrackFlags::Enabled, flags & 0x000001);
     modFlagEnum(m_flags, TrackFlags::UsedInPresentation, flags & 0x000002);
@@ -1712,6 +1715,10 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     // read mdhd atom
     m_istream->seekg(static_cast<streamoff>(m_mdhdAtom->dataOffset())); // seek to beg, skip size and name
     atomVersion = reader.readByte(); // read version
+    if (m_mdhdAtom->dataSize() < (atomVersion == 1 ? 34u : 22u)) {
+        diag.emplace_back(DiagLevel::Critical,
+            "The \"mdhd\"-atom is truncated. Creation time, modification time, time scale, duration and language might be wrong.", context);
+    }
     m_istream->seekg(3, ios_base::cur); // skip flags
     switch (atomVersion) {
     case 0:
@@ -1799,10 +1806,16 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
 
     // read stsd atom
     m_istream->seekg(static_cast<streamoff>(m_stsdAtom->dataOffset() + 4)); // seek to beg, skip size, name, version and flags
-    const auto entryCount = reader.readUInt32BE();
+    if (m_stsdAtom->dataSize() < 8) {
+        diag.emplace_back(DiagLevel::Critical, "The \"stsd\"-atom is truncated.", context);
+    }
+    const auto entryCount = m_stsdAtom->dataSize() < 8 ? 0u : reader.readUInt32BE();
     Mp4Atom *esDescParentAtom = nullptr;
     if (entryCount) {
         try {
+            if (!m_stsdAtom->firstChild()) {
+                diag.emplace_back(DiagLevel::Critical, "The \"stsd\"-atom is truncated. It does not contain any entries.", context);
+            }
             for (Mp4Atom *codecConfigContainerAtom = m_stsdAtom->firstChild(); codecConfigContainerAtom;
                 codecConfigContainerAtom = codecConfigContainerAtom->nextSibling()) {
                 codecConfigContainerAtom->parse(diag);
-- 
2.43.0


From ff4710c78db37929027ccfd1c81548868fe58ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 113/117] fix: avoid reading Vorbis comment beyond the end of
 its packet

---
 vorbis/vorbiscomment.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 9623353..b12b17f 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -367,6 +367,38 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
     }
 }
 
+/// \cond
+/*!
+ * \brief Returns the number of bytes which are left in the packet the specified \a iterator currently points to.
+ */
+static std::uint64_t remainingBytesInPacket(OggIterator &iterator)
+{
+    if (!iterator) {
+        return 0;
+    }
+    const auto pageIndex = iterator.currentPageIndex();
+    const auto segmentIndex = iterator.currentSegmentIndex();
+    const auto bytesRead = iterator.bytesReadFromCurrentSegment();
+    auto bytesRemaining = iterator.remainingBytesInCurrentSegment();
+    try {
+        while (iterator.currentPage().isLastSegmentUnconcluded()
+            && iterator.currentSegmentIndex() + 1 == iterator.currentPage().segmentSizes().size()) {
+            iterator.nextSegment();
+            if (!iterator) {
+                break;
+            }
+            bytesRemaining += iterator.remainingBytesInCurrentSegment();
+        }
+    } catch (const Failure &) {
+        // the page the packet continues on is invalid so the packet ends here
+    }
+    iterator.setPageIndex(pageIndex);
+    iterator.setSegmentIndex(segmentIndex);
+    iterator.ignore(bytesRead);
+    return bytesRemaining;
+}
+/// \endcond
+
 /*!
  * \brief Parses tag information using the specified Ogg \a iterator.
  *
@@ -377,7 +409,7 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
 void VorbisComment::parse(OggIterator &iterator, VorbisCommentFlags flags, Diagnostics &diag)
 {
     auto padding = std::uint64_t();
-    internalParse(iterator, iterator.streamSize(), flags, padding, diag);
+    internalParse(iterator, remainingBytesInPacket(iterator), flags, padding, diag);
 }
 
 /*!
@@ -389,7 +421,7 @@ void VorbisComment::parse(OggIterator &iterator, VorbisCommentFlags flags, Diagn
  */
 void VorbisComment::parse(OggIterator &iterator, VorbisCommentFlags flags, std::uint64_t &padding, Diagnostics &diag)
 {
-    internalParse(iterator, iterator.streamSize(), flags, padding, diag);
+    internalParse(iterator, remainingBytesInPacket(iterator), flags, padding, diag);
 }
 
 /*!
-- 
2.43.0


From 4b6266279f2dc98bd654d6d186efa8f158f04417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 114/117] fix: report FLAC metadata blocks exceeding the end of
 the file

---
 flac/flacstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 6ae3b6f..ccaf1f5 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -10,6 +10,7 @@
 
 #include "resources/config.h"
 
+#include <c++utilities/conversion/stringbuilder.h>
 #include <c++utilities/io/copy.h>
 
 #include <sstream>
@@ -96,6 +97,10 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
         const auto dataOffset = static_cast<std::uint64_t>(startOffset);
         const auto availableSize = m_mediaFileInfo.size() > dataOffset ? m_mediaFileInfo.size() - dataOffset : 0u;
         const auto dataSize = static_cast<std::uint32_t>(std::min<std::uint64_t>(header.dataSize(), availableSize));
+        if (dataSize < header.dataSize()) {
+            diag.emplace_back(
+                DiagLevel::Critical, argsToString("The metadata block at ", dataOffset - 4, " exceeds the end of the file."), context);
+        }
 
         // parse relevant meta data
         switch (static_cast<FlacMetaDataBlockType>(header.type())) {
-- 
2.43.0


From d37b79105e65b1aee956c1e2ea17185a79187435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:59 +0000
Subject: [PATCH 115/117] fix: transfer values when converting between ID3v1
 and ID3v2 tags

---
 mediafileinfo.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index e8f9159..becd783 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1470,8 +1470,10 @@ bool MediaFileInfo::id3v1ToId3v2()
     if (tagsParsingStatus() == ParsingStatus::NotParsedYet || !areTagsSupported() || !hasId3v1Tag()) {
         return false;
     }
-    return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Never, TagUsage::Always, 3 });
+    return createAppropriateTags(TagCreationSettings{ {},
+        TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Never, TagUsage::Always, 3 });
 }
 
 /*!
@@ -1489,8 +1491,10 @@ bool MediaFileInfo::id3v2ToId3v1()
     if (tagsParsingStatus() == ParsingStatus::NotParsedYet || !areTagsSupported() || !hasId3v2Tag()) {
         return false;
     }
-    return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Always, TagUsage::Never, 3 });
+    return createAppropriateTags(TagCreationSettings{ {},
+        TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Always, TagUsage::Never, 3 });
 }
 
 /*!
-- 
2.43.0


From e52c16eb6a7624511a1dd09f628620268d52d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:59 +0000
Subject: [PATCH 116/117] fix: ensure values transferred to ID3v1 tag are
 properly encoded

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index becd783..5d1c565 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -725,6 +725,8 @@ bool MediaFileInfo::createAppropriateTags(const TagCreationSettings &settings)
             for (const auto &tag : id3v2Tags()) {
                 id3v1Tag()->insertValues(*tag, false);
             }
+            // ID3v1 does not support all text encodings which might be used in ID3v2
+            id3v1Tag()->ensureTextValuesAreProperlyEncoded();
         }
         removeAllId3v2Tags();
     } else if (!(flags & TagCreationFlags::KeepExistingId3v2Version)) {
-- 
2.43.0


From 368234a0d4990f23a7d833e8198d00f05e05cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:59 +0000
Subject: [PATCH 117/117] fix: treat empty ID3v1 genre as unset

---
 id3/id3v1tag.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 168a7ec..62582b2 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -81,7 +81,11 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     if (is11) {
         m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
-    m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
+    if (const auto genreIndex = *reinterpret_cast<unsigned char *>(buffer + 127); !Id3Genres::isEmptyGenre(genreIndex)) {
+        m_genre.assignStandardGenreIndex(genreIndex);
+    } else {
+        m_genre.clearDataAndMetadata();
+    }
 }
 
 /*!
-- 
2.43.0

