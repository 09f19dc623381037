import sys; sys.path.insert(0,'/verif/tools/seedkit'); from mkseed import make
MP4 = '''
def build(counts, co64=False):
    """tracks with so many chunks each (one sample per chunk), interleaved as far as possible"""
    order = sorted(((i, t) for t, n in enumerate(counts) for i in range(n)))
    data = {k: pay(150 + 31 * k[0] + 7 * k[1], k[0] * 5 + k[1]) for k in order}
    def moov(base):
        pos, o = {}, base
        for k in order:
            pos[k] = o; o += len(data[k])
        return atom("moov", mvhd(tracks=len(counts)) + b"".join(trak(t + 1, stbl([len(data[(i, t)]) for i in range(n)], [(1, 1, 1)][:1] and [(1, 1)], [pos[(i, t)] for i in range(n)], co64)) for t, n in enumerate(counts)))
    base = len(FTYP) + len(moov(0)) + 8
    return FTYP + moov(base) + atom("mdat", b"".join(data[k] for k in order)), data
def same(d, data, index, t, n):
    offs = offsets(d, index)
    return len(offs) == n and all(d[o:o + len(data[(i, t)])] == data[(i, t)] for i, o in enumerate(offs))
'''
make("C09-co64-last-entry", "C09", "a track using co64 (64-bit) chunk offsets and a change which moves the media data",
 "the last entry of every co64 table keeps the old offset, so the last chunk of the track is read from the wrong place",
 [("mp4/mp4track.cpp", "while ((currentPos + 8) <= endPos) {", "while ((currentPos + 8) < endPos) {")],
 MP4 + '''
for co64 in (False, True):
    f, data = build([3, 2], co64)
    wr("a.mp4", f)
    rc, out = tp("a.mp4", "parse", "create", "Title=" + "x" * 300, "apply")
    check(rc == 0, "changes applied " + out)
    d = rd("a.mp4")
    check(same(d, data, 0, 0, 3) and same(d, data, 1, 1, 2), "chunks resolved, co64=%d" % co64)
''')
make("C09-stco-relocation-equal", "C09", "several top-level data atoms (mdat, an unknown atom, mdat): the relocated entry's atom is not the last one; tag after data and moved before it",
 "the relocation uses the distance of the first copied atom for all chunks if an unknown atom is between two mdat atoms",
 [("mp4/mp4container.cpp", "                            newMediaDataOffsets.push_back(outputStream.tellp());",
   "                            newMediaDataOffsets.push_back(newMediaDataOffsets.empty() || level0Atom->id() != Mp4AtomIds::MediaData\n                                    ? static_cast<std::int64_t>(outputStream.tellp())\n                                    : newMediaDataOffsets.front() + (origMediaDataOffsets.back() - origMediaDataOffsets.front()));")],
 '''
a, b = pay(400, 1), pay(500, 2)
def build(base1, base2):
    return FTYP + atom("moov", mvhd(tracks=1) + trak(1, stbl([len(a), len(b)], [(1, 1)], [base1, base2])))
m = len(build(0, 0))
for mid in (b"", atom("free", bytes(50)), atom("skip", bytes(60)) ):
    f = build(m + 8, m + 8 + len(a) + len(mid) + 8) + atom("mdat", a) + mid + atom("mdat", b)
    wr("a.mp4", f)
    rc, out = tp("a.mp4", "parse", "create", "Title=" + "x" * 300, "apply")
    check(rc == 0, "changes applied " + out)
    d = rd("a.mp4"); o = offsets(d, 0)
    check(d[o[0]:o[0] + len(a)] == a and d[o[1]:o[1] + len(b)] == b, "chunks of both media data atoms resolved")
''')
make("C09-uneven-chunks", "C09", "a track has been removed (so media data is written chunk by chunk) and the last remaining track has fewer chunks than another one",
 "copying chunks stops when the last track is exhausted; remaining chunks of the other tracks are lost",
 [("mp4/mp4container.cpp", "                            anyChunksCopied = false;\n                            for (size_t trackIndex = 0; trackIndex < trackCount; ++trackIndex) {\n",
   "                            for (size_t trackIndex = 0; trackIndex < trackCount; ++trackIndex) {\n                                anyChunksCopied = false;\n")],
 MP4 + '''
f, data = build([2, 5, 2])
wr("a.mp4", f)
rc, out = tp("a.mp4", "parse", "create", "Title=x", "rmtrack=1", "apply")
check(rc == 0, "changes applied " + out)
d = rd("a.mp4")
check(same(d, data, 0, 1, 5) and same(d, data, 1, 2, 2), "chunks of remaining tracks resolved")
''')
make("C10-cuepoint-size", "C10", "a CuePoint with several CueTrackPositions whose size crosses 127 bytes because cluster positions get longer when the data is moved",
 "the size denotation of the parent is not accounted for, so the sizes of Cues and CuePoint do not match their children",
 [("matroska/matroskacues.cpp", "        shift + static_cast<int>(EbmlElement::calculateSizeDenotationLength(newSize))\n            - static_cast<int>(EbmlElement::calculateSizeDenotationLength(size)));",
   "        shift + static_cast<int>(newSize > 0x3FFF) - static_cast<int>(size > 0x3FFF));")],
 '''
def build(npos):
    clusters, offs, blocks = b"", [], []
    head = info() + tracks(2)
    def cues(o): return el(0x1C53BB6B, el(0xBB, u(0xB3, 0) + b"".join(el(0xB7, u(0xF7, 1) + u(0xF1, o[i % len(o)])) for i in range(npos))))
    cl = [el(0x1F43B675, u(0xE7, i) + block(1, 0, pay(30, i))) for i in range(2)]
    o = [200, 250]
    for _ in range(5):
        base = len(head) + len(cues(o)); n = []
        for c in cl: n.append(base); base += len(c)
        o = n
    return EBML + el(0x18538067, head + cues(o) + cl[0] + cl[1])
for npos in range(9, 22):
    wr("a.mkv", build(npos))
    rc, out = tp("a.mkv", "parse", "create", "Title=" + "x" * 400, "prefPad=100", "minPad=10", "maxPad=1000", "tagPos=before", "indexPos=before", "apply")
    check(rc == 0, "changes applied " + out)
    d = rd("a.mkv")
    cl = [a[1] for a in efind(d, 0x18538067, 0x1F43B675)]
    seg = efind(d, 0x18538067)[0]
    pos = [int.from_bytes(d[a[1] + a[2]:a[1] + a[3]], "big") + seg[1] + seg[2] for a in efind(d, 0x18538067, 0x1C53BB6B, 0xBB, 0xB7, 0xF1)]
    check(len(pos) == npos and pos == [cl[i % 2] for i in range(npos)], "cues resolved for %d positions" % npos)
''')
make("C10-relative-position-void", "C10", "a Void element inside a cluster before a block referred to by a cue with a relative position",
 "relative positions of cues are looked up without counting the voided bytes, so the cue keeps the stale relative position",
 [("matroska/matroskacontainer.cpp", "                                        clusterSize += level2Element->totalSize();\n                                    }\n                                    clusterReadSize += level2Element->totalSize();",
   "                                        clusterSize += level2Element->totalSize();\n                                    }\n                                    clusterReadSize += level2Element->id() == EbmlIds::Void ? 0u : level2Element->totalSize();")],
 '''
head = info() + tracks(1)
parts = [u(0xE7, 0), el(0xEC, bytes(37)), block(1, 0, pay(50, 1)), block(1, 5, pay(60, 2))]
c = el(0x1F43B675, b"".join(parts))
rel = sum(map(len, parts[:3]))
def cues(p): return el(0x1C53BB6B, el(0xBB, u(0xB3, 5) + el(0xB7, u(0xF7, 1) + u(0xF1, p, 2) + u(0xF0, rel, 2))))
f = EBML + el(0x18538067, head + cues(len(head) + len(cues(0))) + c)
wr("a.mkv", f)
rc, out = tp("a.mkv", "parse", "create", "Title=abc", "tagPos=before", "apply")
check(rc == 0, "changes applied " + out)
d = rd("a.mkv")
r = efind(d, 0x18538067, 0x1C53BB6B, 0xBB, 0xB7, 0xF0)[0]
rel = int.from_bytes(d[r[1] + r[2]:r[1] + r[3]], "big")
cl = efind(d, 0x18538067, 0x1F43B675)[0]
check(d[cl[1] + cl[2] + rel:][:len(parts[3])] == parts[3], "relative position refers to the block")
''')
