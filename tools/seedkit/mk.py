"""Small file makers and readers for the demonstrations."""
import os, struct, subprocess, sys, zlib
TP = os.environ["TP"]
def tp(path, *cmds):
    """Runs the driver; returns (exit code, output)."""
    p = subprocess.run([TP, path, *cmds], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    return p.returncode, p.stdout.decode("utf-8", "replace")
def wr(path, data):
    with open(path, "wb") as f: f.write(data)
def rd(path):
    with open(path, "rb") as f: return f.read()
def check(ok, what):
    if not ok:
        print("FAILED: " + what)
        sys.exit(1)
    print("ok: " + what)
def pay(n, seed=1):
    return bytes(1 + (i * 7 + seed * 31 + (i >> 8) * 13) % 250 for i in range(n))
# --- MP4
def atom(t, data=b"", wide=False):
    t = t.encode("latin1") if isinstance(t, str) else t
    if wide: return struct.pack(">I4sQ", 1, t, len(data) + 16) + data
    return struct.pack(">I4s", len(data) + 8, t) + data
def full(t, ver, flags, data=b""):
    return atom(t, struct.pack(">I", ver << 24 | flags) + data)
MATRIX = struct.pack(">9I", 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000)
def mvhd(ts=1000, dur=1000, tracks=1):
    return full("mvhd", 0, 0, struct.pack(">4I", 0, 0, ts, dur) + struct.pack(">IH", 0x10000, 0x100) + bytes(10) + MATRIX + bytes(24) + struct.pack(">I", tracks + 1))
def trak(tid, stbl, ts=1000, dur=1000, hdlr="soun", lang=0x15c7, name=b"", extra=b""):
    tkhd = full("tkhd", 0, 7, struct.pack(">5I", 0, 0, tid, 0, dur) + bytes(8) + bytes(4) + struct.pack(">HH", 0x100, 0) + MATRIX + bytes(8))
    mdhd = full("mdhd", 0, 0, struct.pack(">4IHH", 0, 0, ts, dur, lang, 0))
    h = full("hdlr", 0, 0, bytes(4) + hdlr.encode() + bytes(12) + name + b"\0")
    dinf = atom("dinf", full("dref", 0, 0, struct.pack(">I", 1) + full("url ", 0, 1)))
    minf = atom("minf", full("smhd", 0, 0, bytes(4)) + dinf + stbl)
    return atom("trak", tkhd + atom("mdia", mdhd + h + minf) + extra)
def stsd(fmt="mp4a"):
    return full("stsd", 0, 0, struct.pack(">I", 1) + atom(fmt, bytes(6) + struct.pack(">H", 1) + bytes(8) + struct.pack(">HHHHI", 2, 16, 0, 0, 44100 << 16)))
def stbl(sizes, stsc, offsets, co64=False, fixed=0, fmt="mp4a"):
    n = len(sizes)
    b = stsd(fmt) + full("stts", 0, 0, struct.pack(">3I", 1, n, 10))
    b += full("stsc", 0, 0, struct.pack(">I", len(stsc)) + b"".join(struct.pack(">3I", a, c, 1) for a, c in stsc))
    b += full("stsz", 0, 0, struct.pack(">2I", fixed, n) + (b"" if fixed else b"".join(struct.pack(">I", x) for x in sizes)))
    b += full("co64" if co64 else "stco", 0, 0, struct.pack(">I", len(offsets)) + b"".join(struct.pack(">Q" if co64 else ">I", o) for o in offsets))
    return atom("stbl", b)
FTYP = atom("ftyp", b"M4A \0\0\0\0M4A mp42isom")
def atoms(d, off=0, end=None):
    end = len(d) if end is None else end
    r = []
    while off < end:
        size, t = struct.unpack(">I4s", d[off:off + 8]); h = 8
        if size == 1: size, h = struct.unpack(">Q", d[off + 8:off + 16])[0], 16
        if size == 0: size = end - off
        if size < h or off + size > end: raise ValueError("bad atom at %d" % off)
        r.append((t.decode("latin1"), off, h, size)); off += size
    return r
def find(d, *path):
    """All atoms at the path of types."""
    cur = [("", 0, 0, len(d))]
    for p in path:
        nxt = []
        for t, o, h, s in cur:
            nxt += [a for a in atoms(d, o + h + (4 if t == "meta" else 0), o + s) if a[0] == p]
        cur = nxt
    return cur
def body(d, a): return d[a[1] + a[2]:a[1] + a[3]]
def offsets(d, track):
    """Chunk offsets of the track with this index."""
    t = find(d, "moov", "trak")[track]
    sub = d[t[1]:t[1] + t[3]]
    for n, w in (("stco", 4), ("co64", 8)):
        r = find(sub, "trak", "mdia", "minf", "stbl", n)
        if r:
            b = body(sub, r[0]); n = struct.unpack(">I", b[4:8])[0]
            return [int.from_bytes(b[8 + i * w:8 + i * w + w], "big") for i in range(n)]
    return []
# --- Matroska
def vint(n, w=None):
    if w is None:
        w = 1
        while n >= (1 << (7 * w)) - 1: w += 1
    return (n | 1 << (7 * w)).to_bytes(w, "big")
def el(i, data=b"", w=None):
    return i.to_bytes((i.bit_length() + 7) // 8, "big") + vint(len(data), w) + data
def u(i, v, width=None):
    return el(i, v.to_bytes(width or max(1, (v.bit_length() + 7) // 8), "big"))
def st(i, s): return el(i, s.encode() if isinstance(s, str) else s)
EBML = el(0x1A45DFA3, u(0x4286, 1) + u(0x42F7, 1) + u(0x42F2, 4) + u(0x42F3, 8) + st(0x4282, "matroska") + u(0x4287, 4) + u(0x4285, 2))
def info(title=None): return el(0x1549A966, u(0x2AD7B1, 1000000) + st(0x4D80, "mux") + st(0x5741, "wr") + (st(0x7BA9, title) if title else b""))
def tracks(n=1): return el(0x1654AE6B, b"".join(el(0xAE, u(0xD7, i + 1) + u(0x73C5, i + 77) + u(0x83, 2) + st(0x86, "A_OPUS") + el(0xE1, el(0xB5, struct.pack(">d", 48000.0)) + u(0x9F, 2))) for i in range(n)))
def block(track, t, data, flags=0x80): return el(0xA3, vint(track) + struct.pack(">hB", t, flags) + data)
def els(d, off=0, end=None):
    end = len(d) if end is None else end
    r = []
    while off < end:
        b = d[off]; n = 1
        while not b & (0x80 >> (n - 1)): n += 1
        i = int.from_bytes(d[off:off + n], "big")
        b = d[off + n]; w = 1
        while not b & (0x80 >> (w - 1)): w += 1
        s = int.from_bytes(d[off + n:off + n + w], "big") & ((1 << (7 * w)) - 1)
        if off + n + w + s > end: raise ValueError("element exceeds parent at %d" % off)
        r.append((i, off, n + w, n + w + s)); off += n + w + s
    return r
def efind(d, *path):
    cur = [(0, 0, 0, len(d))]
    for p in path:
        cur = [a for t, o, h, s in cur for a in els(d, o + h, o + s) if a[0] == p]
    return cur
# --- Ogg
def oggcrc(data):
    c = 0
    for b in data:
        c ^= b << 24
        for _ in range(8): c = (c << 1 ^ 0x04C11DB7) & 0xFFFFFFFF if c & 0x80000000 else c << 1
    return c
def page(segs, data, serial=1, seq=0, gran=0, flags=0):
    h = struct.pack("<4sBBqIIIB", b"OggS", 0, flags, gran, serial, seq, 0, len(segs)) + bytes(segs)
    p = h + data
    return p[:22] + struct.pack("<I", oggcrc(p)) + p[26:]
def lace(n): return [255] * (n // 255) + [n % 255]
def pages(d):
    r, o = [], 0
    while o < len(d):
        if d[o:o + 4] != b"OggS": raise ValueError("no page at %d" % o)
        flags, gran, serial, seq, crc, n = struct.unpack("<BqIIIB", d[o + 5:o + 27])
        segs = list(d[o + 27:o + 27 + n]); ds = o + 27 + n; e = ds + sum(segs)
        raw = d[o:o + 22] + bytes(4) + d[o + 26:e]
        r.append(dict(flags=flags, gran=gran, serial=serial, seq=seq, crc_ok=oggcrc(raw) == crc, segs=segs, data=d[ds:e], off=o)); o = e
    return r
def packets(ps, serial=None):
    cur, out = {}, []
    for p in ps:
        if serial is not None and p["serial"] != serial: continue
        o = 0
        for s in p["segs"]:
            cur[p["serial"]] = cur.get(p["serial"], b"") + p["data"][o:o + s]; o += s
            if s < 255: out.append((p["serial"], cur.pop(p["serial"])))
    return out
def vc(fields, vendor=b"vend"):
    b = struct.pack("<I", len(vendor)) + vendor + struct.pack("<I", len(fields))
    for f in fields: b += struct.pack("<I", len(f)) + f
    return b
VORBIS_ID = b"\x01vorbis" + struct.pack("<IBIiiiBB", 0, 2, 44100, 0, 128000, 0, 0xB8, 1)
def vorbis_comment(fields): return b"\x03vorbis" + vc(fields) + b"\x01"
# --- FLAC
def streaminfo(rate=44100, ch=2, bits=16, samples=44100):
    return struct.pack(">HH", 4096, 4096) + (0).to_bytes(3, "big") * 2 + ((rate << 44) | ((ch - 1) << 41) | ((bits - 1) << 36) | samples).to_bytes(8, "big") + bytes(16)
def fblock(t, data, last=False): return bytes([t | (0x80 if last else 0)]) + len(data).to_bytes(3, "big") + data
def fblocks(d, off=4):
    r = []
    while True:
        t = d[off]; n = int.from_bytes(d[off + 1:off + 4], "big")
        r.append((t & 0x7F, d[off + 4:off + 4 + n])); off += 4 + n
        if t & 0x80: return r, off
# --- ID3
def syncsafe(n): return bytes([(n >> 21) & 127, (n >> 14) & 127, (n >> 7) & 127, n & 127])
def frame(i, data, ver=4, flags=0):
    i = i.encode()
    if ver == 2: return i + len(data).to_bytes(3, "big") + data
    return i + (syncsafe(len(data)) if ver >= 4 else struct.pack(">I", len(data))) + struct.pack(">H", flags) + data
def id3v2(frames, ver=4, pad=0, flags=0): 
    b = b"".join(frames) + bytes(pad)
    return b"ID3" + bytes([ver, 0, flags]) + syncsafe(len(b)) + b
def unss(b): return b[0] << 21 | b[1] << 14 | b[2] << 7 | b[3]
def id3frames(d):
    """(frames, end of tag) of the ID3v2.3/4 tag at the beginning."""
    if d[:3] != b"ID3": return [], 0
    ver, end, o, r = d[3], 10 + unss(d[6:10]), 10, []
    while o + 10 <= end and d[o]:
        n = unss(d[o + 4:o + 8]) if ver >= 4 else struct.unpack(">I", d[o + 4:o + 8])[0]
        r.append((d[o:o + 4].decode("latin1"), d[o + 8:o + 10], d[o + 10:o + 10 + n])); o += 10 + n
    return r, end
def id3v1(title=b"", artist=b"", album=b"", year=b"", comment=b"", track=0, genre=255):
    f = lambda s, n: s[:n].ljust(n, b"\0")
    return b"TAG" + f(title, 30) + f(artist, 30) + f(album, 30) + f(year, 4) + f(comment, 28) + b"\0" + bytes([track, genre])
def mpeg(n=20, seed=0):
    """MPEG 1 layer III frames, 128 kbit/s, 44100 Hz."""
    return b"".join(b"\xff\xfb\x90\x44" + pay(413, i + seed) for i in range(n))
