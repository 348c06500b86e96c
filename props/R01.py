"""The blocks of an SRS file and the numbers of Matroska read back as written."""
import struct
from symex.run import Harness

PRELOAD = ("resample.main",)
BOUNDS = ("EBML numbers of every width (1-8 bytes) and value, written ones below 2^49; laces of 1-3 frames of any sizes (Xiph: up "
          "to 5200 bytes, 1200 for three frames); sample names of 1-3 any characters, any size and checksum; track numbers, lengths, offsets of "
          "the whole 32/64-bit range, signatures of any length and content, fingerprints of any length")
OUTSIDE = "longer laces; surrogates in names"


def _be(h, n, width):
	b = b""
	for i in range(width):
		b = b + struct.pack("<B", (n >> (8 * (width - 1 - i))) & 0xFF)
	return b


def vint(h, n, width):
	"""reference encoding: a one bit behind width-1 zero bits, then the number"""
	b = struct.pack("<Q", n)[:width][::-1]
	return struct.pack("<B", b[0] + (1 << (8 - width))) + b[1:]


def read_uint(h):
	e = h.mod("resample.ebml")
	w = h.case["w"]
	n = h.int("n", 0, (1 << (7 * w)) - 1)
	enc = vint(h, n, w)
	h.check(e.GetUIntLength(enc[0]) == w, "width of the number")
	h.check(e.GetEbmlUInt(b"zz" + enc + b"q", 2, w) == n, "number in a buffer")
	v, c = e.GetEbmlUIntStream(h.bytesio(enc + b"tail"))
	h.check(v == n, "number from a stream")
	h.check(c == w, "bytes taken")
	h.reach("end")


def make_uint(h):
	e = h.mod("resample.ebml")
	n = h.int("n", 0, (1 << 49) - 1)
	d = e.MakeEbmlUInt(n)
	v, c = e.GetEbmlUIntStream(h.bytesio(bytes(d)))
	h.check(v == n, "reads back")
	h.check(c == len(d), "its own width")
	h.check(e.GetUIntLength(d[0]) == len(d), "width in the first byte")
	h.reach("end")


def lace(h):
	e = h.mod("resample.ebml")
	kind, n = h.case["kind"], h.case["n"]
	mx = (5200 if n < 3 else 519 if n > 3 else 1200) if kind == "xiph" else h.case.get("max", 1 << 20)
	sizes = [h.int("s%d" % i, 0, mx) for i in range(n)]
	if kind == "none":
		L = e.EbmlLaceType.NONE
		head = b""
	elif kind == "fixed":
		L = e.EbmlLaceType.FIXED
		for s in sizes:
			h.assume(s == sizes[0])
		head = struct.pack("<B", n - 1)
	elif kind == "xiph":
		L = e.EbmlLaceType.XIPH
		head = struct.pack("<B", n - 1)
		for s in sizes[:-1]:
			k = s
			while k >= 255:
				head = head + b"\xff"
				k = k - 255
			head = head + struct.pack("<B", k)
	else:
		L = e.EbmlLaceType.EBML
		head = struct.pack("<B", n - 1)
		w = h.case["w"]
		for i, s in enumerate(sizes[:-1]):
			if i == 0:
				h.assume(s < (1 << (7 * w)) - 1)
				head = head + vint(h, s, w)
			else:
				d = s - sizes[i - 1]
				w2 = h.case["w2"]
				bias = (1 << (7 * w2 - 1)) - 1
				h.assume(h.all(d + bias >= 0, d + bias < (1 << (7 * w2)) - 1))
				head = head + vint(h, d + bias, w2)
	total = len(head)
	for s in sizes:
		total = total + s
	st = h.bytesio(head + h.blob("frames", 0, 1 << 22))
	got, used = e.GetBlockFrameLengths(L, total, st)
	h.check(used == len(head), "length of the lace header")
	h.check(len(got) == n, "number of frames")
	for g, s in zip(got, sizes):
		h.check(g == s, "size of a frame")
	h.reach("end")


CONT = ["ebml", "riff", "mov", "asf", "flac", "mp3", "stream"]


def unwrap(h, m, kind, raw, which):
	"""the data of a block, taken out of its container by the format"""
	n = len(raw)
	if kind == "ebml":
		h.eq(raw[:2], b"\x6A\x75" if which == "F" else b"\x6B\x75", "id")
		first = raw[2]
		for w in range(1, 9):
			if first >= 1 << (8 - w):
				break
		v = first - (1 << (8 - w))
		for i in range(1, w):
			v = v * 256 + raw[2 + i]
		head = 2 + w
	elif kind == "riff":
		h.eq(raw[:4], b"SRSF" if which == "F" else b"SRST", "id")
		v, head = struct.unpack("<L", raw[4:8])[0], 8
	elif kind == "mov":
		h.eq(raw[4:8], b"SRSF" if which == "F" else b"SRST", "id")
		v, head = struct.unpack(">L", raw[:4])[0] - 8, 8
	elif kind == "asf":
		h.eq(raw[:16], b"SRSFSRSFSRSFSRSF" if which == "F" else b"SRSTSRSTSRSTSRST", "id")
		v, head = struct.unpack("<Q", raw[16:24])[0] - 24, 24
	elif kind == "flac":
		h.eq(raw[:1], b"s" if which == "F" else b"t", "id")
		v, head = struct.unpack(">L", b"\0" + raw[1:4])[0], 4
	else:
		h.eq(raw[:4], b"SRSF" if which == "F" else b"SRST", "id")
		v, head = struct.unpack("<L", raw[4:8])[0] - 8, 8
	h.check(v + head <= n, "the length is the block's")
	return raw[head:head + v], raw[head + v:]


def file_data(h):
	m = h.mod("resample.main")
	kind = h.case["kind"]
	name = h.str("n", h.case.get("n", 2), 1, 0x10FFFF)
	for c in name:
		h.assume(h.no(h.any(h.all(ord(c) >= 0xD800, ord(c) <= 0xDFFF), ord(c) == 0x2F)))
	size = h.int("size", 0, (1 << 64) - 1)
	crc = h.int("crc", 0, 0xFFFFFFFF)
	seed = struct.pack("<HH", 3, 1) + b"a" + struct.pack("<H", 1) + b"q" + struct.pack("<QL", 0, 0)
	f = m.FileData(seed)
	f.sample_name = h.case.get("dir", "") + name
	f.size = size
	f.crc32 = crc
	f.flags = h.int("flags", 0, 3)
	raw = getattr(f, "serialize_as_" + kind)()
	data, rest = unwrap(h, m, kind, bytes(raw), "F")
	h.check(len(rest) == 0, "nothing behind it")
	g = m.FileData(bytes(data))
	h.check(g.name == name, "the name")
	h.check(g.sample_name == name, "the sample name")
	h.check(g.size == size, "the size")
	h.check(g.crc32 == crc, "the checksum")
	h.check(g.flags == f.flags, "the flags")
	h.reach("end")


def track_data(h):
	m = h.mod("resample.main")
	kind = h.case["kind"]
	t = m.TrackData()
	big = h.case["big"]
	t.track_number = h.int("no", 0, (1 << 32) - 1)
	t.data_length = h.int("len", 0, (1 << 64) - 1 if big else (1 << 32) - 1)
	t.match_offset = h.int("off", 0, (1 << 64) - 1)
	t.signature_bytes = h.blob("sig", 0, 65535)
	if big:
		t.flags |= t.BIG_FILE
	fp = h.case.get("fp")
	if fp:
		t.fingerprint = h.blob("fp", 0, 100000)
		t.duration = h.int("dur", 0, (1 << 32) - 1)
	raw = bytes(getattr(t, "serialize_as_" + kind)())
	data, rest = unwrap(h, m, kind, raw, "T")
	g = m.TrackData(data)
	h.check(g.track_number == t.track_number, "the track number")
	h.check(g.data_length == t.data_length, "the length")
	h.check(g.match_offset == t.match_offset, "the offset")
	h.eq(g.signature_bytes, t.signature_bytes, "the signature")
	if fp:
		if kind == "flac":
			h.eq(rest[:1], b"u", "fingerprint block")
			v, head = struct.unpack(">L", b"\0" + rest[1:4])[0], 4
		else:
			h.eq(rest[:4], b"SRSP", "fingerprint block")
			v, head = struct.unpack("<L", rest[4:8])[0] - 8, 8
		h.check(v + head == len(rest), "length of the fingerprint block")
		m.read_fingerprint_data(g, rest[head:])
		h.check(g.duration == t.duration, "duration")
		h.eq(g.fingerprint, t.fingerprint, "fingerprint")
	else:
		h.check(len(rest) == 0, "nothing behind it")
	h.reach("end")


def _f_cases(tier):
	out = []
	for k in CONT:
		out.append({"kind": k, "n": 2})
		if k in ("ebml", "mp3") or tier == "thorough":
			out.append({"kind": k, "n": 1, "dir": "some/dir/"})
		if tier == "thorough":
			out.append({"kind": k, "n": 3})
	return out


def _t_cases():
	out = [{"kind": k, "big": b} for k in CONT for b in (False, True)]
	out += [{"kind": k, "big": False, "fp": True} for k in ("flac", "mp3")]
	return out


def _l_cases(tier):
	out = [{"kind": "none", "n": 1}]
	out += [{"kind": k, "n": n} for k in ("fixed", "xiph") for n in (1, 2, 3)]
	out += [{"kind": "ebml", "n": 1, "w": 1}]
	W = (1, 2, 4) if tier == "quick" else range(1, 9)
	out += [{"kind": "ebml", "n": 2, "w": w} for w in W]
	out += [{"kind": "ebml", "n": 3, "w": w, "w2": w2} for w in (1, 2) for w2 in W]
	if tier != "quick":
		out += [{"kind": "ebml", "n": 4, "w": w, "w2": w2} for w in (1, 3) for w2 in (1, 2, 3)]
		out += [{"kind": k, "n": 4} for k in ("fixed", "xiph")]
	return out


HARNESSES = [
	Harness("read_uint", "read_uint", cases=[{"w": w} for w in range(1, 9)]),
	Harness("make_uint", "make_uint"),
	Harness("lace", "lace", cases=_l_cases("quick"), thorough_cases=_l_cases("thorough")),
	Harness("file_data", "file_data", cases=_f_cases("quick"), thorough_cases=_f_cases("thorough")),
	Harness("track_data", "track_data", cases=_t_cases()),
]
