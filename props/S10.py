"""The OpenSubtitles hash of a packed file is the hash of the file."""
import struct
from symex.run import Harness
from props import common as C

PRELOAD = ("rescene.main", "rescene.osohash")
QUICK_S = 120
BOUNDS = ("files of 65536, 65537, 90001, 131071, 131072, 131073, 131080 and 200001 bytes that are zero but for up to 4 runs of 8 symbolic bytes (at "
          "the borders of the two windows, aligned and not); packed in 1-3 volumes split at any of four places; files of any "
          "length below 64 KiB")
OUTSIDE = "other lengths, and more than 32 bytes that are not zero at a time"

MASK = (1 << 64) - 1


def _data(h, size, pos, tag=""):
	"""bytes of the file, [(position, value of the byte)]"""
	out, vals = b"", []
	last = 0
	for i, p in enumerate(pos):
		n = min(8, size - p)
		b = h.bytes("w%s%d" % (tag, i), n)
		out = out + bytes(p - last) + b
		last = p + n
		for k in range(n):
			vals.append((p + k, b[k]))
	return out + bytes(size - last), vals


def _hash(size, vals):
	s = size
	for start in (0, size - 65536):
		for p, b in vals:
			if start <= p < start + 65536:
				s = s + (b << 8 * ((p - start) % 8))
	return s & MASK


def _check(h, got, size, want):
	h.check(got[1] == size, "the size")
	h.check(len(got[0]) == 16, "sixteen digits")
	h.check(int(got[0], 16) == want, "size plus the sums over both windows, modulo 2^64")
	h.eq(got[0], got[0].lower(), "in lower case")


def stream(h):
	o = h.mod("rescene.osohash")
	size = h.case["size"]
	d, vals = _data(h, size, h.case["pos"])
	h.put("f.avi", d)
	_check(h, o.compute_hash(h.path("f.avi")), size, _hash(size, vals))
	h.eq(h.get("f.avi"), d, "the file is left alone")
	if h.case.get("open"):
		with open(h.path("f.avi"), "rb") as f:
			_check(h, o.compute_hash(f), size, _hash(size, vals))
	h.reach("end")


def small(h):
	"""undefined for small files: refused, not made up"""
	o = h.mod("rescene.osohash")
	d = h.blob("d", 0, 65535)
	h.put("f.avi", d)
	try:
		o.compute_hash(h.path("f.avi"))
	except ValueError:
		h.reach("refused")
	else:
		h.check(False, "too small for a hash")


def _vols(h, name, d, cuts, pre=b"", naming="old"):
	cuts = [0] + list(cuts) + [len(d)]
	n = len(cuts) - 1
	vs = []
	for i in range(n):
		p = d[cuts[i]:cuts[i + 1]]
		fl = C.LONG | (1 if i else 0) | (2 if i + 1 < n else 0)
		head = C.RAR_MARKER + C.volhdr(0x101 if i == 0 else 1) + (pre if i == 0 else b"")
		hd = C.filehdr(name, len(p), len(d), fl, h.int("crc%s%d" % (name.decode("ascii")[:1], i), 0, 0xFFFFFFFF))
		vs.append((head + hd + p + C.endblock(), head + hd + C.endblock()))
	return vs


def packed(h):
	"""the same through the volumes"""
	o = h.mod("rescene.osohash")
	size = h.case["size"]
	d, vals = _data(h, size, h.case["pos"])
	for i, (v, _) in enumerate(_vols(h, b"a.avi", d, h.case["cuts"], C.filehdr(b"b.nfo", 3, 3) + b"abc")):
		h.put("v/x." + ("rar" if i == 0 else "r%02d" % (i - 1)), v)
	_check(h, o.osohash_from(h.path("v/x.rar"), "a.avi"), size, _hash(size, vals))
	h.reach("end")


def made(h):
	"""a new SRR has the hash of every video file that is large enough"""
	m = h.mod("rescene.main")
	size = h.case["size"]
	d, vals = _data(h, size, h.case["pos"])
	ext = h.case["ext"]
	vs = _vols(h, b"Sub\\a." + ext, d, h.case["cuts"])
	small_ = C.filehdr(b"s.avi", 3, 3) + b"abc"
	many = h.case.get("many")
	want = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8"))
	for i, (v, hd) in enumerate(vs):
		n = "x." + ("rar" if i == 0 else "r%02d" % (i - 1))
		last = i + 1 == len(vs)
		if i == 0 and many:
			# files that have no hash stand before and between the videos
			front = C.filehdr(b"0.nfo", 4, 4) + b"text", C.filehdr(b"0.avi", 0, 0)
			k = len(C.RAR_MARKER) + 13
			v = v[:k] + front[0] + front[1] + v[k:]
			hd = hd[:k] + front[0][:-4] + front[1] + hd[k:]
		h.put("v/" + n, v[:-7] + small_ + v[-7:] if last else v)
		want = want + C.srr_rarfile(n.encode("ascii")) + (hd[:-7] + small_[:-3] + hd[-7:] if last else hd)
	if many:
		# a second set with another video
		d2 = h.bytes("w", 8) + b"\x01" * 65536
		h2 = C.RAR_MARKER + C.volhdr(0), C.filehdr(b"z.txt", 1, 1), C.filehdr(b"b.mp4", len(d2), len(d2)), C.endblock()
		h.put("v/y.rar", h2[0] + h2[1] + b"t" + h2[2] + d2 + h2[3])
		want = want + C.srr_rarfile(b"y.rar") + h2[0] + h2[1] + h2[2] + h2[3]
	m.create_srr(h.path("o.srr"), [h.path("v/x.rar"), h.path("v/y.rar")] if many else h.path("v/x.rar"), h.path("v"), oso_hash=h.case["on"])
	oso = []
	if h.case["on"] and ext.lower() in (b"avi", b"mkv"):
		oso.append((b"a." + ext, size, _hash(size, vals)))
		h.reach("hash")
	if many:
		one = 0x0101010101010101
		first = sum([d2[i] << 8 * i for i in range(8)])
		oso.append((b"b.mp4", len(d2), (len(d2) + first + one * 8191 + one * 8192) & MASK))
	raw = h.get("o.srr")
	h.eq(raw[:len(want)], want, "the blocks of the volumes")
	for name, n, v in oso:
		# the hash is compared as a number
		b = C.srr_oso(name, n, 0)
		x = raw[len(want):len(want) + len(b)]
		h.check(len(x) == len(b), "a hash block")
		h.eq(x[:15] + bytes(8) + x[23:], b, "for the video file")
		h.check(struct.unpack("<Q", x[15:23])[0] == v, "its hash")
		want = want + x
	h.eq(len(raw), len(want), "nothing else behind the blocks of the volumes")
	if h.case["on"] and ext.lower() in (b"avi", b"mkv"):
		r = m.info(h.path("o.srr"))["oso_hashes"]
		h.check(len(r) == (2 if many else 1), "one hash")
		h.eq(r[0][0], "a." + ext.decode("ascii"), "its file")
		_check(h, r[0][1:], size, _hash(size, vals))
	h.reach("end")


_FILES = [(65536, (0, 65528)), (65536, (8, 1000)), (65537, (0, 65529)), (65537, (3, 65535 - 8)), (90001, (24000, 65534)), (131071, (65528, 65536)), (131072, (65528, 65536)),
          (131073, (65530, 131065)), (131080, (0, 65536, 131072)), (200001, (65530, 100000, 134465, 199993)), (200001, (134461,))]
HARNESSES = [
	Harness("stream", "stream", [{"size": s, "pos": p} for s, p in _FILES] + [{"size": 131073, "pos": (65532,), "open": 1}], expect=("end",)),
	Harness("small", "small", [{}], expect=("refused",)),
	Harness("packed", "packed", [{"size": 131073, "pos": (65530, 131060), "cuts": c} for c in ((), (65533,), (1, 131072), (131073,), (0, 65536))], expect=("end",)),
	Harness("made", "made", [{"size": 65537, "pos": (5, 60000), "cuts": c, "ext": e, "on": o} for c, e, o in (
		((), b"avi", True), ((40000,), b"mkv", True), ((60004,), b"AVI", True), ((3,), b"iso", True), ((), b"avi", False))] + [{"size": 65537, "pos": (5, 60000), "cuts": (40000,), "ext": b"avi", "on": True, "many": 1}], expect=("end", "hash")),
]
