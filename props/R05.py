"""WMV samples: an SRS and the movie give back the sample."""
import struct
from symex.run import Harness
from props import media as M

PRELOAD = ("resample.main", "resample.srs", "resample.asf")
QUICK_S = 200
BOUNDS = ("samples of 1-3 packets with 1-3 payloads (single, multiple and compressed) of 1-2 streams, payloads of any size that fits the packet (to 60000 bytes) and any "
          "content, every width of the packet fields, any padding; movies of 1-4 packets that are divided differently and have other streams")
OUTSIDE = ("movies that hold a part of the sample's first 256 bytes of a stream before the right place (the search may be misled; the checksum then reports it); "
           "packets without error correction data; more packets and streams")

HEADER = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C"
DATA = b"\x36\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C"
STREAM = b"\x91\x07\xDC\xB7\xB7\xA9\xCF\x11\x8E\xE6\x00\xC0\x0C\x20\x53\x65"
FILE = b"\xA1\xDC\xAB\x8C\x47\xA9\xCF\x11\x8E\xE4\x00\xC0\x0C\x20\x53\x65"
OTHER = b"\x90\x08\x00\x33\xB1\xE5\xCF\x11\x89\xF4\x00\xA0\xC9\x03\x49\xCB"
FIELD = {0: None, 1: "<B", 2: "<H", 3: "<L"}


def obj(guid, body, mid=b""):
	return guid + struct.pack("<Q", 24 + len(mid) + len(body)) + mid + body


def cat(data, ps):
	d = b""
	for p in ps:
		d = d + data[p]
	return d


def payload(h, nm, t, kind, ps, data, multi, wd):
	b = struct.pack("<B", (h.int(nm + ".key", 0, 1) if nm == "s.p0.0" else t % 2) * 128 + t)
	for k, f in (("num", wd[0]), ("off", wd[1])):
		if f:
			b = b + h.bytes(nm + "." + k, f if f < 3 else 4)
	if kind == "c":
		b = b + struct.pack(FIELD[wd[2]], 1) + h.bytes(nm + ".delta", 1)
		d = b""
		for p in ps:
			h.assume(len(data[p]) < 256)
			d = d + struct.pack("<B", len(data[p])) + data[p]
	else:
		if kind == "r":
			b = b + struct.pack(FIELD[wd[2]], 8) + h.bytes(nm + ".repl", 8)
		else:
			b = b + struct.pack(FIELD[wd[2]], 0)
		d = cat(data, ps)
	if multi:
		h.assume(len(d) < 65536)
		b = b + struct.pack("<H", len(d))
	return b + d


def packet(h, nm, pk, data, size, spec):
	wd = spec.get("wd", (1, 3, 1))
	multi = len(pk) > 1 or spec.get("multi")
	lt, st, pt = spec.get("pw", (0, 0, 2))
	flags = (1 if multi else 0) + st * 2 + pt * 8 + lt * 32
	prop = wd[2] + wd[1] * 4 + wd[0] * 16 + 64
	body = b""
	if multi:
		body = body + struct.pack("<B", len(pk) + 128)
	for i, (t, kind, ps) in enumerate(pk):
		body = body + payload(h, "%s.%d" % (nm, i), t, kind, ps, data, multi, wd)
	head = b"\x82" + h.bytes(nm + ".ec", 2) + struct.pack("<BB", flags, prop)
	fixed = len(head) + sum([0, 1, 2, 4][x] for x in (lt, st, pt)) + 6
	short = 0
	pad = None
	if size is None:
		# the one packet, so that its size follows from the parts
		pad = b""
		if spec.get("pad"):
			# not all zeros, seen at its start or at its end
			one = struct.pack("<B", h.int(nm + ".padx", 1, 255))
			pad = h.blob(nm + ".pad", 1, 60000)
			pad = pad + one if spec["pad"] == "end" else one + pad
		size = fixed + len(body) + len(pad)
	rest = size - fixed - len(body)
	if pad is None:
		h.assume(rest >= 1)
	if lt and spec.get("short"):
		short = h.int(nm + ".short", 0, 100)
		h.assume(short <= rest)
	if not pt:
		assert len(pad) == 0
	elif pt == 1:
		h.assume(rest - short < 256)
	else:
		h.assume(rest - short < 65536)
	if lt == 1:
		h.assume(size < 256)
	if lt:
		head = head + struct.pack(FIELD[lt], size - short)
	if st:
		head = head + h.bytes(nm + ".seq", st if st < 3 else 4)
	if pt:
		head = head + struct.pack(FIELD[pt], rest - short)
	head = head + h.bytes(nm + ".time", 4) + h.bytes(nm + ".dura", 2)
	if pad is None:
		pad = (struct.pack("<B", h.int(nm + ".padv", 0, 255)) if spec.get("pads") else b"\0") * rest
	return head + body + pad


def wmv(h, nm, spec, data):
	if spec.get("pad") or not spec.get("pw", (0, 0, 2))[2]:
		assert len(spec["packets"]) == 1
		size = None
	else:
		size = spec.get("psize") or h.int(nm + ".psize", spec.get("min", 2000), 60000)
	ps = b""
	for i, pk in enumerate(spec["packets"]):
		ps = ps + packet(h, "%s.p%d" % (nm, i), pk, data, size, spec)
	n = len(spec["packets"])
	st = b""
	cnt = 2
	top = 40 if spec.get("psize") else 300
	for t in spec["tracks"]:
		st = st + obj(STREAM, h.bytes(nm + ".st%d" % t, 48) + struct.pack("<H", t) + h.blob(nm + ".sd%d" % t, min(top, 40), top))
		cnt += 1
	fsize = h.int(nm + ".fsize", 0, (1 << 64) - 1)
	kids = obj(FILE, h.bytes(nm + ".fid", 16) + struct.pack("<Q", fsize) + h.blob(nm + ".fr", 56, 56)) + st
	kids = kids + obj(b"\x40\x52\xD1\x86\x1D\x31\xD0\x11\xA3\xA4\x00\xA0\xC9\x03\x48\xF6", h.blob(nm + ".hd", min(top, 40), top))
	out = obj(HEADER, kids, struct.pack("<LH", cnt, 0x201))
	out = out + obj(DATA, ps, h.bytes(nm + ".did", 16) + struct.pack("<QH", n, 0x101))
	if spec.get("index"):
		out = out + obj(OTHER, h.blob(nm + ".index", 24, 3000))
	return out


def names_of(spec):
	for pk in spec["packets"]:
		for t, kind, ps in pk:
			for p in ps:
				yield t, p


def prepare(h):
	data = {"-": b""}
	small = set()
	for k in ("main", "sample"):
		for pk in h.case[k]["packets"]:
			for t, kind, ps in pk:
				if kind == "c":
					small.update(ps)
	lo, hi = h.case.get("lo", 1), h.case.get("hi", 59000)
	for p in sorted(set(p for k in ("main", "sample") for t, p in names_of(h.case[k]))):
		top = 255 if p in small else hi
		if p[0] == "p":
			data[p + "!"] = v = h.bytes("v" + p, 1)
			data[p] = v * h.int("n" + p, 1, top)
		elif p != "-":
			data[p] = M.frame(h, p, min(lo, top), top, 1)
	first = {}
	for t, p in names_of(h.case["sample"]):
		if p != "-":
			first.setdefault(t, p)
	done = set()
	for t, p in names_of(h.case["main"]):
		if p == first.get(t):
			done.add(t)
		if t in first and t not in done and p[0] == "p":
			h.assume(data[p + "!"][0] != data[first[t]][0])
	return data


def mksample(h, data):
	return wmv(h, "s", h.case["sample"], data)


def mkmain(h, data):
	return wmv(h, "m", h.case["main"], data)


def life(h):
	M.life(h, "wmv", prepare, mksample, mkmain)


def wrong(h):
	M.wrong(h, "wmv", prepare, mksample, mkmain)


def S(*packets, **kw):
	out = []
	for pk in packets:
		l = []
		for x in pk:
			t, ps = x[0], x[-1]
			l.append((t, x[1] if len(x) > 2 else "n", ps.split()))
		out.append(l)
	kw["packets"] = out
	kw.setdefault("tracks", sorted(set(t for pk in out for t, k, ps in pk)))
	return kw


_Q = [
	{"sample": S([(1, "a")]), "main": S([(1, "a")])},
	{"sample": S([(1, "r", "a"), (2, "b")], [(1, "c")]), "main": S([(1, "p")], [(2, "p2"), (1, "r", "a")], [(1, "c"), (2, "b")], index=True), "lo": 256},
	{"sample": S([(1, "r", "a")], pad=True), "main": S([(1, "p")], [(1, "r", "a")]), "check": True, "big": True},
	# compressed payloads
	{"sample": S([(1, "c", "a b")]), "main": S([(1, "p")], [(1, "c", "a b")])},
	{"sample": S([(2, "c", "a b"), (1, "c", "d")], pad="end", index=True), "main": S([(1, "p")], [(1, "c", "d"), (2, "c", "a b")])},
	# starts within a payload
	{"sample": S([(1, "r", "a")]), "main": S([(1, "p a b")]), "lo": 256},
	{"sample": S([(1, "a b")]), "main": S([(1, "p a")], [(1, "b")]), "lo": 256},
	# field widths
	{"sample": S([(1, "r", "a")], pw=(2, 1, 1), wd=(2, 2, 2), short=True), "main": S([(1, "r", "a")], pw=(3, 3, 3), wd=(0, 0, 3), short=True)},
	{"sample": S([(1, "a")], pw=(0, 2, 0), wd=(3, 1, 1)), "main": S([(1, "a")], pw=(1, 0, 1), multi=True, min=60), "hi": 100},
	# padding that differs from packet to packet
	{"sample": S([(1, "a")], [(1, "b")], pads=True), "main": S([(1, "p")], [(1, "a")], [(1, "b")])},
	{"sample": S([(1, "a")], [(1, "b")], [(1, "c")], pads=True, psize=900), "main": S([(1, "a")], [(1, "b")], [(1, "c")], pads=True), "hi": 500},
	# streams the sample or the movie doesn't have
	{"sample": S([(1, "a")]), "main": S([(2, "b")], [(1, "p")], [(1, "a")])},
	{"sample": S([(1, "a")], tracks=[1, 2]), "main": S([(1, "a")], [(2, "b")], tracks=[1, 2]), "check": True},
	{"sample": S([(1, "a")], tracks=[1, 2]), "main": S([(1, "a")], tracks=[1])},
	{"sample": S([(1, "a"), (2, "-")]), "main": S([(1, "a")])},
	# the movie in RAR files
	{"sample": S([(1, "a")]), "main": S([(1, "p")], [(1, "a")]), "rar": 1},
	{"sample": S([(1, "a")]), "main": S([(1, "p")], [(1, "a")], psize=2500), "rar": 2, "rarmin": 700, "lo": 256},
]
_W = [
	{"sample": S([(1, "a")]), "main": S([(1, "a")]), "swap": "a"},
	{"sample": S([(1, "a"), (2, "b")]), "main": S([(2, "b"), (1, "a")]), "swap": "b", "opt": ("-k",)},
	{"sample": S([(1, "a")], [(1, "b")]), "main": S([(1, "a")]), "swap": ""},
	{"sample": S([(1, "a"), (2, "b")]), "main": S([(1, "a")]), "swap": ""},
	{"sample": S([(1, "a")], [(1, "b")]), "main": S([(1, "a")], [(1, "b")], psize=2500), "swap": "", "cut": 345, "lo": 256},
]
_T = [dict(c, lo=1) for c in _Q]
_TW = [dict(c, lo=1, **({"cut": 60} if c.get("cut") else {})) for c in _W]
HARNESSES = [Harness("life", "life", _Q, _T, expect=("end",)), Harness("wrong", "wrong", _W, _TW, expect=("refused",))]
