"""Matroska samples: an SRS and the movie give back the sample."""
import struct
from symex.run import Harness
from props import media as M
from props.R01 import vint

PRELOAD = ("resample.main", "resample.srs")
QUICK_S = 200
BOUNDS = ("samples of 1-4 blocks in 1-2 tracks, frames of any size up to 400 KiB and any content, simple blocks and groups, laces of 1-3 frames "
          "of all kinds, up to 3 bytes of header stripped in either file, up to 2 attachments; movies of 1-6 blocks in 1-3 clusters")
OUTSIDE = ("movies that contain a part of the sample's first 256 bytes of a track at the start of an earlier frame (the search may be misled; "
           "the checksum then reports it); movies with the attachments after the clusters; compressed tracks other than header stripping "
           "differing between sample and movie; more blocks and tracks")

EBML, SEGMENT, TRACKS, TRACK, CLUSTER = b"\x1A\x45\xDF\xA3", b"\x18\x53\x80\x67", b"\x16\x54\xAE\x6B", b"\xAE", b"\x1F\x43\xB6\x75"


def el(h, ident, body, w=4):
	return ident + vint(h, len(body), w) + body


def _cat(h, data, t, ps, strip, hs):
	d = b""
	for p in ps:
		d = d + data[p]
	if strip is not None:
		d = hs[t][strip:] + d
	return d


def _u8(h, n):
	return struct.pack("<B", n)


def lace(h, kind, frames):
	"""lace header"""
	n = struct.pack("<B", len(frames) - 1)
	if kind == "x":
		for f in frames[:-1]:
			h.assume(len(f) < 255)
			n = n + _u8(h, len(f))
	elif kind == "e":
		prev = None
		for f in frames[:-1]:
			if prev is None:
				n = n + vint(h, len(f), 4)
			else:
				n = n + vint(h, len(f) - prev + (1 << 27) - 1, 4)
			prev = len(f)
	else:
		for f in frames[1:]:
			h.assume(len(f) == len(frames[0]))
	return n


LACE = {"x": 2, "f": 4, "e": 6}


def mkv(h, nm, spec, data, hs):
	"""spec: {"tracks": [(number, stripped bytes or None)], "clusters": [[(kind, track, [frames: [pieces]])]],
	"att": [(name, piece)]}; kinds: s simple block, g group, and x/f/e for a lace"""
	strip = dict(spec["tracks"])
	head = el(h, EBML, h.blob(nm + ".ebml", 8, 100), 8)
	body = b""
	if spec.get("void"):
		body = body + el(h, b"\xEC", h.blob(nm + ".void", 4, 1000))
	tl = b""
	for t, s in spec["tracks"]:
		cod = h.bytes(nm + ".codec%d" % t, 1)
		h.assume(cod[0] < 128)
		b = el(h, b"\xD7", struct.pack("<B", t), 1) + el(h, b"\x86", b"V_X" + cod, 1)
		if s is not None:
			c = el(h, b"\x42\x54", b"\x03", 1) + el(h, b"\x42\x55", hs[t][:s], 1)
			b = b + el(h, b"\x6D\x80", el(h, b"\x62\x40", el(h, b"\x50\x34", c, 1), 1), 1)
		tl = tl + el(h, TRACK, b, 2)
	tl = el(h, TRACKS, tl) if spec["tracks"] else b""
	att = b""
	for i, (n, p) in enumerate(spec.get("att", ())):
		att = att + el(h, b"\x61\xA7", el(h, b"\x46\x6E", n.encode("utf-8"), 1) + el(h, b"\x46\x60", b"font", 1)
		               + el(h, b"\x46\x5C", data[p]), 4)
	if att:
		att = el(h, b"\x19\x41\xA4\x69", att)
	cl = b""
	cnt = 0
	for c in spec["clusters"]:
		b = el(h, b"\xE7", h.bytes(nm + ".ts%d" % cnt, 2), 1)
		for kind, t, frames in c:
			cnt += 1
			fs = [_cat(h, data, t, ps, strip.get(t), hs) for ps in frames]
			lk = kind[1:]
			fl = h.int(nm + ".fl%d" % cnt, 0, 15) * 16 + (LACE[lk] if lk else 0)
			bl = vint(h, t, 1 if t < 127 else 2) + h.bytes(nm + ".tc%d" % cnt, 2) + _u8(h, fl)
			if lk:
				bl = bl + lace(h, lk, fs)
			for f in fs:
				bl = bl + f
			if kind[0] == "g":
				b = b + el(h, b"\xA0", el(h, b"\xA1", bl) + el(h, b"\x9B", h.bytes(nm + ".dur%d" % cnt, 1), 1))
			else:
				b = b + el(h, b"\xA3", bl)
		cl = cl + el(h, CLUSTER, b, spec.get("cw", 4))
	late = spec.get("late")
	body = body + (cl + tl + att if late else tl + att + cl)
	if spec.get("cues"):
		body = body + el(h, b"\x1C\x53\xBB\x6B", h.blob(nm + ".cues", 4, 1000))
	return head + el(h, SEGMENT, body, 8)


def pieces(h):
	"""the data by name: lower case any; p.. a byte repeated; - nothing"""
	data = {"-": b""}
	hs = {}
	names = set()
	for k in ("main", "sample"):
		sp = h.case[k]
		for c in sp["clusters"]:
			for kind, t, frames in c:
				for f in frames:
					names.update(f)
		names.update(p for n, p in sp.get("att", ()))
		for t, s in sp["tracks"]:
			if s is not None and t not in hs:
				hs[t] = h.bytes("hs%d" % t, 3)
	for k in ("main", "sample"):
		for t, s in h.case[k]["tracks"]:
			if t in hs and s is None:
				raise AssertionError("tracks with a header to strip have a number (0: none)")
	lo = h.case.get("lo", 1)
	for p in sorted(names - set("-")):
		if p[0] == "p":
			v = h.bytes("v" + p, 1)
			data[p] = v * h.int("n" + p, h.case.get("plo", lo), 400000)
			data[p + "!"] = v
		elif p[0] == "e":
			data[p] = h.blob(p, 0, 1000)
		elif p[0] == "B":
			data[p] = M.frame(h, p, 1000001, 1 << 21, 1)
		else:
			data[p] = M.frame(h, p, lo, 400000, 1)
	return data, hs


def prepare(h):
	data, hs = pieces(h)
	asc = h.case.get("ascii")
	calls = [0]
	if asc:
		bits = [h.bool("asc%d" % i) for i in range(asc)]

	def isascii(b):
		calls[0] += 1
		if not asc:
			return False
		return bool(bits[calls[0] - 1]) if calls[0] <= asc else False
	h.patch("resample.main", "isascii", isascii)
	first = {}
	for c in h.case["sample"]["clusters"]:
		for kind, t, frames in c:
			for f in frames:
				ps = [p for p in f if p != "-"]
				if ps and t not in first:
					first[t] = ps[0]
	for t, f in first.items():
		stop = False
		for c in h.case["main"]["clusters"]:
			for kind, t2, frames in c:
				for fr in frames:
					if t2 == t and fr and fr[0] == f:
						stop = True
					if t2 == t and not stop and fr and fr[0][0] == "p":
						h.assume(data[fr[0] + "!"][0] != data[f][0])
	data[None] = hs
	return data


def mksample(h, data):
	return mkv(h, "s", h.case["sample"], data, data[None])


def mkmain(h, data):
	return mkv(h, "m", h.case["main"], data, data[None])


def life(h):
	M.life(h, "mkv", prepare, mksample, mkmain)


def wrong(h):
	M.wrong(h, "mkv", prepare, mksample, mkmain)


def S(*clusters, **kw):
	t = []
	for c in clusters:
		for b in c:
			if b[1] not in t:
				t.append(b[1])
	kw.setdefault("tracks", [(x, None) for x in sorted(t)])
	kw["clusters"] = [[(k, n, [f.split() for f in fs.split("|")]) for k, n, fs in c] for c in clusters]
	return kw


s, g = "s", "g"
_Q = [
	{"sample": S([(s, 1, "a")]), "main": S([(s, 1, "a")])},
	{"sample": S([(s, 1, "a"), (g, 2, "b"), (s, 1, "c")]), "main": S([(s, 1, "p"), (s, 2, "p1")], [(s, 1, "a"), (g, 2, "b"), (s, 1, "c"), (s, 2, "d")]), "lo": 256},
	{"sample": S([(s, 1, "a")]), "main": S([(s, 1, "p")], [(s, 1, "a"), (s, 1, "c")]), "check": True, "big": True},
	# other clusters, other tracks
	{"sample": S([(s, 1, "a")], [(s, 1, "b")]), "main": S([(s, 3, "p"), (s, 1, "a"), (s, 1, "b")]), "void": True},
	{"sample": S([(s, 1, "a"), (s, 2, "b")], cues=True), "main": S([(s, 1, "a"), (s, 2, "p")], [(s, 2, "b")], cw=8, void=True)},
	# laces
	{"sample": S([("sx", 1, "a|b|c")]), "main": S([(s, 1, "p"), (s, 1, "a"), ("sf", 1, "b|c")])},
	{"sample": S([("sf", 1, "a|b")]), "main": S([("se", 1, "p|a|b")])},
	{"sample": S([("ge", 2, "a|b|c"), (s, 1, "d")]), "main": S([("sx", 2, "p|a"), (s, 2, "b"), (s, 1, "d"), (s, 2, "c")]), "lo": 256, "plo": 1},
	# stripped headers
	{"sample": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 3)]), "main": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 3)])},
	{"sample": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 0)]), "main": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 3)])},
	{"sample": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 3)]), "main": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 0)])},
	{"sample": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 3)]), "main": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 1)])},
	{"sample": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 1)]), "main": S([(s, 1, "a"), (s, 1, "b")], tracks=[(1, 3)])},
	# blocks without data, tracks without blocks
	{"sample": S([(s, 1, "a"), (s, 2, "-"), (s, 1, "-")]), "main": S([(s, 2, "-"), (s, 1, "a"), (s, 1, "-")])},
	{"sample": S([(s, 1, "a")], tracks=[(1, None), (2, None)]), "main": S([(s, 1, "a"), (s, 2, "b")]), "check": True},
	# attachments
	{"sample": S([(s, 1, "a")], att=[("x.ttf", "e1"), (u"\xe9.ttf", "e2")]), "main": S([(s, 1, "a")], att=[(u"\xe9.ttf", "e2"), ("x.ttf", "e1")])},
	{"sample": S([(s, 1, "a")], att=[("x.ttf", "e1"), ("x.ttf", "e2")]), "main": S([(s, 1, "a")], att=[("x.ttf", "e1"), ("x.ttf", "e2")])},
	# a track that isn't listed, a track list behind the data
	{"sample": S([(s, 1, "a")]), "main": S([(s, 2, "b"), (s, 1, "a")], tracks=[])},
	{"sample": S([(s, 1, "a")]), "main": S([(s, 2, "b"), (s, 1, "a")], late=True)},
	# longer signatures
	{"sample": S([(s, 1, "a"), (s, 1, "b")]), "main": S([(s, 1, "p"), (s, 1, "a"), (s, 1, "b")]), "ascii": 2, "lo": 256},
	{"sample": S([(s, 200, "a")]), "main": S([(s, 200, "p"), (s, 200, "a")])},
	# the movie in RAR files
	{"sample": S([(s, 1, "a")]), "main": S([(s, 1, "p"), (s, 1, "a")]), "rar": 1},
	{"sample": S([(s, 1, "a")]), "main": S([(s, 1, "p"), (s, 1, "a")]), "rar": 2, "lo": 300},
]
_W = [
	{"sample": S([(s, 1, "a")]), "main": S([(s, 1, "a")]), "swap": "a"},
	{"sample": S([(s, 1, "a"), (s, 1, "b")]), "main": S([(s, 1, "a"), (s, 1, "b")]), "swap": "b"},
	{"sample": S([(s, 1, "a"), (s, 2, "b")]), "main": S([(s, 1, "a"), (s, 2, "b")]), "swap": "b", "opt": ("-k",)},
	{"sample": S([(s, 1, "a"), (s, 1, "b")]), "main": S([(s, 1, "a")]), "swap": ""},
	{"sample": S([(s, 1, "a"), (s, 2, "b")]), "main": S([(s, 1, "a")]), "swap": ""},
	{"sample": S([(s, 1, "a")], att=[("x", "e1")]), "main": S([(s, 1, "a")], att=[("x", "e2")]), "swap": ""},
	{"sample": S([(s, 1, "a")], att=[("x", "e1")]), "main": S([(s, 1, "a")], att=[("y", "e1")]), "swap": ""},
	{"sample": S([(s, 1, "a")], att=[("x", "e1")]), "main": S([(s, 1, "a")]), "swap": ""},
	{"sample": S([(s, 1, "a")]), "main": S([(s, 1, "a")]), "swap": "", "cut": 60, "lo": 256},
]
_T = [dict(c, lo=1, plo=1) for c in _Q]
_TW = [dict(c, lo=1, plo=1) for c in _W]
HARNESSES = [Harness("life", "life", _Q, _T, expect=("end",)), Harness("wrong", "wrong", _W, _TW, expect=("refused",))]
