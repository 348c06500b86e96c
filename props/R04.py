"""MP4 samples: an SRS and the movie give back the sample."""
import struct
from symex.run import Harness
from props import media as M

PRELOAD = ("resample.main", "resample.srs")
QUICK_S = 200
BOUNDS = ("samples of 1-4 chunks of 1-3 frames in 1-2 tracks, frames of any size up to 400 KB and any content, 32 and 64 bit offsets and sizes, tables before and "
          "behind the data, one or two data atoms, fixed and listed frame sizes; movies of 1-6 chunks that are divided differently")
OUTSIDE = ("compact frame sizes (stz2; making an SRS is refused); movies that hold the sample's first 256 bytes of a track at the start of an earlier frame; "
           "samples that start within a frame; more chunks and tracks")


def at(typ, body, wide=False):
	if wide:
		return struct.pack(">L", 1) + typ + struct.pack(">Q", len(body) + 16) + body
	return struct.pack(">L", len(body) + 8) + typ + body


def tables(h, spec, data, base):
	"""moov atom, for data whose chunks start where base says"""
	out = at(b"mvhd", spec["_mvhd"])
	for t in spec["tracks"]:
		chunks = [fs for m in spec["mdats"] for n, fs in m if n == t]
		offs = [o for n, o in base if n == t]
		sizes = [len(data[f]) for fs in chunks for f in fs]
		tk = at(b"tkhd", b"\0\0\0\3" + spec["_time"] + struct.pack(">L", t) + b"\0" * 20)
		ent, prev = [], None
		for i, fs in enumerate(chunks):
			if len(fs) != prev:
				ent.append((i + 1, len(fs), 1))
				prev = len(fs)
		stsc = at(b"stsc", struct.pack(">LL", 0, len(ent)) + sum_([struct.pack(">LLL", *e) for e in ent]))
		if spec.get("fixed") and sizes:
			for s in sizes:
				h.assume(s == sizes[0])
			stsz = at(b"stsz", struct.pack(">LLL", 0, sizes[0], len(sizes)))
		else:
			b = struct.pack(">LLL", 0, 0, len(sizes))
			for s in sizes:
				b = b + struct.pack(">L", s)
			stsz = at(b"stsz", b)
		b = struct.pack(">LL", 0, len(offs))
		for o in offs:
			b = b + struct.pack(">Q" if spec.get("co64") else ">L", o)
		co = at(b"co64" if spec.get("co64") else b"stco", b)
		l = [at(b"stsd", spec["_stsd"]), stsc, stsz, co]
		if spec.get("rev"):
			l.reverse()
		stbl = at(b"stbl", sum_(l))
		out = out + at(b"trak", tk + at(b"mdia", at(b"mdhd", b"\0" * 24) + at(b"minf", stbl)))
	return at(b"moov", out)


def sum_(l):
	r = b""
	for x in l:
		r = r + x
	return r


def mp4(h, nm, spec, data):
	spec = dict(spec)
	spec["_mvhd"] = h.blob(nm + ".mvhd", 8, 200)
	spec["_time"] = h.bytes(nm + ".time", 8)
	spec["_stsd"] = h.blob(nm + ".stsd", 8, 300)
	head = at(b"ftyp", h.blob(nm + ".ftyp", 8, 40))
	if spec.get("free"):
		head = head + at(b"free", h.blob(nm + ".free", 1, 5000))
	first = spec.get("first", True)
	n = len(head)
	if first:
		n = n + len(tables(h, spec, data, [(t, 0) for m in spec["mdats"] for t, fs in m]))
	body, base = b"", []
	for i, m in enumerate(spec["mdats"]):
		if spec.get("fov"):
			body = body + b"\0" * 8
		if i and spec.get("gap"):
			body = body + at(b"free", h.blob("%s.gap%d" % (nm, i), 1, 5000))
		hl = 16 if spec.get("wide") else 8
		d = b""
		for t, fs in m:
			base.append((t, n + len(body) + hl + len(d)))
			for f in fs:
				d = d + data[f]
		if spec.get("zero") and i == len(spec["mdats"]) - 1:
			body = body + b"\0\0\0\0mdat" + d
		else:
			body = body + at(b"mdat", d, spec.get("wide"))
	moov = tables(h, spec, data, base)
	out = head + (moov + body if first else body + moov)
	if spec.get("tail"):
		if spec["tail"] == 2:
			# extends to the end of the file
			out = out + b"\0\0\0\0udta" + h.blob(nm + ".udta", 1, 5000)
		else:
			out = out + at(b"udta", h.blob(nm + ".udta", 1, 5000))
	return out


def prepare(h):
	data = {}
	names = set()
	lo, hi = h.case.get("lo", 64), h.case.get("hi", 60000)
	for k in ("main", "sample"):
		for m in h.case[k]["mdats"]:
			for t, fs in m:
				names.update(fs)
	for p in sorted(names):
		if p[0] == "p":
			data[p + "!"] = v = h.bytes("v" + p, 1)
			data[p] = v * h.int("n" + p, h.case.get("plo", lo), 400000)
		elif p[0] == "-":
			data[p] = b""
		else:
			data[p] = M.frame(h, p, lo, hi, 1)
	first = {}
	for m in h.case["sample"]["mdats"]:
		for t, fs in m:
			fs = [f for f in fs if f != "-"]
			if fs:
				first.setdefault(t, fs[0])
	for t, f in first.items():
		for m in h.case["main"]["mdats"]:
			for t2, fs in m:
				if t2 == t:
					for p in fs:
						if p == f:
							break
						if p[0] == "p":
							h.assume(data[p + "!"][0] != data[f][0])
					else:
						continue
					break
	return data


def mksample(h, data):
	return mp4(h, "s", h.case["sample"], data)


def mkmain(h, data):
	return mp4(h, "m", h.case["main"], data)


def life(h):
	M.life(h, "mp4", prepare, mksample, mkmain)


def wrong(h):
	M.wrong(h, "mp4", prepare, mksample, mkmain)


def S(*mdats, **kw):
	kw["mdats"] = [[(t, fs.split()) for t, fs in m] for m in mdats]
	kw.setdefault("tracks", sorted(set(t for m in mdats for t, fs in m)))
	return kw


_Q = [
	{"sample": S([(1, "a")]), "main": S([(1, "a")]), "lo": 1, "hi": 400000},
	{"sample": S([(1, "a"), (2, "b"), (1, "c d")]), "main": S([(1, "p"), (2, "p1"), (1, "a c"), (2, "b"), (1, "d e")]), "lo": 256},
	{"sample": S([(1, "a b")], first=False), "main": S([(1, "p a"), (1, "b")], co64=True, wide=True), "check": True, "big": True},
	{"sample": S([(1, "a"), (1, "b"), (1, "c d")], rev=True, zero=True), "main": S([(1, "p"), (1, "a b c d")], first=False, free=True, tail=True)},
	{"sample": S([(1, "a b")], fixed=True, co64=True), "main": S([(1, "p a"), (1, "b")], fixed=True)},
	# several data atoms
	{"sample": S([(1, "a")], [(1, "b")], gap=True), "main": S([(1, "p")], [(1, "a")], [(1, "b")])},
	{"sample": S([], [(1, "a"), (2, "b")], first=False), "main": S([(1, "p"), (2, "b"), (1, "a")]), },
	{"sample": S([(1, "a b")], fov=True, wide=True), "main": S([(1, "a")], [(1, "b")], fov=True)},
	# tracks without data, or only in the movie
	{"sample": S([(1, "a")], tracks=[1, 2]), "main": S([(1, "a")], tracks=[1, 2]), "check": True},
	{"sample": S([(1, "a")], tracks=[1, 2]), "main": S([(1, "a"), (2, "b")])},
	{"sample": S([(1, "a")], tracks=[2, 1]), "main": S([(1, "a")])},
	{"sample": S([(1, "a")]), "main": S([(2, "b"), (1, "a")]), "check": True},
	{"sample": S([(1, "a - b")]), "main": S([(1, "p"), (1, "a -"), (1, "b")])},
	# a box that goes on to the end of the file
	{"sample": S([(1, "a")], tail=2), "main": S([(1, "a")], tail=2)},
	# the movie in RAR files
	{"sample": S([(1, "a b")]), "main": S([(1, "p a b")]), "rar": 1, "lo": 1000},
	{"sample": S([(1, "a")]), "main": S([(1, "p"), (1, "a")]), "rar": 2, "lo": 1000, "rarmin": 1300},
]
_W = [
	{"sample": S([(1, "a")]), "main": S([(1, "a")]), "swap": "a"},
	{"sample": S([(1, "a"), (2, "b")]), "main": S([(2, "b"), (1, "a")]), "swap": "b", "opt": ("-k",)},
	{"sample": S([(1, "a b")]), "main": S([(1, "a")]), "swap": ""},
	{"sample": S([(1, "a"), (2, "b")]), "main": S([(1, "a")]), "swap": ""},
	{"sample": S([(1, "a"), (1, "b")]), "main": S([(1, "a"), (1, "b")]), "swap": "", "cut": 60, "lo": 256},
]
_T = [dict(c, lo=64 if "rar" in c else 1, plo=64 if "rar" in c else 1, rarmin=20) for c in _Q]
_TW = [dict(c, lo=1) for c in _W]
HARNESSES = [Harness("life", "life", _Q, _T, expect=("end",)), Harness("wrong", "wrong", _W, _TW, expect=("refused",))]
