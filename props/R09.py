"""Damaged SRS files, samples and movies: reported, and nothing is lost or half-made."""
import struct
from symex.run import Harness
from props import media as M, R02, R03, R04, R05, R06, R07

PRELOAD = ("resample.main", "resample.srs")
BOUNDS = ("one small sample of every kind (AVI, Matroska, MP4, WMV, FLAC, MP3, stream); its SRS or the sample itself cut off at any place, or any "
          "one byte of the SRS changed to any other value")
OUTSIDE = "damage to several bytes at once; other samples; damage that makes the file larger"


class _Const(object):
	"""stands in for a harness: the encoders make one fixed file"""
	symbolic = False

	def __init__(self, case):
		self.case = case
		self.n = 0
		self.tier = "quick"

	def int(self, nm, lo, hi):
		return lo

	def bool(self, nm):
		return False

	def bytes(self, nm, n):
		# nothing here looks like a header
		self.n += 1
		return bytes((self.n * 29 + i * 13) % 61 + 130 for i in range(n))

	def blob(self, nm, lo, hi):
		return self.bytes(nm, max(lo, min(hi, 4)))

	def str(self, nm, n, *a, **k):
		return "q" * n

	def assume(self, x):
		pass

	def patch(self, *a):
		pass

	def all(self, *a):
		return all(a)

	def any(self, *a):
		return any(a)

	def no(self, a):
		return not a

	def ite(self, c, a, b):
		return a if c else b


def _music(ext):
	return {"ext": ext, "sample": ("id3", (4,) if ext == "flac" else "", ("v1",)), "main": ("", () if ext == "flac" else "", ())}


def _spec(x):
	return {"sample": x, "main": x}


KINDS = {
	"avi": (R02, {"sample": [(0, ["a"]), (1, ["b"])], "main": [(0, ["a"]), (1, ["b"])]}),
	"mkv": (R03, _spec(R03.S([("s", 1, "a"), ("s", 2, "b")]))),
	"mp4": (R04, _spec(R04.S([(1, "a"), (2, "b")]))),
	"wmv": (R05, _spec(R05.S([(1, "a"), (2, "b")]))),
	"flac": (R06, _music("flac")),
	"mp3": (R06, _music("mp3")),
	"vob": (R07, {"ext": "vob"}),
}


def build(h):
	kind = h.case["kind"]
	mod, spec = KINDS[kind]
	if mod is R06:
		R06.setup(h)
	else:
		M.setup(h)
	c = _Const(dict(spec))
	data = mod.prepare(c)
	sample = mod.mksample(c, data)
	main = mod.mkmain(c, data)
	return kind, sample, main


def _rebuild(h, kind, main, want, crc):
	"""a rebuilt sample is right, or a failure is reported and nothing stays"""
	h.put("m/main." + kind, main)
	h.mkdir("out")
	had = {f: h.get(f) for f in h.ls()}
	ok = M.rebuild(h, "x.srs", "m/main." + kind, "out")
	new = [f for f in h.ls() if f not in had]
	if ok:
		h.check(len(new) == 1 and new[0].startswith("out/"), "one file is made, in the output folder")
		h.check(h.crc(h.get(new[0])) == crc, "what passes has the checksum of the sample")
		h.reach("rebuilt")
	else:
		h.check(new == [], "a failure leaves nothing behind")
		h.reach("failed")
	for f in had:
		h.eq(h.get(f), had[f], "the other files are left alone")
	return ok


def _srs(h):
	kind, sample, main = build(h)
	h.put("s/x." + kind, sample)
	h.check(M.create(h, "s/x." + kind, "x.srs"), "the SRS is made")
	return kind, sample, main, h.get("x.srs")


def cut_srs(h):
	"""an SRS that is cut off"""
	kind, sample, main, srs = _srs(h)
	n = len(srs)
	k = h.int("k", n * h.case["part"] // 4, n * (h.case["part"] + 1) // 4 - 1)
	h.put("x.srs", srs[:k])
	_rebuild(h, kind, main, sample, h.crc(sample))


def flip_srs(h):
	"""an SRS of which one byte is another one"""
	kind, sample, main, srs = _srs(h)
	n = len(srs)
	step = h.case["step"]
	p = h.choose("p", list(range(h.case["part"], n, step)))
	x = h.bytes("x", 1)
	h.assume(x[0] != srs[p])
	h.put("x.srs", srs[:p] + x + srs[p + 1:])
	_rebuild(h, kind, main, sample, h.crc(sample))


# the quick tier takes every so many places for the kinds that are slow
STEP = {"wmv": 38, "flac": 12, "mp3": 12, "vob": 12}


def cut_sample(h):
	"""a sample that is cut off: refused, or its SRS gives the cut sample back"""
	kind, sample, main = build(h)
	n = len(sample)
	q = STEP.get(kind, 1) if h.tier == "quick" else 1
	k = h.int("k", n * h.case["part"] // 4 // q, n * (h.case["part"] + 1) // 4 // q - 1) * q + q // 2
	s = sample[:k]
	h.put("s/x." + kind, s)
	if not M.create(h, "s/x." + kind, "x.srs"):
		h.eq(h.ls(), ["s/x." + kind], "nothing is left of an SRS that can't be made")
		h.reach("refused")
		return
	h.eq(sorted(h.ls()), ["s/x." + kind, "x.srs"], "the SRS is made")
	# the same cut file as the movie
	h.check(_rebuild(h, kind, s, s, h.crc(s)), "an SRS that is made gives the sample back")
	h.reach("made")


HARNESSES = [
	Harness("cut_srs", "cut_srs", [{"kind": k, "part": p} for k in sorted(KINDS) for p in range(4)], expect=("failed",)),
	Harness("flip_srs", "flip_srs", [{"kind": k, "part": p, "step": 32} for k in sorted(KINDS) for p in ((3, 19) if k != "mp4" else (21,))],
	        [{"kind": k, "part": p, "step": 16} for k in sorted(KINDS) for p in range(16)], expect=("failed", "rebuilt"), terminates=False),
	Harness("cut_sample", "cut_sample", [{"kind": k, "part": p} for k in sorted(KINDS) for p in range(4)], expect=("refused", "made")),
]
