"""Stream samples (vob, ts, ...): an SRS and the movie give back the sample."""
from symex.run import Harness
from props import media as M

PRELOAD = ("resample.main", "resample.srs", "resample.stream")
BOUNDS = ("samples of 256 to 60000 bytes (and short ones of 20 and 100), any content; movies that hold the sample after 0 to 200000 other bytes and before 0 to 200000 "
          "others, plain or in RAR volumes cut at any place")
OUTSIDE = ("movies that hold a copy of the sample's first 256 bytes elsewhere, before the right place; samples that are taken for another format by their first "
           "bytes or an ID3v1 tag at their end; the unfinished M2TS format")
ASSUMPTIONS = ["a search for bytes in opaque content finds them where they were put, not by accident elsewhere"]


# begins unlike the sample
OTHER = b"\x47\x40\x11\x10" + b"\x2a" * 12


def plain(h, d):
	"""not taken for music by an ID3v1 tag"""
	if len(d) >= 128:
		h.assume(h.no(d[len(d) - 128:len(d) - 125] == b"TAG"))


def prepare(h):
	c = h.case
	n = c.get("small")
	d = b"\0\0\1\xba\x44\0\4\0\4\1\0\x9c\x43\xf8" + h.bytes("head", 2)
	d = d + (h.bytes("small", n) if n else h.blob("data", c.get("lo", 300), c.get("hi", 60000)))
	return {"v": d}


def mksample(h, data):
	plain(h, data["v"])
	return data["v"]


def mkmain(h, data):
	c = h.case
	n = c.get("before", 200000)
	b = b""
	if n:
		b = OTHER + (h.bytes("mb", n) if c.get("small") else h.blob("mb", c.get("blo", 60), n))
	d = b + data["v"]
	n = c.get("after", 200000)
	if n:
		d = d + h.blob("ma", c.get("alo", 128), n)
	plain(h, d)
	return d


def life(h):
	M.life(h, h.case.get("ext", "vob"), prepare, mksample, mkmain)


def wrong(h):
	M.wrong(h, h.case.get("ext", "vob"), prepare, mksample, mkmain)


def absent(h):
	"""the movie does not have the sample"""
	M.setup(h)
	d = mksample(h, prepare(h))
	h.put("s/x.vob", d)
	m = OTHER + h.blob("mb", h.case.get("mlo", 300), 200000)
	plain(h, m)
	main = M.place(h, m, "vob")
	had = h.ls()
	if h.case.get("check"):
		h.check(not M.create(h, "s/x.vob", "x.srs", main), "no SRS is made")
		h.eq(h.ls(), had, "nothing is left behind")
	else:
		h.check(M.create(h, "s/x.vob", "x.srs"), "the SRS is made")
		h.mkdir("out")
		h.check(not M.rebuild(h, "x.srs", main, "out"), "the rebuild fails")
		h.eq(sorted(h.ls()), sorted(had + ["x.srs"]), "nothing is left behind")
	h.eq(h.get(main), m, "the movie is left alone")
	h.reach("end")


_FIX = {"before": 1000, "blo": 1000, "lo": 1000, "hi": 1000, "alo": 1000, "after": 1000}
_L = [{}, {"check": 1}, {"before": 0}, {"after": 0, "ext": "ts"}, {"big": 1, "ext": "m2ts"}, {"rar": 1, "before": 60000, "after": 60000},
      dict(_FIX, rar=2, rarmin=200, rarmax=1000), dict(_FIX, rar=2, rarmin=1200, rarmax=2000), {"small": 6, "before": 4, "after": 0}, {"small": 90, "before": 0, "after": 30000}]
_W = [{"swap": "v", "before": 70000, "after": 3000}, {"swap": "v", "same": False, "before": 3000, "after": 3000}, dict(_FIX, swap=None, cut=1420, after=0),
      {"swap": "v", "before": 3000, "after": 3000, "opt": ("-k",)}]
_A = [{}, {"check": 1}]

HARNESSES = [
	Harness("life", "life", _L, None, {}, ["end"]),
	Harness("wrong", "wrong", _W, None, {}, ["refused"]),
	Harness("absent", "absent", _A, None, {}, ["end"]),
]
