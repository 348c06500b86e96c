"""Music: an SRS and the same music with other tags give back the tagged file."""
import struct
from symex.run import Harness
from props import media as M

PRELOAD = ("resample.main", "resample.srs", "resample.flac", "resample.mp3")
BOUNDS = ("FLAC and MP3 tracks with 300 to 60000 bytes of music of any content; any mix of ID3v2, FLAC metadata blocks, APE, Lyrics3 and ID3v1 tags of any content and size "
          "(each to 16 KiB, ID3v2 to 4 MiB) on the track and on the music it is rebuilt from; text or junk before MP3 data; music that differs, is cut or misses")
OUTSIDE = ("the acoustic fingerprint itself (an external program; a fixed one is used here); ID3v2 tags of a wrong size or doubled; "
           "music that ends in what looks like a tag; a RIFF container around MP3 data")
ASSUMPTIONS = ["a search for bytes in opaque content finds them where they were put, not by accident elsewhere"]
FP = b"AQADtEmUaEkSRZEGAAAAAAAAAAAAAAAAAAAAAAAA" * 6
END = b"\x55" * 32


def setup(h):
	M.setup(h)
	h.patch("resample.main", "fingerprint", lambda *a: (b"123", FP))


def id3(h, nm, big=False):
	if big:
		n = [h.int("%s.n%d" % (nm, i), 0, 1 if i == 0 else 127) for i in range(4)]
		return (b"ID3\3\0\0" + struct.pack("BBBB", *n) +
		        h.blob(nm, 1 << 22, 1 << 22)[:((n[0] * 128 + n[1]) * 128 + n[2]) * 128 + n[3]])
	a, b = h.int(nm + ".a", 0, 127), h.int(nm + ".b", 1, 127)
	return b"ID3\3\0\0" + struct.pack("BBBB", 0, 0, a, b) + h.blob(nm, 16384, 16384)[:a * 128 + b]


def id3v1(h, nm):
	return b"TAG" + h.blob(nm, 125, 125)


def ape(h, nm, version=2000):
	items = h.blob(nm, 200, 9000)
	rest = struct.pack("<LLLL", version, len(items) + 32, 1, 0) + b"\0" * 8
	return (b"APETAGEX" + rest if version == 2000 else b"") + items + b"APETAGEX" + rest


def lyrics(h, nm, version):
	if version == 2:
		return b"LYRICSBEGIN" + h.blob(nm, 140, 140) + b"000151LYRICS200"
	t = h.blob(nm, 200, 4000)
	return b"LYRICSBEGIN" + t + b"LYRICSEND"


def tags(h, nm, spec):
	out = b""
	for k in spec:
		n = nm + "." + k
		if k == "ape" or k == "ape1":
			out = out + ape(h, n, 2000 if k == "ape" else 1000)
		elif k == "lyr1" or k == "lyr2":
			out = out + lyrics(h, n, int(k[3]))
		else:
			out = out + id3v1(h, n)
	return out


def meta(h, nm, kinds):
	"""FLAC metadata blocks: STREAMINFO and others"""
	out = struct.pack(">L", (0 if kinds else 0x80000000) + 34) + h.blob(nm + ".info", 34, 34)
	for i, k in enumerate(kinds):
		b = h.blob("%s.m%d" % (nm, i), 1, 60000)
		out = out + struct.pack(">L", ((0x80 if i == len(kinds) - 1 else 0) + k) * (1 << 24) + len(b)) + b
	return out


def track(h, nm, spec, data):
	"""spec: (front, kinds or junk, tags)"""
	front, mid, back = spec
	out = b""
	if mid == "junk":
		out = b"ID3\3\0\0\0\0\0\x20" + b"the tag.." * 3 + h.bytes(nm + ".id3", 1) + b"...." if front else b""
		out = out + b"text that doesn't belong here, before the music" * 3
	elif front:
		out = id3(h, nm + ".id3", front == "ID3")
	if h.case["ext"] == "flac":
		out = out + b"fLaC" + meta(h, nm, mid)
	out = out + data["v"] + tags(h, nm, back)
	if "v1" not in back:
		h.assume(h.no(out[len(out) - 128:len(out) - 125] == b"TAG"))
	return out


def fit(h, m):
	"""the end of the music isn't taken for a tag"""
	if h.case["ext"] == "mp3" and h.case.get("cut"):
		n = len(m)
		h.assume(h.no(m[n - 128:n - 125] == b"TAG"))
		h.assume(h.no(m[n - 9:] == b"LYRICS200"))
		h.assume(h.no(m[n - 9:] == b"LYRICSEND"))
		h.assume(h.no(m[n - 32:n - 24] == b"APETAGEX"))


def prepare(h):
	c = h.case
	d = h.blob("data", c.get("lo", 300), c.get("hi", 60000))
	if c["ext"] == "flac":
		d = b"\xff\xf8" + d
	else:
		d = b"\xff" + struct.pack("B", h.int("sync", 0xe0, 0xff)) + d + END
		h.assume(h.no(d[4:8] == b"ftyp"))
	return {"v": d}


def mksample(h, data):
	return track(h, "s", h.case["sample"], data)


def mkmain(h, data):
	if h.case.get("gone"):
		return track(h, "m", h.case["main"], {"v": b"\xff\xf9\0\0\0\0\0\0" + h.blob("odata", 300, 60000) + END})
	return track(h, "m", h.case["main"], data)


def life(h):
	M.life(h, h.case["ext"], prepare, mksample, mkmain, setup)


def wrong(h):
	M.wrong(h, h.case["ext"], prepare, mksample, mkmain, setup, END if h.case["ext"] == "mp3" else b"", fit)


def retag(h):
	"""the result takes the place of the music it is made from; on failure that stays"""
	setup(h)
	data = prepare(h)
	ext = h.case["ext"]
	sample = mksample(h, data)
	h.put("s/x." + ext, sample)
	h.check(M.create(h, "s/x." + ext, "x.srs"), "the SRS is made")
	if h.case.get("swap"):
		data = {"v": data["v"][:256] + h.blob("other", 40, 60000) + END}
	m = "m/x." + ext
	h.put(m, mkmain(h, data))
	main = h.get(m)
	had = h.ls()
	ok = M.rebuild(h, "x.srs", m, "m", *h.case.get("opt", ()))
	if ok:
		h.check(h.crc(h.get(m)) == h.crc(sample), "what passes has the checksum of the sample")
		if not h.case.get("swap"):
			h.eq(h.get(m), sample, "the track gets its tags back")
			h.reach("retagged")
	else:
		h.check(h.case.get("swap"), "the track is rebuilt")
		h.eq(h.get(m), main, "the music is left alone")
		h.reach("refused")
	left = h.ls()
	if not ok and h.case.get("opt"):
		left = [f for f in left if f in had]
	h.eq(sorted(left), sorted(had), "nothing else is left behind")


F, P = "flac", "mp3"
_L = [
	{"ext": F, "sample": ("", (4,), ()), "main": ("", (4, 1), ())},
	{"ext": F, "sample": ("", (), ()), "main": ("", (), ()), "check": 1},
	{"ext": F, "sample": ("id3", (4,), ("v1",)), "main": ("", (), ())},
	{"ext": F, "sample": ("", (1, 4), ()), "main": ("id3", (4,), ("v1",)), "big": 1},
	{"ext": F, "sample": ("", (4,), ("v1",)), "main": ("id3", (), ())},
	{"ext": F, "sample": ("ID3", (4,), ()), "main": ("ID3", (), ())},
	{"ext": P, "sample": ("ID3", "", ("v1",)), "main": ("", "", ())},
	{"ext": P, "sample": ("", "", ()), "main": ("ID3", "", ("v1",))},
	{"ext": P, "sample": ("", "", ()), "main": ("", "", ()), "check": 1},
	{"ext": P, "sample": ("id3", "", ("v1",)), "main": ("", "", ())},
	{"ext": P, "sample": ("", "", ("v1",)), "main": ("id3", "", ("v1",)), "big": 1},
	{"ext": P, "sample": ("id3", "", ("ape", "v1")), "main": ("id3", "", ())},
	{"ext": P, "sample": ("id3", "", ("ape1",)), "main": ("", "", ("ape",))},
	{"ext": P, "sample": ("id3", "", ("lyr2", "v1")), "main": ("", "", ("v1",))},
	{"ext": P, "sample": ("", "", ("lyr1", "v1")), "main": ("", "", ())},
	{"ext": P, "sample": ("", "", ("ape", "lyr2")), "main": ("id3", "", ("v1",))},
	{"ext": P, "sample": ("", "", ()), "main": ("", "", ("ape1",))},
	{"ext": P, "sample": ("", "", ("v1",)), "main": ("", "", ("ape", "v1"))},
	{"ext": P, "sample": ("", "", ()), "main": ("", "", ("lyr1", "v1"))},
	{"ext": P, "sample": ("", "", ()), "main": ("id3", "", ("lyr2", "v1"))},
	{"ext": P, "sample": ("id3", "", ()), "main": ("", "junk", ("v1",))},
	{"ext": P, "sample": ("id3", "", ()), "main": ("id3", "junk", ())},
	{"ext": P, "sample": ("id3", "junk", ("v1",)), "main": ("id3", "junk", ("v1",))},
]
_W = [
	{"ext": F, "sample": ("", (4,), ()), "main": ("", (), ()), "swap": "v"},
	{"ext": F, "sample": ("", (4,), ()), "main": ("", (), ()), "swap": "v", "same": False},
	{"ext": F, "sample": ("", (), ()), "main": ("", (), ()), "swap": None, "cut": 500, "lo": 2000, "hi": 2000},
	{"ext": F, "sample": ("", (), ()), "main": ("", (), ()), "swap": None, "gone": 1},
	{"ext": P, "sample": ("id3", "", ("v1",)), "main": ("", "", ()), "swap": "v", "opt": ("-k",)},
	{"ext": P, "sample": ("id3", "", ()), "main": ("", "", ("v1",)), "swap": "v", "same": False},
	{"ext": P, "sample": ("", "", ("v1",)), "main": ("", "", ()), "swap": None, "cut": 500, "lo": 2000, "hi": 2000},
	{"ext": P, "sample": ("", "", ()), "main": ("", "", ()), "swap": None, "gone": 1},
]
_R = [
	{"ext": F, "sample": ("", (4,), ()), "main": ("", (1,), ())},
	{"ext": F, "sample": ("", (4,), ()), "main": ("", (1,), ()), "swap": "v"},
	{"ext": P, "sample": ("id3", "", ("v1",)), "main": ("", "", ())},
	{"ext": P, "sample": ("id3", "", ("v1",)), "main": ("", "", ()), "swap": "v"},
	{"ext": P, "sample": ("id3", "", ("v1",)), "main": ("", "", ()), "swap": "v", "opt": ("-k",)},
]
HARNESSES = [
	Harness("life", "life", _L, None, {}, ["end"]),
	Harness("wrong", "wrong", _W, None, {}, ["refused"]),
	Harness("retag", "retag", _R, None, {}, ["retagged", "refused"]),
]
