"""AVI samples: an SRS and the movie give back the sample."""
import struct
from symex.run import Harness
from props import media as M

PRELOAD = ("resample.main", "resample.srs")
QUICK_S = 200
BOUNDS = ("samples of 1-4 chunks in 1-2 streams, every chunk of any size up to 1 MiB and any content, cut from movies of 1-6 chunks "
          "at any chunk boundary or inside a chunk; odd and even chunk sizes with any padding byte; any headers, junk, index")
OUTSIDE = ("movies that contain a part of the sample's first 256 bytes of a stream before the right place (the search may be misled; "
           "the checksum then reports it); more chunks and streams")


def chunk(h, cc, data, nm):
	b = cc + struct.pack("<L", len(data)) + data
	if len(data) % 2 == 1:
		b = b + h.bytes(nm + ".pad", 1)
	return b


def lst(kind, cc, body):
	return kind + struct.pack("<L", len(body) + 4) + cc + body


class Avi(object):
	pass


def avi(h, nm, chunks, data, junk=True, idx=True, extra=()):
	"""chunks: (stream, [pieces]); a "rec " list is ("rec", [chunks])"""
	hd = h.blob(nm + ".hdr", 0, 4000)
	h.assume(len(hd) % 2 == 0)
	head = lst(b"LIST", b"hdrl", b"avih" + struct.pack("<L", len(hd)) + hd)
	if junk:
		head = head + chunk(h, b"JUNK", h.bytes(nm + ".junk", 3), nm + ".junk")
	offs = []
	cnt = [0]

	def run(cs, base):
		body = b""
		for t, ps in cs:
			if t == "rec":
				body = body + lst(b"LIST", b"rec ", run(ps, base + len(body) + 12))
				continue
			d = b""
			for p in ps:
				d = d + data[p]
			cnt[0] += 1
			if t is None:
				cc = b"JUNK"
			else:
				cc = ("%02d%s" % (t, "dcwbtx"[2 * min(t, 2):2 * min(t, 2) + 2])).encode()
				offs.append((t, base + len(body), len(d)))
			body = body + chunk(h, cc, d, nm + ".%d" % cnt[0])
		return body
	movi = lst(b"LIST", b"movi", run(chunks, 4))
	tail = b""
	if idx:
		ix = b""
		for t, o, n in offs:
			ix = ix + ("%02ddc" % t).encode() + struct.pack("<LLL", 0x10, o, n)
		tail = chunk(h, b"idx1", ix, nm + ".ix")
	out = lst(b"RIFF", b"AVI ", head + movi + tail)
	for cs in extra:
		out = out + lst(b"RIFF", b"AVIX", lst(b"LIST", b"movi", run(cs, 0)))
	return out


def flat(cs):
	for t, ps in cs:
		if t == "rec":
			for x in flat(ps):
				yield x
		else:
			yield t, ps


def pieces(h):
	"""the data, by name: a.. any even length; A.. any length; p.. a byte repeated before a stream; q.. two bytes
	before a stream; - nothing"""
	data = {"-": b""}
	names = set()
	for k in ("main", "sample", "mainx", "samplex"):
		cs = h.case.get(k, ())
		for c in (cs if k[-1] == "x" else [cs]):
			for t, ps in flat(c):
				names.update(ps)
	for p in sorted(names - set("-")):
		if p[0] in "Pp":
			v = h.bytes("v" + p, 1)
			n = h.int("n" + p, 0, 1 << 20)
			if p[0] == "p":
				h.assume(n % 2 == 0)
			data[p] = v * n
			data[p + "!"] = v
		elif p[0] == "q":
			data[p] = h.bytes("v" + p, 2)
			data[p + "!"] = data[p]
		else:
			d = M.frame(h, p, 1, 1 << 20, 4)
			if p[0].islower():
				h.assume(len(d) % 2 == 0)
			data[p] = d
	return data


def fourcc(h, x):
	return h.any(x == 0x20, h.all(x >= 0x30, x <= 0x39), h.all(x >= 0x41, x <= 0x5A), h.all(x >= 0x61, x <= 0x7A))


def streams(h, key):
	"""stream -> names of its pieces in order"""
	out = {}
	for k in (key, key + "x"):
		cs = h.case.get(k, ())
		for c in (cs if k[-1] == "x" else [cs]):
			for t, ps in flat(c):
				if t is not None:
					out.setdefault(t, []).extend(ps)
	return out


def prepare(h):
	"""the samples' and the movie's bytes, under the assumptions"""
	data = pieces(h)
	mains = streams(h, "main")
	for t, ps in streams(h, "sample").items():
		ps = [p for p in ps if p != "-"]
		if not ps:
			continue
		f = data[ps[0]]
		for p in mains.get(t, ()):
			if p == ps[0]:
				break
			if p != "-":
				if h.case.get("near") and p[0] == "q":
					# begins like the stream, but goes on differently
					h.assume(h.no(h.all(data[p][1] == f[1], f[0] == f[2], f[1] == f[3])))
					h.assume(h.no(h.all(data[p][1] == f[0], f[0] == f[1])))
				else:
					for x in data[p + "!"]:
						h.assume(x != f[0])
				if h.case.get("mid") and p[0] in "Pp":
					h.assume(h.all(h.no(fourcc(h, data[p + "!"][-1])), len(data[p]) >= 8))
	return data


def mksample(h, data):
	return avi(h, "s", h.case["sample"], data, extra=h.case.get("samplex", ()))


def mkmain(h, data):
	return avi(h, "m", h.case["main"], data, junk=False, extra=h.case.get("mainx", ()), idx=h.case.get("idx", True))


def life(h):
	M.life(h, "avi", prepare, mksample, mkmain)


def wrong(h):
	M.wrong(h, "avi", prepare, mksample, mkmain)


_Q = [
	{"sample": [(0, ["a"])], "main": [(0, ["a"])]},
	{"sample": [(0, ["A"])], "main": [(0, ["p"]), (0, ["A"])], "check": True, "big": True},
	{"sample": [(0, ["a"]), (1, ["b"]), (0, ["c"])],
	 "main": [(0, ["p"]), (1, ["P1"]), (0, ["a"]), (1, ["b"]), (0, ["c"]), (1, ["d"]), (0, ["e"])]},
	# chunks cut differently
	{"sample": [(0, ["a", "b"])], "main": [(0, ["a"]), (0, ["b"])]},
	{"sample": [(0, ["a"]), (1, ["c"]), (0, ["b"])], "main": [(1, ["c"]), (0, ["a", "b"])]},
	# starts and ends inside a chunk
	{"sample": [(0, ["a"])], "main": [(0, ["P0", "a", "b"])], "mid": True},
	{"sample": [(1, ["b"]), (0, ["a"])], "main": [(0, ["p0"]), (1, ["p1"]), (0, ["p2", "a", "c"]), (1, ["b"])], "mid": True},
	# streams the sample doesn't have
	{"sample": [(0, ["a"])], "main": [(2, ["c"]), (0, ["a"]), (1, ["b"])]},
	{"sample": [(0, ["a"])], "main": [(2, ["c"]), (0, ["p"]), (0, ["a"]), (1, ["b"])], "check": True},
	# empty chunks
	{"sample": [(0, ["-"]), (0, ["a"]), (0, ["-"])], "main": [(0, ["-"]), (0, ["a"]), (0, ["-"])]},
	{"sample": [(0, ["a"]), (1, ["-"])], "main": [(1, ["-"]), (0, ["a"])]},
	{"sample": [(0, ["a"]), (1, ["-"])], "main": [(0, ["a"])]},
	# other chunks and lists between them
	{"sample": [(0, ["a"]), (None, ["J"]), ("rec", [(1, ["b"])])], "main": [("rec", [(0, ["a"]), (1, ["b"])]), (None, ["K"])]},
	{"sample": [(0, ["a"])], "samplex": [[(0, ["b"])]], "main": [(0, ["p"])], "mainx": [[(0, ["a"]), (0, ["b"]), (0, ["c"])]]},
	# almost a match
	{"sample": [(0, ["a"])], "main": [(0, ["q"]), (0, ["a"])], "near": True},
	{"sample": [(0, ["a"])], "main": [(0, ["p", "q", "a"])], "near": True, "mid": True, "idx": False},
	# the movie in RAR files
	{"sample": [(0, ["a"]), (1, ["b"])], "main": [(0, ["p"]), (1, ["b"]), (0, ["a"])], "rar": 1},
	{"sample": [(0, ["a"])], "main": [(0, ["p"]), (0, ["a"])], "rar": 2},
]
_W = [
	{"sample": [(0, ["a"])], "main": [(0, ["a"])], "swap": "a"},
	{"sample": [(0, ["a"]), (0, ["b"])], "main": [(0, ["a"]), (0, ["b"])], "swap": "b"},
	{"sample": [(0, ["a"]), (1, ["b"])], "main": [(0, ["a"]), (1, ["b"])], "swap": "b", "opt": ("-k",)},
	{"sample": [(0, ["a"]), (0, ["b"])], "main": [(0, ["a"])], "swap": ""},
	{"sample": [(0, ["a"]), (1, ["b"])], "main": [(0, ["a"])], "swap": ""},
]
_W += [
	{"sample": [(0, ["a"]), (1, ["b"])], "main": [(0, ["a"]), (1, ["b"])], "swap": "", "cut": 240},
	{"sample": [(0, ["a"]), (0, ["b"])], "main": [(0, ["p"]), (0, ["a"]), (0, ["b"])], "swap": "b", "same": False},
]
_TW = [dict(c, **({"cut": 60} if "cut" in c else {})) for c in _W]
HARNESSES = [Harness("life", "life", _Q, expect=("end",)), Harness("wrong", "wrong", _W, _TW, expect=("refused",))]
