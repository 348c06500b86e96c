"""The content hash identifies the RAR metadata, and nothing else."""
from symex.run import Harness
from props import common as C, srrbuild as B

PRELOAD = ("rescene.main",)
BOUNDS = ("pairs of SRR files of 1-3 RAR volumes with symbolic header fields in any order, with any other stored files, OSO "
          "hashes, application names and folders around them")
OUTSIDE = "volumes of equal name in different folders; collisions of SHA-1 itself"
ASSUMPTIONS = ["SHA-1 is modelled as injective: equal digests mean equal hashed bytes"]

VOLS = ["a.rar", "B.r00", "c.r01"]


def _vol(h, i, tag):
	"""headers of a volume"""
	ps = h.int("ps%d%s" % (i, tag), 0, 0xFFFFFFFF)
	fc = h.int("fc%d%s" % (i, tag), 0, 0xFFFFFFFF)
	vc = h.int("vc%d%s" % (i, tag), 0, 0xFFFF)
	ec = h.int("ec%d%s" % (i, tag), 0, 0xFFFF)
	body = C.RAR_MARKER + C.volhdr(crc=vc) + C.filehdr(b"f.avi", ps, ps, crc=fc) + C.endblock(crc=ec)
	return body, [ps, fc, vc, ec]


def _case(h, n):
	return n.upper() if h.case.get("case") else n


def _srr(h, order, bodies, extra, tag):
	out = C.srr_header(h.str("app" + tag, 2 if extra else 1, 0x20, 0x7E).encode("ascii"))
	if extra:
		d = h.blob("st" + tag, 0, 1 << 20)
		out = out + C.srr_stored(h.str("sn" + tag, 2, 0x61, 0x7A).encode("ascii"), d)
	pos = []
	for k, i in enumerate(order):
		nm = VOLS[i]
		if extra:
			nm = "CD1/" + _case(h, nm)
		out = out + C.srr_rarfile(nm.encode("ascii"))
		out = out + bodies[i]
		if extra and k == 0 and h.case.get("mid"):
			out = out + C.srr_stored(b"mid.nfo", h.blob("mid" + tag, 0, 1 << 20))
	if extra and h.case.get("oso"):
		out = out + C.srr_oso(b"f.avi", h.int("oz" + tag, 0, (1 << 64) - 1), h.int("oh" + tag, 0, (1 << 64) - 1))
	return out


def same(h):
	"""same volumes, everything else different"""
	m = h.mod("rescene.main")
	n = h.case["n"]
	bodies = [_vol(h, i, "")[0] for i in range(n)]
	h.put("1.srr", _srr(h, list(range(n)), bodies, 0, "1"))
	h.put("2.srr", _srr(h, h.case["order"], bodies, 1, "2"))
	h.check(m.content_hash(h.path("1.srr")) == m.content_hash(h.path("2.srr")), "same RAR metadata, same hash")
	h.reach("end")


def differ(h):
	"""any difference in the headers of any volume shows"""
	m = h.mod("rescene.main")
	n = h.case["n"]
	b1, f1, b2, f2 = [], [], [], []
	for i in range(n):
		b, f = _vol(h, i, "x")
		b1.append(b)
		f1 += f
		b, f = _vol(h, i, "y")
		b2.append(b)
		f2 += f
	h.put("1.srr", _srr(h, list(range(n)), b1, 0, "1"))
	h.put("2.srr", _srr(h, h.case["order"], b2, 0, "2"))
	eq = m.content_hash(h.path("1.srr")) == m.content_hash(h.path("2.srr"))
	same_ = h.all(*[x == y for x, y in zip(f1, f2)])
	h.check(h.all(h.implies(eq, same_), h.implies(same_, eq)), "equal hashes exactly for equal metadata")
	h.reach("end")


def fewer(h):
	"""a missing volume shows"""
	m = h.mod("rescene.main")
	bodies = [_vol(h, i, "")[0] for i in range(3)]
	h.put("1.srr", _srr(h, [0, 1, 2], bodies, 0, "1"))
	h.put("2.srr", _srr(h, h.case["order"], bodies, 0, "2"))
	h.check(h.no(m.content_hash(h.path("1.srr")) == m.content_hash(h.path("2.srr"))), "a volume less, an other hash")
	h.reach("end")


def edited(h):
	"""editing the stored files does not change the hash"""
	m = h.mod("rescene.main")
	bodies = [_vol(h, i, "")[0] for i in range(2)]
	h.put("1.srr", _srr(h, [0, 1], bodies, 1, "1"))
	h.put("in/n.nfo", h.blob("n", 0, 1 << 20))
	a = m.content_hash(h.path("1.srr"))
	m.add_stored_files(h.path("1.srr"), ["n.nfo"], h.path("in"))
	h.check(m.content_hash(h.path("1.srr")) == a, "same hash after adding a file")
	m.rename_stored_file(h.path("1.srr"), "n.nfo", "other.nfo")
	h.check(m.content_hash(h.path("1.srr")) == a, "same hash after renaming it")
	m.remove_stored_files(h.path("1.srr"), ["other.nfo"])
	h.check(m.content_hash(h.path("1.srr")) == a, "same hash after removing it")
	h.reach("end")


HARNESSES = [
	Harness("same", "same", [{"n": n, "order": o, "mid": mid, "oso": 1 - mid, "case": mid} for n, o in (
		(1, [0]), (2, [0, 1]), (2, [1, 0]), (3, [2, 0, 1]), (3, [0, 2, 1])) for mid in (0, 1)], expect=("end",)),
	Harness("differ", "differ", [{"n": 1, "order": [0]}, {"n": 2, "order": [0, 1]}, {"n": 2, "order": [1, 0]}, {"n": 3, "order": [1, 2, 0]}],
	        expect=("end",)),
	Harness("fewer", "fewer", [{"order": o} for o in ([0, 1], [0, 2], [1, 2], [0])], expect=("end",)),
	Harness("edited", "edited", [{}], expect=("end",)),
]
