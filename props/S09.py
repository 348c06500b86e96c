"""Reading a packed file through its volumes is reading the file."""
import os
from symex.run import Harness
from props import common as C, rarset as R

PRELOAD = ("rescene.rarstream",)
QUICK_S = 120
BOUNDS = ("store-mode sets of 1-3 volumes with any split (also empty pieces), 1-3 files, comments, old and new naming, two seeks (any offset "
          "to 2^18, any origin) with reads of any size in between, contents to 2^17; recreated files to 2^40 for the fake file")
OUTSIDE = "more volumes; volumes that disappear while reading"


def _open(h, which=None):
	rs = h.mod("rescene.rarstream")
	vols, files = R.build(h, h.case["spec"], naming=h.case.get("naming", "old"), maxlen=1 << 17, real_crc=0)
	R.put(h, "v/", vols)
	# something else lies beside it
	h.put("v/other.rar", C.RAR_MARKER + C.volhdr(0x100) + C.filehdr(b"a.avi", 3, 3) + b"zzz")
	w = h.case.get("file", 0)
	name = R.nice(w)
	if h.case.get("posix"):
		name = name.replace("\\", "/")
	s = rs.RarStream(h.path("v/" + vols[0].name), name if h.case.get("named", 1) else None)
	return s, files[w]


def whole(h):
	s, d = _open(h)
	h.check(s.length() == len(d), "length of the file")
	h.eq(s.read(), d, "reading all gives the file")
	h.check(s.tell() == len(d), "and ends at its end")
	h.eq(s.read(), b"", "then nothing is left")
	h.eq(s.read(5), b"", "then nothing is left")
	s.seek(0)
	h.eq(s.read(), d, "and again from the start")
	s.close()
	h.check(s.closed, "closed")
	h.reach("end")


def steps(h):
	"""seek, read, seek, read"""
	s, d = _open(h)
	n = len(d)
	pos = 0
	for k in range(h.case["k"]):
		t = "_%d" % k
		org = h.case["org"][k]
		off = h.int("off" + t, -(1 << 18) if org else 0, 1 << 18)
		if org == 0:
			want = off
		elif org == 1:
			want = pos + off
		else:
			want = n + off
		if want < 0:
			try:
				s.seek(off, org)
			except IndexError:
				h.reach("negative")
			else:
				h.check(False, "a position before the start is refused")
			h.check(s.tell() == pos, "and the position stays")
			continue
		h.check(s.seek(off, org) == want, "seek returns the position")
		h.check(s.tell() == want, "tell gives the position")
		pos = want
		size = h.int("size" + t, 0, 1 << 18)
		got = s.read(size)
		end = n
		if pos + size < n:
			end = pos + size
		if pos >= n:
			h.eq(got, b"", "nothing behind the end")
			h.reach("behind")
		else:
			h.eq(got, d[pos:end], "the bytes at the position")
			pos = end
		h.check(s.tell() == pos, "position behind what was read")
	h.reach("end")


def refuse(h):
	rs = h.mod("rescene.rarstream")
	k = h.case["kind"]
	vols, files = R.build(h, [["f0", "e"], ["f0", "f1", "e"]], maxlen=1 << 17, real_crc=0)
	R.put(h, "v/", vols)
	if k == "notfirst":
		h.assume(len(files[0]) > 0)
		a = (h.path("v/" + vols[1].name), R.nice(0))
	elif k == "absent":
		nm = h.str("nm", 5, 0x61, 0x7A)
		a = (h.path("v/" + vols[0].name), nm)
	elif k == "compressed":
		h.put("v/c.rar", C.RAR_MARKER + C.volhdr(0x100) + C.filehdr(b"a.avi", 3, 3, method=h.int("meth", 0x31, 0x35)) + b"zzz")
		a = (h.path("v/c.rar"), None)
	elif k == "empty":
		h.put("v/c.rar", C.RAR_MARKER + C.volhdr(0x100) + C.endblock())
		a = (h.path("v/c.rar"), None)
	try:
		rs.RarStream(*a)
	except AttributeError:
		h.reach("refused")
	else:
		h.check(False, "refused")


def fake(h):
	"""the stand-in for a missing file reads as that many zero bytes"""
	rs = h.mod("rescene.rarstream")
	n = h.int("n", 0, 1 << 20)
	s = rs.FakeFile(n)
	h.check(s.length() == n, "length")
	off = h.int("off", 0, 1 << 20)
	try:
		s.seek(off)
	except IndexError:
		h.check(off >= n, "only a position behind the end is refused")
		h.check(off > 0, "the start is always there")
		h.reach("refused")
		return
	size = h.int("size", 0, 1 << 20)
	got = s.read(size)
	left = 0
	if off < n:
		left = n - off
	if size < left:
		left = size
	h.check(len(got) == left, "as much as there is")
	if len(got):
		k = h.int("k", 0, 1 << 20)
		h.assume(k < len(got))
		h.check(got[k] == 0, "zero bytes")
		h.check(s.tell() == off + len(got), "position")
		h.reach("some")
	h.reach("end")


_SP = [[["f0"]], [["c", "f0", "e"], ["f0", "e"]], [["f0"], ["f0"], ["f0", "f1"]], [["f0", "f1", "f2"]], [["f2", "f0", "e"], ["f0", "f1", "e"]]]
HARNESSES = [
	Harness("whole", "whole", [{"spec": s} for s in _SP] + [{"spec": _SP[1], "naming": "new"}, {"spec": _SP[1], "named": 0},
	                          {"spec": _SP[3], "file": 2, "posix": 1}, {"spec": _SP[3], "file": 1}, {"spec": _SP[4], "file": 1}] +
	        [{"spec": [["f3", "f0"], ["f0", "f4"], ["f4", "f5"]], "file": n} for n in (0, 3, 4, 5)] + [{"spec": _SP[1], "naming": "num"}], expect=("end",)),
	Harness("steps", "steps", [{"spec": s, "k": 2, "org": o} for s in _SP[:2] for o in ((0, 0), (0, 1), (0, 2), (2, 1), (1, 0))] +
	        [{"spec": _SP[2], "k": 1, "org": (0,)}] +
	        [{"spec": _SP[3], "k": 1, "org": (0,), "file": 1}, {"spec": _SP[1], "naming": "new", "k": 1, "org": (2,)}],
	        [{"spec": _SP[2], "k": 2, "org": o} for o in ((0, 0), (0, 1), (0, 2), (2, 1), (1, 0))] +
	        [{"spec": s, "k": 3, "org": o} for s in _SP[:2] for o in ((0, 1, 1), (0, 2, 0))],
	        expect=("end", "behind", "negative")),
	Harness("refuse", "refuse", [{"kind": k} for k in ("notfirst", "absent", "compressed", "empty")], expect=("refused",)),
	Harness("fake", "fake", [{}], expect=("end", "some", "refused")),
]
