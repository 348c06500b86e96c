"""The srs tool: what it writes, where, and what it leaves when it fails."""
import struct
from symex.run import Harness
from props import media as M

PRELOAD = ("resample.main", "resample.srs", "resample.stream", "resample.riff")
BOUNDS = ("stream samples of 300 to 3000 bytes and AVI samples of one stream; sample names of up to 4 parts of any printable characters inside the SRS; every one of the first "
          "30 file operations failing; all output options; existing results kept or replaced")
OUTSIDE = "what another program does to the same files meanwhile; links; Windows paths"
HEAD = b"\0\0\1\xba\x44\0\4\0\4\1\0\x9c\x43\xf8"


def data(h, nm="d", hi=3000):
	d = HEAD + h.blob(nm, 300, hi)
	h.assume(h.no(d[len(d) - 128:len(d) - 125] == b"TAG"))
	return d


def mksrs(app, name, d, h, crc=None, flags=0):
	f = struct.pack("<HH", 3, len(app)) + app + struct.pack("<H", len(name)) + name + struct.pack("<QL", len(d), h.crc(d) if crc is None else crc)
	sig = d[:256]
	t = struct.pack("<HHLQH", 0, 1, len(d), 0, len(sig)) + sig
	return b"STRM\x08\0\0\0" + b"SRSF" + struct.pack("<L", 8 + len(f)) + f + b"SRST" + struct.pack("<L", 8 + len(t)) + t


def inside(h):
	"""whatever name an SRS holds, the sample is made in the output folder"""
	M.setup(h)
	d = data(h)
	shape = h.case["shape"]
	ch = lambda i: h.str("c%d" % i, 2, 97, 122)
	name = "".join(x if x in "/\\." else ch(i) for i, x in enumerate(shape))
	if h.case.get("abs"):
		# in the scratch folder
		name = h.path("a") + "/" + name
	h.put("a/b/x.srs", mksrs(b"app", name.encode() + b".vob", d, h))
	h.put("a/b/movie.vob", d + h.blob("rest", 200, 3000))
	h.mkdir("a/b/out")
	m = h.get("a/b/movie.vob")
	h.assume(h.no(m[len(m) - 128:len(m) - 125] == b"TAG"))
	had = h.ls()
	s = h.mod("resample.srs")
	try:
		s.main([h.path("a/b/x.srs"), h.path("a/b/movie.vob"), "-y", "-o", h.path("a/b/out")], no_exit=True)
		ok = True
	except ValueError:
		ok = False
	new = [f for f in h.ls() if f not in had]
	for f in new:
		h.check(f.startswith("a/b/out/"), "nothing is written outside the output folder")
	for f in had:
		if f != "a/b/movie.vob":
			h.check(h.exists(f), "the other files stay")
	h.eq(h.get("a/b/movie.vob"), m, "the movie is left alone")
	if ok:
		h.check(len(new) == 1, "one file is made")
		h.eq(h.get(new[0]), d, "the sample")
		h.reach("made")
	else:
		h.reach("refused")


def outname(h):
	"""-o, --d, --dd, --ddd: the SRS has the name and the folder asked for"""
	M.setup(h)
	d = data(h)
	h.put("rel/Sample/x.y.vob", d)
	h.mkdir("o")
	how = h.case["how"]
	opt, want = {
		"o": (["-o", h.path("o")], "o/x.y.srs"),
		"file": (["-o", h.path("o/name.srs")], "o/name.srs"),
		"FILE": (["-o", h.path("o/name.SRS")], "o/name.SRS"),
		"rel": (["-o", h.relpath("o/name.srs")], "o/name.srs"),
		"bare": (["-o", "name.srs"], "name.srs"),
		"d": (["--d", "-o", h.path("o")], "o/Sample.srs"),
		"dd": (["--dd", "-o", h.path("o")], "o/rel.srs"),
		"ddd": (["--ddd"], "rel/x.y.srs"),
		"d.": (["--d"], "Sample.srs"),
		"dd.": (["--dd"], "rel.srs"),
		"none": ([], "x.y.srs"),
	}[how]
	had = h.ls()
	ok = M.srs(h, h.path("rel/Sample/x.y.vob"), "-y", *opt)
	h.check(ok, "the SRS is made")
	h.check([f for f in h.ls() if f not in had] == [want], "in the place asked for")
	h.reach("end")


def existing(h):
	"""an SRS or a sample that is there is only replaced when the user agrees, or -y is given"""
	M.setup(h)
	d = data(h)
	yes, opt, make = h.case["yes"], h.case.get("opt", ()), h.case["make"]
	asked = []

	def ask(msg):
		asked.append(1)
		return "x" if len(asked) == 1 else "Y" if yes else "N"
	h.patch("resample.srs", "raw_input", ask)
	h.put("m/x.vob", d)
	if make:
		target = "out/x.srs"
		argv = [h.path("m/x.vob"), "-o", h.path(target)]
	else:
		target = "out/x.vob"
		h.put("x.srs", mksrs(b"app", b"x.vob", d, h))
		argv = [h.path("x.srs"), h.path("m/x.vob"), "-o", h.path("out")]
	if h.case["old"]:
		h.put(target, b"old")
	h.mkdir("out")
	had = h.ls()
	M.srs(h, *(argv + list(opt)))
	if h.case["old"] and not opt:
		h.check(len(asked) == 2, "the user is asked, until there is an answer")
		if not yes:
			h.eq(h.get(target), b"old", "what was there stays")
			h.eq(sorted(h.ls()), sorted(had), "nothing is left behind")
			h.reach("kept")
			return
	else:
		h.check(not asked, "nothing to ask")
	g = h.get(target)
	h.check(len(g) > 290, "the result is there")
	h.eq(sorted(h.ls()), sorted(set(had) | {target}), "nothing else is left behind")
	h.reach("replaced")


def create_fault(h):
	"""one file operation fails while an SRS is made: it is complete, or what was there stays and nothing is left"""
	M.setup(h)
	d = data(h)
	h.put("s/x.vob", d)
	if h.case["old"]:
		h.put("x.srs", b"old srs")
	had = h.ls()
	h.fault(h.case["k"])
	ok = M.srs(h, h.path("s/x.vob"), "-y", "-o", h.path("x.srs"))
	h.end_fault()
	h.eq(h.get("s/x.vob"), d, "the sample is left alone")
	if ok:
		g = h.get("x.srs")
		h.check(len(g) > 300 and h.no(g == b"old srs"), "the SRS is made")
		h.check(sorted(h.ls()) == sorted(set(had) | {"x.srs"}), "nothing else is left behind")
		h.reach("ok")
	else:
		h.eq(sorted(h.ls()), sorted(had), "a failure leaves nothing new and removes nothing")
		if h.case["old"]:
			h.eq(h.get("x.srs"), b"old srs", "the old SRS stays")
		h.reach("failed")


def rebuild_fault(h):
	"""one file operation fails while a sample is rebuilt: it is complete, or what was there stays and nothing is left"""
	M.setup(h)
	d = data(h)
	main = b"\x47\x40\x11\x10" + h.blob("before", 100, 3000) + d + h.blob("after", 200, 3000)
	h.assume(h.no(main[len(main) - 128:len(main) - 125] == b"TAG"))
	h.put("m/main.vob", main)
	h.put("x.srs", mksrs(b"app", b"x.vob", d, h))
	h.mkdir("out")
	if h.case["old"]:
		h.put("out/x.vob", b"old sample")
	had = h.ls()
	h.fault(h.case["k"])
	ok = M.srs(h, h.path("x.srs"), h.path("m/main.vob"), "-y", "-o", h.path("out"))
	h.end_fault()
	h.eq(h.get("m/main.vob"), main, "the movie is left alone")
	if ok:
		h.eq(h.get("out/x.vob"), d, "the sample is complete")
		h.check(sorted(h.ls()) == sorted(set(had) | {"out/x.vob"}), "nothing else is left behind")
		h.reach("ok")
	else:
		h.eq(sorted(h.ls()), sorted(had), "a failure leaves nothing new and removes nothing")
		if h.case["old"]:
			h.eq(h.get("out/x.vob"), b"old sample", "the old sample stays")
		h.reach("failed")


def corrupt(h):
	"""an SRS whose checksum isn't that of the data in the movie: a failure, and what was there stays"""
	M.setup(h)
	d = data(h)
	c = h.int("crc", 0, (1 << 32) - 1)
	h.assume(c != h.crc(d))
	h.put("m/main.vob", d + b"\0" * 200)
	h.put("x.srs", mksrs(b"app", b"x.vob", d, h, crc=c))
	if h.case["old"]:
		h.put("out/x.vob", b"old sample")
	had = h.ls()
	ok = M.srs(h, h.path("x.srs"), h.path("m/main.vob"), "-y", "-o", h.path("out"), *h.case.get("opt", ()))
	h.check(not ok, "the failure is reported")
	if h.case.get("opt"):
		h.eq(h.get("out/x.vob"), d, "kept for investigation")
	else:
		h.eq(sorted(h.ls()), sorted(had), "nothing new is left")
	h.reach("end")


def look(h):
	"""asking for information changes nothing"""
	M.setup(h)
	d = data(h)
	h.put("s/x.vob", d)
	h.put("x.srs", mksrs(b"app", b"x.vob", d, h))
	had = {f: h.get(f) for f in h.ls()}
	h.check(M.srs(h, *([h.path("s/x.vob"), "-i"] if h.case["what"] == "-i" else [h.path("x.srs"), "-l"])), "it works")
	h.check(sorted(h.ls()) == sorted(had), "no files come or go")
	for f in had:
		h.eq(h.get(f), had[f], "files stay the same")
	h.reach("end")


_S = ["n", "n.n", "n/n", "../n", "n/../../n", "..\\n", "n\\..\\n", "./n", "..", "n/", ""]
HARNESSES = [
	Harness("inside", "inside", [{"shape": s} for s in _S] + [{"shape": "n", "abs": 1}], None, {}, ["made"]),
	Harness("outname", "outname", [{"how": s} for s in ("o", "file", "FILE", "rel", "bare", "d", "dd", "ddd", "d.", "dd.", "none")], None, {}, ["end"]),
	Harness("existing", "existing", [{"make": m, "old": o, "yes": y} for m in (0, 1) for o in (0, 1) for y in (0, 1)]
	        + [{"make": m, "old": 1, "yes": 0, "opt": ["-y"]} for m in (0, 1)], None, {}, ["kept", "replaced"]),
	Harness("create_fault", "create_fault", [{"k": k, "old": o} for k in range(20) for o in (0, 1)], None, {}, ["ok", "failed"]),
	Harness("rebuild_fault", "rebuild_fault", [{"k": k, "old": o} for k in range(30) for o in (0, 1)], None, {}, ["ok", "failed"]),
	Harness("look", "look", [{"what": "-i"}, {"what": "-l"}], None, {}, ["end"]),
	Harness("corrupt", "corrupt", [{"old": 0}, {"old": 1}, {"old": 0, "opt": ["-k"]}], None, {}, ["end"]),
]
