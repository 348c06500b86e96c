"""The srr tool: an SRR that exists is only replaced by a complete one; files are verified."""
from symex.run import Harness
from props import common as C, rarset as R

PRELOAD = ("rescene.main", "rescene.srr")
BOUNDS = ("sets of 1-2 volumes with 1-2 files of any contents; every one of the first 30 file operations failing while an SRR is made; a volume cut off at any place; "
          "all answers and options about existing files; verification of up to 2 files of any contents")
OUTSIDE = "options for compressed sets; wildcards of -s; what another program does to the same files meanwhile"


class _Messages(object):
	"""stands in for the thread that prints messages"""
	done = False

	def start(self):
		pass

	def join(self, t=None):
		pass

	def set_messages(self, m):
		pass

	def set_all(self, m):
		pass


def setup(h):
	h.patch("rescene.srr", "mthread", _Messages())
	h.patch("rescene.srr", "sep", lambda n, loc="": "n")
	h.patch("rescene.utility", "show_spinner", lambda n: None)
	m = h.mod("rescene.main")
	h.patch("rescene.main", "can_overwrite", m.can_overwrite)


def srr(h, *argv):
	"""the exit code"""
	m = h.mod("rescene.srr")
	try:
		m.main(list(argv))
	except SystemExit as e:
		return 0 if e.code is None else e.code
	return 0


def _want(h, vols, sfv=None):
	want = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8"))
	if sfv is not None:
		want = want + C.srr_stored(b"x.sfv", sfv)
	for v in vols:
		want = want + C.srr_rarfile(v.name.encode("ascii")) + v.head
	return want


def _left(h, had, done, want, old):
	"""after a creation: the complete SRR, or what was there"""
	left = sorted(f for f in h.ls() if f not in had and f != "o/x.srr")
	h.check(left == [], "no temporary file is left")
	if done:
		h.eq(h.get("o/x.srr"), want, "the SRR is complete")
	elif old:
		h.check(h.exists("o/x.srr"), "the SRR that was there stays")
		h.eq(h.get("o/x.srr"), b"old", "the SRR that was there is as it was")
	else:
		h.check(not h.exists("o/x.srr"), "no SRR that isn't complete")


def _release(h, old):
	vols, files = R.build(h, h.case["spec"], maxlen=3000, real_crc=0)
	sfv = None
	R.put(h, "rel/", vols)
	src = h.path("rel/" + vols[0].name)
	if h.case.get("sfv"):
		sfv = R.sfv(h, vols)
		h.put("rel/x.sfv", sfv)
		src = h.path("rel/x.sfv")
	h.mkdir("o")
	if old:
		h.put("o/x.srr", b"old")
	return vols, src, _want(h, vols, sfv)


def create(h):
	"""an SRR is made, or replaced when the user agrees"""
	setup(h)
	old, opt, yes = h.case["old"], h.case["opt"], h.case.get("yes")
	vols, src, want = _release(h, old)
	asked = []

	def ask(msg):
		asked.append(1)
		return ("x", "", "Y" if yes else "N")[len(asked) - 1]
	h.patch("rescene.srr", "raw_input", ask)
	h.patch("rescene.srr", "time", _Time())
	had = h.ls()
	to = {"file": h.path("o/x.srr"), "dir": h.path("o")}[h.case["to"]]
	r = srr(h, src, "-o", to, "--no-isdb", *([opt] if opt else []))
	h.check(r == 0, "the tool reports success")
	h.check(len(asked) == (3 if old and not opt else 0), "the user is asked, until there is an answer")
	keep = old and (opt == "-n" or not opt and not yes)
	_left(h, had, not keep, want, old)
	for v in vols:
		h.eq(h.get("rel/" + v.name), v.raw, "the volumes are left alone")
	h.reach("kept" if keep else "made")


class _Time(object):
	def sleep(self, n):
		pass


def broken(h):
	"""a set that isn't complete"""
	setup(h)
	old = h.case["old"]
	vols, src, want = _release(h, old)
	k = h.case["kind"]
	last = vols[len(vols) - 1]
	if k == "missing":
		h.rm("rel/" + last.name)
	elif k == "cut":
		n = len(last.raw)
		h.put("rel/" + last.name, last.raw[:h.choose("cut", list(range(0, 60)))])
	had = h.ls()
	r = srr(h, src, "-y", "-o", h.path("o/x.srr"), "--no-isdb")
	if r == 0:
		h.check(k == "cut" and h.exists("o/x.srr"), "an incomplete set is refused")
		left = sorted(f for f in h.ls() if f not in had and f != "o/x.srr")
		h.check(left == [], "no temporary file is left")
		h.reach("made")
		return
	h.check(r == 1, "the failure is reported as what it is")
	_left(h, had, False, want, old)
	h.reach("refused")


def fault(h):
	"""one file operation fails while an SRR is made"""
	setup(h)
	old = h.case["old"]
	vols, src, want = _release(h, old)
	had = h.ls()
	h.fault(h.case["k"])
	r = srr(h, src, "-y", "-o", h.path("o/x.srr"), "--no-isdb")
	h.end_fault()
	for v in vols:
		h.eq(h.get("rel/" + v.name), v.raw, "the volumes are left alone")
	if r == 0:
		h.eq(h.get("o/x.srr"), want, "the SRR is complete")
		h.reach("made")
		return
	h.check(h.exists("o/x.srr") == bool(old), "the SRR that was there stays, and there is no new one")
	if old:
		h.eq(h.get("o/x.srr"), b"old", "the SRR that was there is as it was")
	h.reach("failed")


def verify(h):
	"""-q: files that are right, wrong or missing"""
	setup(h)
	vols, files = R.build(h, h.case["spec"], maxlen=3000, real_crc=1)
	h.put("x.srr", _want(h, vols))
	h.mkdir("src")
	bad = 0
	gone = False
	for n in sorted(files):
		how = h.case["how"][n]
		d = files[n]
		h.assume(h.crc(d) != 0)
		if how == "other":
			d = h.blob("other%d" % n, 0, 3000)
			bad = h.any(bad, h.crc(d) != h.crc(files[n]))
		name = R.disk(n)
		if how == "like":
			d = h.blob("other%d" % n, 0, 3000)
			h.assume(len(d) == len(files[n]))
			bad = h.any(bad, h.crc(d) != h.crc(files[n]))
		if how in ("renamed", "like"):
			name = "sub/new" + name[name.rindex("."):]
		if how == "gone":
			gone = True
			continue
		h.put("src/" + name, d)
	had = h.ls()
	r = srr(h, h.path("x.srr"), "-q", "-i", h.path("src"), *(["-r"] if h.case.get("r") else []))
	h.check(sorted(h.ls()) == sorted(had), "nothing is changed")
	h.check(h.no(h.any(bad, gone, h.case.get("lost", False))) == (r == 0), "success only if every file is right")
	# 1: corrupt, 2: missing (the last one counts)
	codes = {0} if r == 0 else {1} if not (gone or h.case.get("lost") or "like" in h.case["how"]) else {1, 2} if "other" in h.case["how"] else {2}
	h.check(r in codes, "the exit code tells what is wrong")
	h.reach("ok" if r == 0 else "bad")


def nothing(h):
	"""-q without RAR volumes"""
	setup(h)
	h.put("x.srr", C.srr_header(b"app") + C.srr_stored(b"a.nfo", h.blob("d", 0, 50)))
	h.check(srr(h, h.path("x.srr"), "-q", "-i", h.path(".")) == 10, "there is nothing to verify")
	h.reach("end")


def rebuild(h):
	"""the volumes come back in the folder asked for"""
	setup(h)
	vols, files = R.build(h, h.case["spec"], maxlen=3000, real_crc=0)
	sub = h.case["sub"]
	want = C.srr_header(b"app") + C.srr_stored((sub + "x.nfo").encode(), b"text")
	for v in vols:
		want = want + C.srr_rarfile((sub + v.name).encode("ascii")) + v.head
	h.put("x.srr", want)
	for n in files:
		h.put("src/" + (R.disk(n) if not h.case.get("hint") else "other.bin"), files[n])
	h.mkdir("out")
	had = h.ls()
	opt = list(h.case["opt"])
	if h.case.get("hint"):
		opt += ["-H", R.nice(0) + ":other.bin"]
	r = srr(h, h.path("x.srr"), "-i", h.path("src"), "-o", h.path("out"), "-y", "-u", *opt)
	h.check(r == 0, "the tool reports success")
	to = "out/" + (sub if "-p" in opt else "")
	new = []
	for v in vols:
		if "-m" in opt and not v.name.endswith(".r00"):
			continue
		new.append(to + v.name)
		h.eq(h.get(to + v.name), v.raw, "the rebuilt volume is the original")
	if "-m" not in opt:
		new.append(to + "x.nfo")
		h.eq(h.get(to + "x.nfo"), b"text", "the stored file")
	h.eq(sorted(f for f in h.ls() if f not in had), sorted(new), "nothing else is made")
	h.reach("end")


def folders(h):
	"""volumes and stored files of a release with folders; where the SRR goes"""
	setup(h)
	c = h.case
	vols, files = R.build(h, _1, maxlen=3000, real_crc=0)
	nfo = h.blob("nfo", 0, 50)
	h.put("Rel-GRP/x.nfo", nfo)
	h.put("Rel-GRP/CD1/y.txt", b"other")
	h.put("Rel-GRP/z.srs", b"not asked for")
	R.put(h, "Rel-GRP/CD1/", vols)
	h.mkdir("o")
	opt = ["-i", h.path("Rel-GRP"), "--no-isdb", "-s", "x.nfo", "-s", "CD1/y.txt"] + [o if o[0] == "-" else h.path(o) for o in c["opt"]]
	had = h.ls()
	r = srr(h, h.path("Rel-GRP/CD1/" + vols[0].name), *opt)
	h.check(r == 0, "the tool reports success")
	d = b"CD1/" if "-p" in opt else b""
	want = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8"))
	for n, data in ((b"x.nfo", nfo), (d + b"y.txt", b"other")):
		want = want + C.srr_stored(n, data)
	for v in vols:
		want = want + C.srr_rarfile(d + v.name.encode("ascii")) + v.head
	to = c["to"] or "o/" + vols[0].name[:-4] + ".srr"
	h.eq(sorted(f for f in h.ls() if f not in had), [to], "one SRR, under the name asked for")
	h.eq(h.get(to), want, "the SRR is complete")
	h.reach("end")


def extract(h):
	"""-x and --extract-regex"""
	setup(h)
	vols, files = R.build(h, _1, maxlen=3000, real_crc=0)
	want = C.srr_header(b"app")
	data = {}
	for n in ("a.nfo", "Sample/a.srs", "CD1/b.sfv"):
		data[n] = h.blob(n, 0, 40)
		want = want + C.srr_stored(n.encode(), data[n])
	for v in vols:
		want = want + C.srr_rarfile(v.name.encode("ascii")) + v.head
	h.put("Rel-GRP.srr", want)
	h.mkdir("o")
	old = h.case.get("old")
	to = "o/" + ("Rel-GRP/" if "-d" in h.case["opt"] else "")
	if old:
		h.put(to + "a.nfo", b"old")
	had = h.ls()
	r = srr(h, h.path("Rel-GRP.srr"), "-o", h.path("o"), *h.case["opt"])
	kept = old and "-n" in h.case["opt"]
	new = []
	for n in h.case["which"]:
		f = to + (n if "-p" in h.case["opt"] else n[n.rfind("/") + 1:])
		if not (old and n == "a.nfo"):
			new.append(f)
		h.eq(h.get(f), b"old" if kept and n == "a.nfo" else data[n], "what was stored")
	h.check((r == 0) == (not kept), "what couldn't be extracted is reported")
	h.eq(sorted(f for f in h.ls() if f not in had), sorted(new), "nothing else is extracted")
	h.eq(h.get("Rel-GRP.srr"), want, "the SRR is left alone")
	h.reach("end")


_ALL = ["a.nfo", "Sample/a.srs", "CD1/b.sfv"]
_1, _2 = [["f0", "e"]], [["f0", "e"], ["f0", "f1", "e"]]
HARNESSES = [
	Harness("create", "create", [{"spec": s, "sfv": f, "to": t, "old": o, "opt": p, "yes": y} for s, f, t, o, p, y in (
		(_1, 0, "file", 0, "", 0), (_2, 1, "dir", 0, "", 0), (_2, 0, "dir", 1, "-y", 0), (_1, 1, "file", 1, "-n", 0),
		(_1, 0, "dir", 1, "", 1), (_1, 0, "file", 1, "", 0), (_1, 0, "file", 0, "-n", 0))], expect=("made", "kept")),
	Harness("broken", "broken", [{"spec": _2, "sfv": f, "kind": k, "old": o} for f, k, o in (
		(1, "missing", 1), (1, "missing", 0), (1, "cut", 1), (0, "cut", 0), (0, "cut", 1))] +
		[{"spec": _1, "sfv": 0, "kind": "cut", "old": 1}], expect=("refused",)),
	Harness("fault", "fault", [{"spec": _1, "sfv": f, "old": o, "k": k} for f, o in ((0, 1), (1, 0)) for k in range(30)],
	        expect=("made", "failed")),
	Harness("verify", "verify", [{"spec": s, "how": w, "r": r} for s, w, r in (
		(_1, ["right"], 0), (_1, ["other"], 0), (_1, ["gone"], 0), (_2, ["right", "right"], 0), (_2, ["other", "right"], 0), (_2, ["right", "other"], 0),
		(_2, ["other", "gone"], 0), (_2, ["gone", "other"], 1), (_1, ["renamed"], 1), (_1, ["like"], 1), (_2, ["like", "right"], 1))] + [{"spec": _1, "how": ["renamed"], "r": 0, "lost": True}],
		expect=("ok", "bad")),
	Harness("nothing", "nothing", [{}], expect=("end",)),
	Harness("rebuild", "rebuild", [{"spec": _2, "sub": "CD1/", "opt": ["-p"]}, {"spec": _2, "sub": "CD1/", "opt": []}, {"spec": _2, "sub": "", "opt": ["-m", ".r00"]},
		{"spec": _1, "sub": "", "opt": [], "hint": 1}], expect=("end",)),
	Harness("folders", "folders", [{"opt": o, "to": t} for o, t in (
		(["-p", "-o", "o"], ""), (["-o", "o"], ""), (["-p", "-d", "-o", "o"], "o/Rel-GRP.srr"), (["-p", "-o", "o/a.SRR"], "o/a.SRR"))], expect=("end",)),
	Harness("extract", "extract", [{"opt": o, "which": w, "old": d} for o, w, d in (
		(["-x"], _ALL, 0), (["-x", "-p"], _ALL, 0), (["-x", "-p", "-d"], _ALL, 0), (["-x", "-n"], _ALL, 1), (["-x", "-y", "-p", "-d"], _ALL, 1),
		(["--extract-regex", ".*\\.(NFO|srs)$", "-p"], ["a.nfo", "Sample/a.srs"], 0), (["--extract-regex", "^sample/.*", "-p", "-d"], ["Sample/a.srs"], 0),
		(["--extract-regex", "sfv"], [], 0))], expect=("end",)),
]
