"""Editing an SRR changes exactly what was asked."""
from symex.run import Harness
from props import common as C, srrbuild as B

PRELOAD = ("rescene.main",)
BOUNDS = ("SRR layouts of up to 3 stored files and 2 RAR sets (with comment, recovery, end and padding blocks) and an "
          "OSO hash, names of 1-3 symbolic characters, contents of any length up to 2^20; up to 2 files added/removed")
OUTSIDE = "longer layouts; names that collide only by path normalisation; glob patterns in the names of files to add"


def _names(h, n, ln):
	return [B.name(h, "n%d" % i, ln[i % len(ln)]) for i in range(n)]


def _setup(h):
	m = h.mod("rescene.main")
	lay = h.case["lay"]
	k = lay.count("s")
	names = _names(h, k, h.case.get("ln", [1, 3]))
	parts = B.build(h, lay, names, h.case.get("full", 1))
	h.put("e/x.srr", B.raw(parts))
	return m, parts, names


def _only_srr(h, extra=()):
	h.eq(sorted(f for f in h.ls() if f not in extra), ["e/x.srr"], "no other files appear or disappear")


def add(h):
	m, parts, names = _setup(h)
	n = h.case["n"]
	news = []
	for i in range(n):
		d = h.blob("new%d" % i, 0, 1 << 20)
		nm = h.case["names"][i]
		h.put("in/" + nm, d)
		news.append((nm, d))
	paths = h.case["paths"]
	files = [nm if h.case["rel"] else h.path("in/" + nm) for nm, _ in news]
	sn = [nm if paths else nm.split("/")[-1] for nm, _ in news]
	# not adding something that is there already
	dup = h.any(*[h.any(*[x == f for x in names]) for f in files])
	try:
		m.add_stored_files(h.path("e/x.srr"), files, h.path("in"), paths)
	except m.DupeFileName:
		h.check(dup, "refused only when a stored file has that name")
		h.eq(h.get("e/x.srr"), B.raw(parts), "refused edit leaves the SRR alone")
		h.reach("dupe")
		return
	h.check(h.no(dup), "an existing name is not added twice")
	want = b""
	done = False
	add_ = b""
	for (nm, d), s in zip(news, sn):
		add_ = add_ + C.srr_stored(s.encode("ascii"), d)
	for p in parts:
		if p.kind == "r" and not done:
			want = want + add_
			done = True
		want = want + p.raw
	if not done:
		want = want + add_
	h.eq(h.get("e/x.srr"), want, "the added files precede the first RAR set, everything else is unchanged")
	_only_srr(h, ["in/" + nm for nm, _ in news])
	h.reach("added")


def remove(h):
	m, parts, names = _setup(h)
	kind = h.case["kind"]
	if kind == "sym":
		t = [B.name(h, "t0", h.case["tl"])]
	elif kind == "first":
		t = [names[0]]
	elif kind == "two":
		t = [names[-1], B.name(h, "t0", h.case["tl"])]
	else:
		t = []
	m.remove_stored_files(h.path("e/x.srr"), t)
	want = b""
	for p in parts:
		if p.kind == "s" and h.any(*[p.name == x for x in t]):
			h.reach("removed")
			continue
		want = want + p.raw
	h.eq(h.get("e/x.srr"), want, "only the named files are gone")
	_only_srr(h)
	h.reach("end")


def rename(h):
	m, parts, names = _setup(h)
	old = names[h.case["which"]] if h.case["which"] is not None else B.name(h, "t0", 1)
	new = h.str("new", h.case["nl"], 0, 0x7FF)
	exists = h.any(*[old == x for x in names])
	good = h.all(h.no(C.bad_chars(h, new)), len(new) > 0)
	try:
		m.rename_stored_file(h.path("e/x.srr"), old, new)
	except m.FileNotFound:
		h.check(h.no(exists), "reported missing only when it is")
		h.eq(h.get("e/x.srr"), B.raw(parts), "unchanged")
		h.reach("missing")
		return
	except AttributeError:
		h.check(h.no(good), "refused only for illegal names")
		h.eq(h.get("e/x.srr"), B.raw(parts), "unchanged")
		h.reach("illegal")
		return
	h.check(h.all(exists, good), "a rename that succeeds had a target and a legal name")
	want = b""
	done = False
	for p in parts:
		if p.kind == "s" and not done and p.name == old:
			done = True
			want = want + C.srr_stored(new.encode("utf-8"), p.data)
		else:
			want = want + p.raw
	h.eq(h.get("e/x.srr"), want, "only the name changed")
	_only_srr(h)
	h.reach("renamed")


def chain(h):
	"""add, rename, then remove the same file: the SRR is what it was"""
	m, parts, names = _setup(h)
	d = h.blob("new", 0, 1 << 20)
	h.put("in/n.nfo", d)
	p = h.path("e/x.srr")
	m.add_stored_files(p, ["n.nfo"], h.path("in"))
	m.rename_stored_file(p, "n.nfo", "Proof/a b.nfo")
	m.remove_stored_files(p, ["Proof/a b.nfo"])
	h.eq(h.get("e/x.srr"), B.raw(parts), "the edits cancel out")
	h.reach("end")


def notsrr(h):
	"""editing something that is no SRR is refused and leaves it alone"""
	m = h.mod("rescene.main")
	c = C.RAR_MARKER + C.volhdr() + C.filehdr(b"f", 0, 0) + h.blob("t", 0, 3)
	h.put("e/x.rar", c)
	h.put("in/n", b"1")
	p = h.path("e/x.rar")
	f = h.case["op"]
	try:
		if f == "add":
			m.add_stored_files(p, ["n"], h.path("in"))
		elif f == "rm":
			m.remove_stored_files(p, ["n"])
		else:
			m.rename_stored_file(p, "n", "m")
	except m.NotSrrFile:
		h.reach("refused")
	else:
		h.check(False, "a RAR file is refused")
	h.eq(h.get("e/x.rar"), c, "untouched")


_LAYS = ["s", "sr", "ssr", "rs", "so", "sror"]
HARNESSES = [
	Harness("add", "add", [{"lay": l, "n": 1, "names": ["q"], "paths": 0, "rel": 1} for l in _LAYS + ["", "r"]] +
	        [{"lay": "sr", "n": 2, "names": ["q/z", "B.txt"], "paths": p, "rel": r} for p in (0, 1) for r in (0, 1)] +
	        [{"lay": "ssr", "n": 1, "names": ["q/z"], "paths": p, "rel": 1} for p in (0, 1)] +
	        [{"lay": "sr", "n": 1, "names": ["q"], "paths": 0, "rel": 1, "full": 2}],
	        expect=("added", "dupe")),
	Harness("remove", "remove", [{"lay": l, "kind": k, "tl": tl} for l in ("s", "ssr", "sros", "ssrr")
	                             for k, tl in (("sym", 1), ("sym", 3), ("first", 0), ("two", 1), ("none", 0))] +
	        [{"lay": "sr", "kind": "first", "tl": 0, "full": 2}],
	        expect=("removed", "end")),
	Harness("rename", "rename", [{"lay": l, "which": w, "nl": nl} for l in ("s", "ssr", "srs")
	                             for w in (0, None) for nl in (0, 1, 2)] +
	        [{"lay": "ssr", "which": 1, "nl": 1}],
	        expect=("missing", "illegal", "renamed")),
	Harness("chain", "chain", [{"lay": "r"}, {"lay": "sr"}, {"lay": "sror", "full": 0}, {"lay": "s"}],
	        [{"lay": "sror"}], expect=("end",)),
	Harness("notsrr", "notsrr", [{"op": o} for o in ("add", "rm", "ren")], expect=("refused",)),
]
