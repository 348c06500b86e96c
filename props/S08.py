"""Extraction gives back the stored files, and touches nothing else."""
from symex.run import Harness
from props import common as C, srrbuild as B

PRELOAD = ("rescene.main",)
QUICK_S = 120
BOUNDS = ("stored names of up to 5 characters over '.', '/', '\\', 'a', 'b' (every combination), 1-3 stored files with contents of "
          "any length up to 2^20 and up to 2^32-1 for the sizes, selection by name, by path, by a predicate, with and without "
          "folders; the same for the volumes a rebuild makes")
OUTSIDE = "case-insensitive file systems, drive letters and other Windows-only path forms; links inside the output folder"

ALPHA = "./\\ab"


def _legal(h, name):
	"""(legal, elements): forks over the separators"""
	els = [""]
	for c in name:
		if c == "/" or c == "\\":
			els.append("")
		else:
			els[-1] = els[-1] + c
	ok = True
	for e in els:
		if len(e) == 0 or e == "." or e == "..":
			ok = False
	return ok, els


def names(h):
	"""any name: extracted below the output folder, or refused"""
	m = h.mod("rescene.main")
	n = h.str("name", h.case["n"], alphabet=ALPHA)
	d = h.blob("d", 0, 1 << 20)
	d2 = h.blob("d2", 0, 1 << 20)
	h.put("e/x.srr", C.srr_header(b"p") + C.srr_stored(n.encode("ascii"), d) + C.srr_stored(b"z.nfo", d2))
	h.put("precious", b"keep")
	h.put("a", b"keep")
	h.put("b", b"keep")
	h.mkdir("out/x")
	ok, els = _legal(h, n)
	paths = h.case["paths"]
	try:
		if h.case["via"] == "extract":
			r = m.extract_files(h.path("e/x.srr"), h.path("out/x"), paths)
		else:
			r = m.reconstruct(h.path("e/x.srr"), h.path("nowhere"), h.path("out/x"), paths)
	except ValueError:
		h.check(not ok, "only a name that is no path below the folder is refused")
		h.eq(sorted(h.ls()), ["a", "b", "e/x.srr", "precious"], "and nothing is written")
		h.reach("refused")
		return
	h.check(ok, "a name that leads out of the folder is refused")
	want = "out/x/" + ("/".join(els) if paths else els[-1])
	h.eq(sorted(h.ls()), sorted(["a", "b", "e/x.srr", "precious", want, "out/x/z.nfo"]), "exactly the stored files are made")
	h.eq(h.get(want), d, "with their contents")
	h.eq(h.get("out/x/z.nfo"), d2, "with their contents")
	for f in ("a", "b", "precious"):
		h.eq(h.get(f), b"keep", "files outside the folder are left alone")
	if h.case["via"] == "extract":
		h.eq([(h.relpath(p), s) for p, s in r], [(want, True), ("out/x/z.nfo", True)], "and reported")
	h.reach("done")


def select(h):
	"""only what was asked for is extracted"""
	m = h.mod("rescene.main")
	lay = [("a/x.nfo", "d0"), ("x.nfo", "d1"), ("b/y.sfv", "d2"), ("c/a/x.nfo", "d3"), ("a/x.nfo.z", "d4")]
	raw = C.srr_header(b"p")
	data = {}
	for n, k in lay:
		data[n] = h.blob(k, 0, 1 << 20)
		raw = raw + C.srr_stored(n.encode("ascii"), data[n])
	raw = raw + C.srr_rarfile(b"v.rar") + C.RAR_MARKER + C.volhdr() + C.filehdr(b"f.avi", 5, 5)
	h.put("e/x.srr", raw)
	how = h.case["how"]
	if how == "name":
		r = m.extract_files(h.path("e/x.srr"), h.path("out"), h.case["paths"], packed_name="x.nfo")
		want = ["a/x.nfo", "x.nfo", "c/a/x.nfo"] if h.case["paths"] else ["a/x.nfo"]
	elif how == "path":
		r = m.extract_files(h.path("e/x.srr"), h.path("out"), h.case["paths"], packed_name="a/x.nfo")
		want = ["a/x.nfo"]
	elif how == "absent":
		r = m.extract_files(h.path("e/x.srr"), h.path("out"), h.case["paths"], packed_name=h.str("nm", 3, 0x61, 0x7A) + ".q")
		want = []
	else:
		sel = [h.bool("sel%d" % i) for i in range(5)]
		order = [n for n, _ in lay]
		r = m.extract_files(h.path("e/x.srr"), h.path("out"), h.case["paths"], matcher=lambda f: sel[order.index(f)])
		want = [n for i, n in enumerate(order) if sel[i]]
		if not h.case["paths"]:
			# the first one is not overwritten
			got = []
			for n in want:
				if n.split("/")[-1] not in [g.split("/")[-1] for g in got]:
					got.append(n)
			want = got
	def o(n):
		return "out/" + (n if h.case["paths"] else n.split("/")[-1])
	h.eq(sorted(h.ls()), sorted(["e/x.srr"] + [o(n) for n in want]), "exactly the files asked for")
	for n in want:
		h.eq(h.get(o(n)), data[n], "with their contents")
	h.eq([h.relpath(p) for p, s in r if s], [o(n) for n in want], "and reported")
	h.eq(h.get("e/x.srr"), raw, "the SRR is left alone")
	h.reach("end")


def keep(h):
	"""an existing file is not overwritten"""
	m = h.mod("rescene.main")
	d = h.blob("d", 0, 1 << 20)
	d2 = h.blob("d2", 0, 1 << 20)
	old = h.blob("old", 0, 1 << 20)
	h.put("e/x.srr", C.srr_header(b"p") + C.srr_stored(b"a/x.nfo", d) + C.srr_stored(b"y", d2))
	h.put("out/a/x.nfo", old)
	ow = h.case.get("ow", False)
	if ow:
		h.patch("rescene.main", "can_overwrite", lambda f: True)
	if h.case["via"] == "extract":
		r = m.extract_files(h.path("e/x.srr"), h.path("out"))
		h.eq([(h.relpath(p), s) for p, s in r], [("out/a/x.nfo", ow), ("out/y", True)], "reported")
	else:
		m.reconstruct(h.path("e/x.srr"), h.path("nowhere"), h.path("out"))
	h.eq(h.get("out/a/x.nfo"), d if ow else old, "an existing file keeps its contents unless it may be overwritten")
	h.eq(h.get("out/y"), d2, "the others are made")
	h.reach("end")


def stored(h):
	"""what create_srr stored comes back under the same relative name"""
	m = h.mod("rescene.main")
	paths = h.case["paths"]
	h.put("rel/x.rar", C.RAR_MARKER + C.volhdr(0x100) + C.filehdr(b"f.avi", 3, 3) + b"abc" + C.endblock())
	fs = h.case["files"]
	data = {}
	for i, (f, real, st) in enumerate(fs):
		data[f] = h.blob("d%d" % i, 0, 1 << 20)
		h.put(real, data[f])
	ok = m.create_srr(h.path("o.srr"), h.path("rel/x.rar"), h.path("rel"), [f if f[0] != "@" else h.path(f[1:]) for f, _, _ in fs],
	                  paths, oso_hash=False)
	h.check(ok is True, "created")
	b = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8"))
	for f, real, st in fs:
		b = b + C.srr_stored((st if paths else st.split("/")[-1]).encode("ascii"), data[f])
	h.eq(h.get("o.srr")[:len(b)], b, "the files are stored, in order, under their relative names")
	m.extract_files(h.path("o.srr"), h.path("out"))
	for f, real, st in fs:
		h.eq(h.get("out/" + (st if paths else st.split("/")[-1])), data[f], "and come back")
		h.eq(h.get(real), data[f], "the originals are left alone")
	h.eq(len(h.ls()), 2 + 2 * len(fs), "nothing else is made")
	h.reach("end")


def big(h):
	"""a stored file is as long as its size field says"""
	m = h.mod("rescene.main")
	d = h.blob("d", 0, (1 << 32) - 1)
	d2 = h.blob("d2", 0, 1 << 20)
	h.put("e/x.srr", C.srr_header(b"p") + C.srr_stored(b"x", d) + C.srr_stored(b"y", d2) + C.srr_rarfile(b"v.rar") + C.RAR_MARKER + C.volhdr())
	m.extract_files(h.path("e/x.srr"), h.path("out"))
	h.eq(h.get("out/x"), d, "contents")
	h.eq(h.get("out/y"), d2, "contents")
	h.reach("end")


HARNESSES = [
	Harness("names", "names", [{"n": n, "paths": p, "via": v} for n in (1, 2, 3, 4) for p in (True, False) for v in ("extract", "rebuild")] +
	        [{"n": 5, "paths": True, "via": "extract"}], [{"n": 6, "paths": True, "via": "extract"}], expect=("refused", "done")),
	Harness("select", "select", [{"how": w, "paths": p} for w in ("name", "path", "absent", "pred") for p in (True, False)], expect=("end",)),
	Harness("keep", "keep", [{"via": v, "ow": w} for v in ("extract", "rebuild") for w in (False, True)], expect=("end",)),
	Harness("stored", "stored", [{"paths": p, "files": f} for p in (True, False) for f in (
		[("a.nfo", "rel/a.nfo", "a.nfo")], [("s/b.nfo", "rel/s/b.nfo", "s/b.nfo"), ("c", "rel/c", "c")],
		[("@rel/s/d", "rel/s/d", "s/d")], [("@else/q.nfo", "else/q.nfo", "q.nfo")], [("@rel2/..w", "rel2/..w", "..w")],
		[("..v", "rel/..v", "..v")], [("[g].nfo", "rel/[g].nfo", "[g].nfo")])],
	        expect=("end",)),
	Harness("big", "big", [{}], expect=("end",)),
]
