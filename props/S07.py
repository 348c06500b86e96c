"""Merging SRR files keeps everything of all of them."""
from symex.run import Harness
from props import common as C, srrbuild as B

PRELOAD = ("rescene.main",)
BOUNDS = ("2 or 3 SRR files of up to 2 stored files and 2 RAR sets each (with comments, recovery data, padding, OSO hashes), "
          "any names of 1-3 characters and contents to 2^20, any application names of 0-2 characters")
OUTSIDE = "more and longer SRR files"


def merge(h):
	m = h.mod("rescene.main")
	apps, alls = [], []
	for i, lay in enumerate(h.case["lays"]):
		s = _Pre(h, "m%d" % i)
		if h.case.get("same"):
			# the same names everywhere
			names = ["a.nfo", "b/c"][:lay.count("s")]
		else:
			names = [B.name(s, "n%d" % k, 1 + 2 * (k % 2)) for k in range(lay.count("s"))]
		parts = B.build(s, lay, names, h.case.get("full", 1))
		app = s.str("app", h.case["an"][i], 1, 0x7FF)
		parts[0].raw = C.srr_header(app.encode("utf-8"))
		apps.append(app)
		alls.append(parts)
		h.put("in/%d.srr" % i, B.raw(parts))
	given = h.case.get("given")
	paths = [h.path("in/%d.srr" % i) for i in range(len(alls))]
	over = h.case.get("over")
	target = "out.srr" if over is None else "in/%d.srr" % over
	m.merge_srrs(paths, h.path(target), *([given] if given is not None else []))
	want = given
	for a in apps:
		if not want:
			want = a
	out = C.srr_header(want.encode("utf-8"))
	for k in ("s", "x"):
		for parts in alls:
			for p in parts:
				if p.kind != "h" and (p.kind == "s") == (k == "s"):
					out = out + p.raw
	h.eq(h.get(target), out, "application name, all stored files, then everything else, in order")
	for i, parts in enumerate(alls):
		if i != over:
			h.eq(h.get("in/%d.srr" % i), B.raw(parts), "the merged files are left alone")
	h.eq(sorted(h.ls()), sorted(set(["in/%d.srr" % i for i in range(len(alls))] + [target])), "no other files")
	h.reach("end")


class _Pre(object):
	def __init__(self, h, p):
		self.h, self.p = h, p

	def str(self, n, *a, **k):
		return self.h.str(self.p + n, *a, **k)

	def int(self, n, *a):
		return self.h.int(self.p + n, *a)

	def blob(self, n, *a):
		return self.h.blob(self.p + n, *a)


HARNESSES = [
	Harness("merge", "merge",
	        [{"lays": l, "an": an} for l, an in (
		        (["s", "s"], [1, 1]), (["sr", "sr"], [0, 2]), (["rs", "so"], [2, 0]), (["r", "s"], [0, 0]), (["sror", "ssr"], [1, 0]),
		        (["r", "r", "s"], [0, 1, 1]), (["so", "so"], [1, 1]), (["ro", "oro"], [1, 0]),
		        (["ro", "s", "o"], [0, 0, 1]))] +
	        [{"lays": ["ss", "ss"], "an": [1, 1], "same": 1}, {"lays": ["sr", "sr", "sr"], "an": [1, 1, 1], "same": 1}] +
	        [{"lays": ["sr", "sor"], "an": [1, 1], "over": i} for i in (0, 1)] +
	        [{"lays": ["sr", "r"], "an": [1, 1], "given": g} for g in ("", "tool")] +
	        [{"lays": ["sr", "sr"], "an": [1, 1], "full": 2}, {"lays": ["sr", "so"], "an": [1, 1], "full": 0}], expect=("end",)),
]
