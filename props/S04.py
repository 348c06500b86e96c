"""The information shown about an SRR is what the SRR holds."""
from symex.run import Harness
from props import common as C, rarset as R, srrbuild as B

PRELOAD = ("rescene.main",)
BOUNDS = ("SRR files with any application name of 0-3 characters, up to 3 stored files (names of 1-3 symbolic characters, any size to 2^20), an SFV "
          "with symbolic checksums, 1-3 volumes with 1-3 files, comments, padding, recovery records of up to 65535 sectors, "
          "64-bit sizes, OSO hashes with any 64-bit values")
OUTSIDE = "SFV files longer than four lines; more volumes or files"


def _srr(h, vols, pre=b"", sub=""):
	want = C.srr_header(b"prog") + pre
	for v in vols:
		want = want + C.srr_rarfile((sub + v.name).encode("ascii")) + v.head
	return want


def rars(h):
	"""sizes of the volumes and of the archived files, their checksums"""
	m = h.mod("rescene.main")
	sub = h.case.get("sub", "")
	vols, files = R.build(h, h.case["spec"], naming=h.case.get("naming", "old"), maxlen=1 << 20, real_crc=0,
	                      large=h.case.get("large", ()))
	lastcrc = {}
	for vi, v in enumerate(h.case["spec"]):
		for ii, it in enumerate(v):
			if it[0] == "f":
				lastcrc[int(it[1:])] = "fc%d_%d" % (vi, ii)
	h.put("o.srr", _srr(h, vols, b"", sub))
	r = m.info(h.path("o.srr"))
	h.eq(r["appname"], "prog", "application name")
	h.eq(list(r["rar_files"].keys()), [v.name.lower() for v in vols], "every volume is listed once, in order")
	for v in vols:
		f = r["rar_files"][v.name.lower()]
		h.eq(f.file_name, sub + v.name, "volume name")
		h.check(f.file_size == len(v.raw), "the size of the volume")
	h.eq(list(r["archived_files"].keys()), [R.nice(n) for n in _order(h)], "every archived file is listed once")
	for n in _order(h):
		if n is None:
			continue
		f = r["archived_files"][R.nice(n)]
		h.eq(f.file_name, R.nice(n), "its name")
		h.check(f.file_size == len(files[n]), "its full size")
		h.check(int(f.crc32, 16) == _get(h, lastcrc[n]), "its checksum is the one of its last piece")
		h.check(len(f.crc32) == 8, "of eight digits")
		h.check(f.compression is False, "not compressed")
	h.check(r["compression"] is False, "no compression")
	h.check(r["recovery"] is None, "no recovery record")
	h.eq(list(r["stored_files"].keys()), [], "no stored files")
	h.reach("end")


def _get(h, name):
	if h.symbolic:
		return h.e.inputs[name][1]
	return h.inputs[name][1]


def _order(h):
	out = []
	for v in h.case["spec"]:
		for it in v:
			if it[0] == "f" and int(it[1:]) not in out:
				out.append(int(it[1:]))
	return out


def stored(h):
	"""stored files, application name and OSO hashes"""
	m = h.mod("rescene.main")
	lay = h.case["lay"]
	k = lay.count("s")
	names = [B.name(h, "n%d" % i, h.case.get("ln", (1, 3, 1))[i]) for i in range(k)]
	for i in range(k):
		for j in range(i):
			h.assume(h.no(names[i] == names[j]))
	parts = B.build(h, lay, names, 0)
	app = h.str("app", h.case["an"], 1, 0x7FF)
	parts[0].raw = C.srr_header(app.encode("utf-8"))
	h.put("o.srr", B.raw(parts))
	r = m.info(h.path("o.srr"))
	h.eq(r["appname"], app, "application name")
	h.eq(list(r["stored_files"].keys()), names, "the stored files, in order")
	st = [p for p in parts if p.kind == "s"]
	for p, f in zip(st, list(r["stored_files"].values())):
		h.eq(f.file_name, p.name, "name of the stored file")
		h.check(f.file_size == len(p.data), "size of the stored file")
	want = []
	for i, c in enumerate(lay):
		if c == "o":
			want.append(("f.avi", _get(h, "oh%d" % i), _get(h, "os%d" % i)))
	got = r["oso_hashes"]
	h.check(len(got) == len(want), "number of OSO hashes")
	for g, w in zip(got, want):
		h.eq(g[0], w[0], "OSO file name")
		h.check(int(g[1], 16) == w[1], "OSO hash")
		h.check(len(g[1]) == 16, "OSO hash digits")
		h.check(g[2] == w[2], "OSO file size")
	h.reach("end")


def sfv(h):
	"""the checksums of the stored SFV are those shown for the volumes; what
	it lists besides the volumes is shown apart"""
	m = h.mod("rescene.main")
	vols, files = R.build(h, [["f0", "e"], ["f0", "e"]], maxlen=70000, real_crc=0)
	crc = [h.str("crc%d" % i, 8, alphabet="0123456789abcdefABCDEF") for i in range(3)]
	other = h.str("oth", 2, 0x61, 0x7A) + ".sub"
	up = h.case["up"]
	nm = [v.name.upper() if up else v.name for v in vols]
	lines = [nm[0] + " " + crc[0], nm[1] + h.case["gap"] + crc[1], other + " " + crc[2]]
	if h.case["rev"]:
		lines.reverse()
	nl = h.case["nl"]
	text = "; a comment" + nl + nl.join(lines) + nl
	s = text.encode("latin-1")
	h.put("o.srr", _srr(h, vols, C.srr_stored(b"x.SFV" if up else b"x.sfv", s)))
	r = m.info(h.path("o.srr"))
	for i, v in enumerate(vols):
		h.eq(r["rar_files"][v.name].crc32, crc[i].upper(), "the checksum of the volume, in upper case")
	h.check(len(r["sfv_entries"]) == 1, "what is not a volume stays apart")
	h.eq(r["sfv_entries"][0].file_name, other, "its name")
	h.eq(r["sfv_entries"][0].crc32, crc[2], "its checksum")
	h.eq(r["sfv_comments"], ["; a comment"], "the comment")
	h.reach("end")


def recovery(h):
	"""the recovery records that were left out count in the sizes"""
	m = h.mod("rescene.main")
	kind = h.case["kind"]
	n = h.case["n"]
	want = b"" + C.srr_header(b"p")
	total = 0
	sizes = []
	for i in range(n):
		d = h.int("pk%d" % i, 0, (1 << 32) - 1)
		rs = h.int("rs%d" % i, 1, 0xFFFF)
		ds = h.int("ds%d" % i, 1, 0x3FFFFFF)
		rr = 512 * rs + 2 * ds
		h.assume(rr < (1 << 32))
		total = total + rr
		head = C.RAR_MARKER + C.volhdr() + C.filehdr(b"a.avi", d, d, C.LONG | (2 if i + 1 < n else 0) | (1 if i else 0))
		b = C.rr_newsub(b"", rs, ds, packed=rr) if kind == "new" else C.rr_old(b"", rs, ds, packed=rr)
		e = C.endblock()
		want = want + C.srr_rarfile(R.volname("x", i, "old").encode("ascii")) + head + b + e
		sizes.append(len(head) + d + len(b) + rr + len(e))
	h.put("o.srr", want)
	r = m.info(h.path("o.srr"))
	h.check(r["recovery"] is not None, "recovery data is shown")
	h.check(r["recovery"].file_size == total, "its size over all volumes")
	h.eq(r["recovery"].file_name, "Protect+" if kind == "new" else "Protect!", "its kind")
	for f, s in zip(list(r["rar_files"].values()), sizes):
		h.check(f.file_size == s, "the size of the volume includes its recovery record")
	h.reach("end")


def sizes(h):
	"""unpacked sizes that are only known in the last volume, or never"""
	m = h.mod("rescene.main")
	kind = h.case["kind"]
	n = 3
	us = h.int("us", 0, (1 << 40) - 1)
	if kind == "late":
		h.assume(h.no(us == 0xFFFFFFFF))
	srr = C.srr_header(b"p")
	tot = 0
	for i in range(n):
		d = h.int("pk%d" % i, 1, (1 << 31) - 1)
		tot = tot + d
		fl = C.LONG | (2 if i + 1 < n else 0) | (1 if i else 0)
		if kind == "late":
			u = us if i + 1 == n else (1 << 64) - 1
			fh = C.filehdr(b"a.avi", d, u & 0xFFFFFFFF, fl, high=(0, u >> 32))
		elif kind == "never":
			fh = C.filehdr(b"a.avi", d, 0xFFFFFFFF, fl)
		else:
			h.assume(h.no(us == 0xFFFFFFFF))
			fh = C.filehdr(b"a.avi", d, us & 0xFFFFFFFF, fl, high=(0, us >> 32))
		srr = srr + C.srr_rarfile(R.volname("x", i, "old").encode("ascii")) + C.RAR_MARKER + C.volhdr() + fh
	h.put("o.srr", srr)
	r = m.info(h.path("o.srr"))
	f = r["archived_files"]["a.avi"]
	h.check(f.file_size == (tot if kind == "never" else us), "the size of the archived file")
	h.reach("end")


def compressed(h):
	m = h.mod("rescene.main")
	meth = h.int("meth", 0x30, 0x35)
	h.put("o.srr", C.srr_header(b"p") + C.srr_rarfile(b"x.rar") + C.RAR_MARKER + C.volhdr() +
	      C.filehdr(b"a", 5, 9) + C.filehdr(b"b", 5, 9, method=meth))
	r = m.info(h.path("o.srr"))
	h.check(r["archived_files"]["a"].compression is False, "stored file")
	h.check(r["archived_files"]["b"].compression == (meth != 0x30), "compressed file")
	h.check(r["compression"] == (meth != 0x30), "compression anywhere")
	h.reach("end")


_SPECS = [[["f0"]], [["c", "f0", "f1", "e"]], [["f0", "e"], ["f0", "e"]], [["f0", "e", "p"], ["f0", "f1", "e", "p"]],
          [["f0"], ["f0", "f1"], ["f1", "f2", "0"]], [["f0", "f1", "f2"]], [["a", "f0", "e"]]]
HARNESSES = [
	Harness("rars", "rars", [{"spec": s} for s in _SPECS] + [{"spec": _SPECS[2], "naming": "new"}, {"spec": _SPECS[2], "sub": "CD1/"},
	                         {"spec": _SPECS[3], "large": [0]}], expect=("end",)),
	Harness("stored", "stored", [{"lay": l, "an": a} for l, a in (("s", 0), ("sr", 1), ("ssr", 2), ("rs", 3), ("so", 1), ("sros", 1), ("roo", 1))],
	        expect=("end",)),
	Harness("sfv", "sfv", [{"up": u, "rev": r, "gap": g, "nl": nl} for u in (0, 1) for r in (0, 1)
	                       for g, nl in ((" ", "\r\n"), ("\t", "\n"), ("   ", "\r"))], expect=("end",)),
	Harness("recovery", "recovery", [{"kind": k, "n": n} for k in ("new", "old") for n in (1, 2)], expect=("end",)),
	Harness("sizes", "sizes", [{"kind": k} for k in ("late", "never", "normal")], expect=("end",)),
	Harness("compressed", "compressed", [{}], expect=("end",)),
]
