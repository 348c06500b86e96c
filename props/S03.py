"""RAR volumes -> SRR -> the same RAR volumes, byte for byte."""
from symex.run import Harness
from props import common as C, rarset as R

PRELOAD = ("rescene.main",)
BOUNDS = ("store-mode sets of 1-3 volumes and 1-3 files with any split, directory entries, comments, authenticity and (blank) "
          "end blocks and padding, old and new naming, sub folders; file contents of any bytes and any length up to 70000 "
          "(2^20 for the single file set); all CRC/time/attribute fields symbolic")
OUTSIDE = ("compressed files (rebuilding them runs external RAR executables); recovery records (S11); more than 3 volumes")


def _events(m):
	ob = m.Observer()
	m.subscribe(ob)
	return ob


def _codes(ob, code):
	return [e for e in ob.events if e.code == code]


def rebuild(h):
	m = h.mod("rescene.main")
	ob = _events(m)
	naming = h.case.get("naming", "old")
	vols, files = R.build(h, h.case["spec"], h.case.get("base", "x"), naming=naming, maxlen=h.case.get("max", 70000),
	                      large=h.case.get("large", ()), real_crc=h.case.get("crc", 0))
	sub = h.case.get("sub", "")
	R.put(h, "rel/" + sub, vols)
	if h.case.get("sfv"):
		h.put("rel/" + sub + "x.sfv", R.sfv(h, vols))
		src = h.path("rel/" + sub + "x.sfv")
	else:
		src = h.path("rel/" + sub + vols[0].name)
	ok = m.create_srr(h.path("o.srr"), src, h.path("rel"), [], bool(sub), oso_hash=False)
	h.check(ok is True, "create_srr reports success")
	# the SRR holds the headers and nothing of the files
	for v in vols:
		h.eq(h.get("rel/" + sub + v.name), v.raw, "creating an SRR leaves the volumes alone")
		h.rm("rel/" + sub + v.name)
	want = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8"))
	if h.case.get("sfv"):
		want = want + C.srr_stored((sub + "x.sfv").encode("ascii"), R.sfv(h, vols))
	for v in vols:
		want = want + C.srr_rarfile((sub + v.name).encode("ascii")) + v.head
	h.eq(h.get("o.srr"), want, "the SRR holds every volume's headers, in order, and no packed data")
	for n in files:
		h.put("src/" + R.disk(n), files[n])
	if any("d" in v for v in h.case["spec"]):
		h.mkdir("src/Sub")
	skip = h.case.get("skip", not h.case.get("crc", 0))
	r = m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), skip_rar_crc=skip)
	h.check(r is None, "rebuilding reports no failure")
	for v in vols:
		h.eq(h.get("out/" + sub + v.name), v.raw, "the rebuilt volume is the original")
	if h.case.get("crc", 0) and not skip:
		h.check(len(_codes(ob, m.MsgCode.CRC)) == 0, "no CRC warning for the right files")
	got = sorted(f for f in h.ls() if f.startswith("out/"))
	h.eq(got, sorted(["out/" + sub + v.name for v in vols] + (["out/" + sub + "x.sfv"] if h.case.get("sfv") else [])),
	     "exactly the volumes and stored files are made")
	for n in files:
		h.eq(h.get("src/" + R.disk(n)), files[n], "the source files are left alone")
	h.reach("end")


def sets(h):
	"""several sets of volumes with the same names in their own folders"""
	m = h.mod("rescene.main")
	want = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8"))
	srcs, allv, sv = [], [], b""
	for sub, spec, naming in h.case["sets"]:
		vols, files = R.build(C.Pre(h, sub), spec, naming=naming, maxlen=70000, real_crc=0)
		R.put(h, "rel/" + sub, vols)
		if h.case["sfv"]:
			h.put("rel/" + sub + "x.sfv", R.sfv(h, vols))
			srcs.append(h.path("rel/" + sub + "x.sfv"))
			sv = sv + C.srr_stored((sub + "x.sfv").encode("ascii"), R.sfv(h, vols))
		else:
			srcs.append(h.path("rel/" + sub + vols[0].name))
		for n in files:
			h.put("src/" + R.disk(n), files[n])
		allv += [(sub + v.name, v) for v in vols]
	h.check(m.create_srr(h.path("o.srr"), srcs, h.path("rel"), [], True, oso_hash=False) is True, "create_srr reports success")
	want = want + sv
	for n, v in allv:
		want = want + C.srr_rarfile(n.encode("ascii")) + v.head
	h.eq(h.get("o.srr"), want, "the SRR holds every volume's headers, in order, and no packed data")
	part = h.case.get("part")
	m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), True, srr_part=part or "", skip_rar_crc=True)
	made = []
	for n, v in allv:
		if part is None or n.endswith(part):
			h.eq(h.get("out/" + n), v.raw, "the rebuilt volume is the original")
			made.append("out/" + n)
	got = [f for f in h.ls() if f.startswith("out/") and not f.endswith(".sfv")]
	h.eq(sorted(got), sorted(made), "exactly the volumes asked for are made")
	h.reach("end")


def _srr(h, vols, sub=""):
	"""an SRR of the volumes (what rebuild() shows create_srr makes)"""
	want = C.srr_header(b"prog")
	for v in vols:
		want = want + C.srr_rarfile((sub + v.name).encode("ascii")) + v.head
	h.put("o.srr", want)


def partial(h):
	"""only one volume is asked for: that one is made, correctly"""
	m = h.mod("rescene.main")
	vols, files = R.build(h, h.case["spec"], maxlen=70000, real_crc=0)
	_srr(h, vols)
	for n in files:
		h.put("src/" + R.disk(n), files[n])
	k = h.case["k"]
	m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), skip_rar_crc=True, srr_part=vols[k].name)
	h.eq([f for f in h.ls() if f.startswith("out/")], ["out/" + vols[k].name], "only that volume is made")
	h.eq(h.get("out/" + vols[k].name), vols[k].raw, "and it is the original one")
	h.reach("end")


def wrong(h):
	"""a different file of the right size, a wrong size, or no file"""
	m = h.mod("rescene.main")
	ob = _events(m)
	vols, files = R.build(h, h.case["spec"], maxlen=70000, real_crc=1)
	_srr(h, vols)
	bad = h.blob("bad", 0, 70000)
	for n in files:
		if n:
			h.put("src/" + R.disk(n), files[n])
	kind = h.case["kind"]
	if kind == "content":
		h.assume(len(bad) == len(files[0]))
		# nothing else shares its checksum by chance
	elif kind == "size":
		h.assume(len(bad) != len(files[0]))
	if kind != "missing":
		h.put("src/" + R.disk(0), bad)
	exc = None
	try:
		m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"))
	except (m.FileNotFound, m.InvalidFileSize) as e:
		exc = e
	if kind == "missing":
		h.check(isinstance(exc, m.FileNotFound), "a missing file is reported")
		h.reach("missing")
	elif kind == "size":
		h.check(isinstance(exc, m.InvalidFileSize), "a file of the wrong size is refused")
		h.reach("size")
	else:
		h.check(exc is None, "rebuilding goes on")
		# the pieces of the file that went into each volume
		n = 0
		at = 0
		pieces = [x for v in h.case["spec"] for x in v].count("f0")
		cut = h_cut = None
		crcs = _codes(ob, m.MsgCode.CRC)
		want = 0
		if pieces == 1:
			want = want + h.ite(h.crc(bad) != h.crc(files[0]), 1, 0)
		else:
			c = len(vols[0].raw) - len(vols[0].head)
			want = want + h.ite(h.crc(bad[:c]) != h.crc(files[0][:c]), 1, 0)
			want = want + h.ite(h.crc(bad) != h.crc(files[0]), 1, 0)
		h.check(len(crcs) == want, "one CRC warning for every piece whose checksum is wrong")
		if len(crcs):
			h.reach("warned")
	for n in files:
		if n:
			h.eq(h.get("src/" + R.disk(n)), files[n], "the source files are left alone")


def refuse(h):
	"""creation that cannot be completed leaves nothing behind"""
	m = h.mod("rescene.main")
	kind = h.case["kind"]
	vols, files = R.build(h, [["f0", "e"], ["f0", "e"]], maxlen=70000, real_crc=0)
	R.put(h, "rel/", vols)
	src = h.path("rel/x.rar")
	before = None
	if kind == "nofile":
		h.rm("rel/x.r00")
		h.put("rel/x.sfv", R.sfv(h, vols))
		src = h.path("rel/x.sfv")
		exc = m.FileNotFound
	elif kind == "notfirst":
		src = h.path("rel/x.r00")
		exc = ValueError
	elif kind == "emptysfv":
		h.put("rel/x.sfv", b"; nothing\r\n")
		src = h.path("rel/x.sfv")
		exc = m.EmptySfv
	elif kind == "compressed":
		meth = h.int("meth", 0x31, 0x35)
		h.put("rel/x.rar", C.RAR_MARKER + C.volhdr() + C.filehdr(b"a", 3, 9, method=meth) + b"abc")
		h.rm("rel/x.r00")
		exc = ValueError
	elif kind == "exists":
		before = h.blob("before", 0, 3000)
		h.put("o.srr", before)
		exc = None
	got = h.ls()
	r = None
	try:
		r = m.create_srr(h.path("o.srr"), src, h.path("rel"), [], False)
	except Exception as e:
		if exc is None:
			raise
		h.check(isinstance(e, exc), "refused with the right error")
		h.reach(kind)
		if kind in ("compressed", "nofile"):
			h.eq(h.ls(), got, "no half an SRR is left behind")
		return
	if exc is not None:
		h.check(False, "it is refused")
	h.check(r is False, "an existing SRR is not replaced")
	h.eq(h.get("o.srr"), before, "and keeps its contents")
	h.reach(kind)


def compressed(h):
	"""asked for explicitly, an SRR of compressed volumes holds their headers"""
	m = h.mod("rescene.main")
	meth = h.int("meth", 0x31, 0x35)
	d = h.blob("D", 0, 1 << 20)
	us = h.int("us", 0, 0xFFFFFFFF)
	head = C.RAR_MARKER + C.volhdr(0x100)
	fh = C.filehdr(b"a.avi", len(d), us, method=meth, crc=h.int("fc", 0, 0xFFFFFFFF))
	h.put("rel/x.rar", head + fh + d + C.endblock())
	h.check(m.create_srr(h.path("o.srr"), h.path("rel/x.rar"), h.path("rel"), [], False, compressed=True), "success")
	h.eq(h.get("o.srr"), C.srr_header(h.mod("rescene").APPNAME.encode("utf-8")) + C.srr_rarfile(b"x.rar") + head + fh +
	     C.endblock(), "headers only")
	h.reach("end")


def large(h):
	"""files beyond 4 GiB: only the headers are kept, whatever the size"""
	m = h.mod("rescene.main")
	d = h.blob("D", 0, (1 << 34) - 1)
	n = len(d)
	head = C.RAR_MARKER + C.volhdr(0x100)
	fh = C.filehdr(b"a.bin", n & 0xFFFFFFFF, n & 0xFFFFFFFF, high=(n >> 32, n >> 32))
	f2 = C.filehdr(b"b.bin", 3, 3)
	h.put("rel/x.rar", head + fh + d + f2 + b"xyz" + C.endblock())
	if h.case["single"]:
		r = m.create_srr_single_volume(h.path("o.srr"), h.path("rel/x.rar"))
	else:
		r = m.create_srr(h.path("o.srr"), h.path("rel/x.rar"), h.path("rel"), [], False)
	h.check(r is True, "success")
	h.eq(h.get("o.srr"), C.srr_header(h.mod("rescene").APPNAME.encode("utf-8")) + C.srr_rarfile(b"x.rar") + head + fh + f2 +
	     C.endblock(), "headers only")
	h.reach("end")


def overwrite(h):
	"""existing output is never overwritten by a rebuild"""
	m = h.mod("rescene.main")
	vols, files = R.build(h, [["f0", "e"], ["f0", "e"]], maxlen=70000, real_crc=0)
	_srr(h, vols)
	for n in files:
		h.put("src/" + R.disk(n), files[n])
	k = h.case["k"]
	old = h.blob("old", 0, 3000)
	h.put("out/" + vols[k].name, old)
	r = m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), skip_rar_crc=True)
	h.check(r == -1, "reported")
	h.eq(h.get("out/" + vols[k].name), old, "the existing file is kept")
	h.reach("end")


def renamed(h):
	"""the file to pack has an other name on disk"""
	m = h.mod("rescene.main")
	vols, files = R.build(h, [["f0", "e"]], maxlen=70000, real_crc=0)
	_srr(h, vols)
	decoy = h.blob("decoy", 0, 70000)
	h.assume(len(decoy) != len(files[0]))
	h.put("src/sub/other.avi", files[0])
	h.put("src/decoy.avi", decoy)
	hints = {}
	if h.case["hint"]:
		hints = {R.nice(0): "sub/other.avi"}
	m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), skip_rar_crc=True, hints=hints,
	              auto_locate_renamed=not h.case["hint"])
	h.eq(h.get("out/x.rar"), vols[0].raw, "the rebuilt volume is the original")
	h.reach("end")


_SPECS = [
	[["f0"]], [["f0", "e"]], [["c", "f0", "f1", "e"]], [["f0", "e"], ["f0", "e"]],
	[["f0", "e", "p"], ["f0", "f1", "e", "p"]], [["f0"], ["f0", "f1"], ["f1", "f2", "0"]],
	[["d", "f2", "a", "e"]], [["f0", "f1", "f2"]],
]
HARNESSES = [
	Harness("rebuild", "rebuild",
	        [{"spec": s} for s in _SPECS] + [{"spec": _SPECS[1], "max": 1 << 20}] +
	        [{"spec": _SPECS[3], "naming": "new"}, {"spec": _SPECS[3], "sfv": 1}, {"spec": _SPECS[3], "sfv": 1, "sub": "CD1/"},
	         {"spec": _SPECS[2], "sub": "CD1/"}, {"spec": _SPECS[4], "large": [0]},
	         {"spec": [["f0", "f3"], ["f3", "f4"], ["f5"]]}, {"spec": _SPECS[3], "naming": "num"},
	         {"spec": _SPECS[3], "base": "x.part02"}, {"spec": _SPECS[3], "base": "x.part1"}, {"spec": _SPECS[3], "base": "x.r00"}] +
	        [{"spec": s, "crc": 1, "max": m} for s, m in ((_SPECS[0], 150000), (_SPECS[2], 70000), (_SPECS[3], 70000))],
	        expect=("end",)),
	Harness("partial", "partial", [{"spec": s, "k": k} for s, ks in (
		([["f0", "e"], ["f0", "e"]], (0, 1)), ([["f0", "e"], ["f0", "f1", "e"]], (0, 1)),
		([["f0"], ["f0", "f1"], ["f1"]], (0, 1, 2)), ([["f0", "p"], ["f0", "p"], ["f0", "f1"]], (1, 2)), ([["d", "f0", "e"], ["f0", "d"]], (0, 1))) for k in ks],
		expect=("end",)),
	Harness("wrong", "wrong", [{"spec": s, "kind": k} for s in ([["f0", "e"]], [["f0", "e"], ["f0", "f1"]])
	                           for k in ("content", "size", "missing")], expect=("missing", "size", "warned")),
	Harness("refuse", "refuse", [{"kind": k} for k in ("nofile", "notfirst", "emptysfv", "compressed", "exists")],
	        expect=("nofile", "notfirst", "emptysfv", "compressed", "exists")),
	Harness("sets", "sets", [{"sets": s, "sfv": f, "part": p} for s, f, p in (
		([("CD1/", [["f0"]], "old"), ("CD2/", [["f1"]], "old")], 0, None),
		([("CD1/", [["f0", "e"], ["f0"]], "old"), ("CD2/", [["f1"], ["f1", "f3"]], "old")], 1, None),
		([("CD1/", [["f0"]], "old"), ("CD2/", [["f1"]], "old")], 0, "CD2/x.rar"),
		([("CD1/", [["f0"], ["f0"]], "old"), ("CD2/", [["f1"], ["f1"]], "old")], 1, ".r00"),
		([("A/", [["f0"], ["f0"]], "new"), ("", [["f1"]], "old")], 0, None))], expect=("end",)),
	Harness("compressed", "compressed", [{}], expect=("end",)),
	Harness("large", "large", [{"single": 0}, {"single": 1}], expect=("end",)),
	Harness("overwrite", "overwrite", [{"k": 0}, {"k": 1}], expect=("end",)),
	Harness("renamed", "renamed", [{"hint": 0}, {"hint": 1}], expect=("end",)),
]
