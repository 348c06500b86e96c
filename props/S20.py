"""pyrescene (auto): the SRR of a release holds all volumes and all its small files."""
import re
import struct
import zlib
from symex.run import Harness
from props import common as C, media as M, rarset as R, R06, R08

PRELOAD = ("rescene.main", "resample.main", "resample.srs", "resample.stream", "resample.mp3", "bin.pyrescene")
BOUNDS = ("releases of 1-2 sets of 1-2 volumes with any contents in up to 2 folders, with an nfo, log, m3u, cue, an SRS and a proof, any contents; "
          "every one of the first 90 file operations failing; aborts at each of 8 blocks; a volume cut at any of 40 places; up to 3 samples or tracks; one proof RAR; an SRR that is there already")
OUTSIDE = "the contents of SRS files (R02-R09), samples checked against the movie, vobsubs and fixes (external programs and heuristics), more than two folders"


class _Messages(object):
	done = False

	def wait_for_output(self):
		pass


class _Vol(object):
	def __init__(self, name, v):
		self.name, self.raw, self.head = name, v.raw, v.head


class _Options(object):
	srr_in_reldir = False
	always_no = False
	always_yes = False
	compressed = False
	isdb_hash = False
	more_images = False
	nosrs = False
	sample_verify = False
	vobsub_srr = False
	skip_regex = ""
	temp_dir = None

	def __init__(self):
		self.skip_list = []


def _auto(h, opt):
	m = h.mod("bin.pyrescene")
	return m.generate_srr(h.path("Rel-GRP"), h.path("tmp"), opt, _Messages())


def _release(h):
	"""the release, what its SRR has to hold"""
	c = h.case
	h.patch("rescene.utility", "show_spinner", lambda n: None)
	h.mkdir("tmp")
	h.mkdir("o")
	want = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8"))
	stored = []
	names = c["more"]
	for n in names:
		d = h.blob(n, 0, 60)
		h.put("Rel-GRP/" + n, d)
		stored.append((n, C.srr_stored(n.encode(), d)))
	tail = []
	for i, f in enumerate(c["folders"]):
		if not i:
			first, files = R.build(h, c["spec"], maxlen=3000, real_crc=0)
		b = "x" if c.get("same") else "xy"[i]
		vols = [_Vol(b + v.name[1:], v) for v in first]
		sfv = R.sfv(h, vols, None if not i else ["00000001"] * len(vols))
		n = f + b + ".sfv"
		h.put("Rel-GRP/" + n, sfv)
		R.put(h, "Rel-GRP/" + f, vols)
		stored.append((n, C.srr_stored(n.encode(), sfv)))
		for v in vols:
			tail.append((f + v.name, C.srr_rarfile((f + v.name).encode("ascii")) + v.head))
	return want, stored, tail


def _whole(parts):
	r = parts[0]
	for _, d in parts[1] + parts[2]:
		r = r + d
	return r


class _Log(object):
	def __init__(self):
		self.said = []

	def error(self, m):
		self.said.append(m)
	info = warning = critical = error


def auto(h):
	c = h.case
	parts = _release(h)
	opt = _Options()
	opt.output_dir = h.path("o")
	opt.srr_in_reldir = bool(c.get("in"))
	to = "Rel-GRP/Rel-GRP.srr" if c.get("in") else "o/Rel-GRP.srr"
	old = c.get("old")
	if old:
		h.put(to, b"old")
		opt.always_no = old == "n"
		h.patch("rescene.main", "can_overwrite", lambda f: old == "y")
	if c.get("always_no"):
		opt.always_no = True
	for n in c.get("never", ()):
		# known not to be part of a release
		h.put("Rel-GRP/" + n, h.blob("never." + n, 0, 50) if n != "no.nfo" else h.bytes("never", 8))
	if c.get("skip"):
		opt.skip_list = c["skip"][0]
		opt.skip_regex = c["skip"][1]
		h.mod("bin.pyrescene").skipre = re.compile(opt.skip_regex, re.IGNORECASE)
		parts = parts[0], [x for x in parts[1] if x[0] not in c["skip"][2]], parts[2]
	had = h.ls()
	r = _auto(h, opt)
	new = sorted(f for f in h.ls() if f not in had)
	h.check(bool(r) == (old != "no"), "the result")
	if old in ("n", "no"):
		h.eq(h.get(to), b"old", "the SRR that is there stays")
		h.eq(new, [], "nothing is made")
		h.reach("kept")
		return
	h.eq(new, [] if old else [to], "only the SRR is made")
	if c.get("any_order"):
		# the order of folders is that of the file system
		blocks = h.mod("rescene.rar").RarReader(h.path(to)).read_all()
		order = [b.file_name for b in blocks if b.rawtype == 0x6A]
		h.eq(sorted(order), sorted(n for n, d in parts[1]), "the stored files")
		order2 = [b.file_name for b in blocks if b.rawtype == 0x71]
		h.eq(sorted(order2), sorted(n for n, d in parts[2]), "the volumes")
		parts = parts[0], sorted(parts[1], key=lambda x: order.index(x[0])), sorted(parts[2], key=lambda x: order2.index(x[0]))
	h.eq(h.get(to), _whole(parts), "the SRR holds all volumes and files")
	h.reach("made")


def fault(h):
	c = h.case
	parts = _release(h)
	log = _Log()
	h.patch("bin.pyrescene", "logging", log)
	opt = _Options()
	opt.output_dir = h.path("o")
	to = "o/Rel-GRP.srr"
	if c["old"]:
		h.put(to, b"old")
		h.patch("rescene.main", "can_overwrite", lambda f: True)
	had = h.ls()
	rel = [f for f in had if f.startswith("Rel-GRP/")]
	before = [h.get(f) for f in rel]
	h.fault(c["k"])
	try:
		r = _auto(h, opt)
	except EnvironmentError:
		r = None
	h.end_fault()
	for f, d in zip(rel, before):
		h.eq(h.get(f), d, "the release is left alone")
	if not r:
		h.check(h.exists(to) == bool(c["old"]), "the SRR that was there stays, and there is no new one")
		if c["old"]:
			h.eq(h.get(to), b"old", "the SRR that was there is as it was")
		h.eq(sorted(f for f in h.ls() if f not in had and not f.startswith("tmp/")), [], "no temporary file is left")
		h.reach("failed")
	else:
		out = [f for f in ["a.nfo", "x.sfv"] if any(h.path("Rel-GRP/" + f) in m for m in log.said)]
		h.check(len(out) <= 1, "one file that can't be copied")
		h.eq(h.get(to), _whole((parts[0], [x for x in parts[1] if x[0] not in out], parts[2])),
		     "the SRR holds all volumes, and the small files but those that are reported, and they are complete")
		h.reach("made")


def sample(h):
	"""the samples of a release are stored as SRS files, whatever order the folder is read in"""
	c = h.case
	M.setup(h)
	parts = _release(h)
	opt = _Options()
	opt.output_dir = h.path("o")
	want = dict(parts[1])
	sv = h.mod("resample.srs")
	h.mkdir("direct")
	n = 0
	for f, name in c["samples"]:
		if name.endswith(".txt") or not name:
			h.put("Rel-GRP/" + f, b"not a video" if name else b"")
			continue
		if name.endswith(".srr"):
			d = b"Rar!\x1a\x07\0" + C.block(0x1234, 0x73, 0, b"\0" * 6)
			img = h.blob("vob", 600, 900)
			d = d + C.block(0x1234, 0x74, 0x8000, struct.pack("<II", len(img), len(img)) + b"\0" + struct.pack("<IIBBHI", 0, 0, 29, 0x30, 5, 0x20) + b"a.vob") + img
			h.assume(h.no(d[len(d) - 128:len(d) - 125] == b"TAG"))
			h.put("Rel-GRP/" + f, d)
			base = name[:-4]
			sv.main([h.path("Rel-GRP/" + f), "-y", "-o", h.path("direct/v.srs")], no_exit=True)
			want[base + ".srs"] = C.srr_stored((base + ".srs").encode(), h.get("direct/v.srs"))
			vob = parts[0] + C.srr_rarfile(f[f.rfind("/") + 1:].encode()) + d[:len(d) - len(img)]
			want[name] = C.srr_stored(name.encode(), vob)
			continue
		h.put("Rel-GRP/" + f, R08.data(h, "d%d" % n, 400))
		sv.main([h.path("Rel-GRP/" + f), "-y", "-o", h.path("direct/%d.srs" % n)], no_exit=True)
		want[name] = C.srr_stored(name.encode(), h.get("direct/%d.srs" % n))
		n += 1
	if c.get("srs"):
		# an SRS beside its sample
		h.put("Rel-GRP/Sample/s.srs", b"old")
	files = [f for f, _ in c["samples"]]
	order = h.choose("order", list(range(len(files))))
	h.patch("bin.pyrescene", "get_sample_files", lambda d: [h.path("Rel-GRP/" + f) for f in files[order:] + files[:order]])
	had = h.ls()
	r = _auto(h, opt)
	h.check(bool(r), "the result")
	h.eq(sorted(f for f in h.ls() if f not in had), ["o/Rel-GRP.srr"], "only the SRR is made")
	blocks = h.mod("rescene.rar").RarReader(h.path("o/Rel-GRP.srr")).read_all()
	names = [b.file_name for b in blocks if b.rawtype == 0x6A]
	h.eq(sorted(names), sorted([x for x in want] + [x for _, x in c["samples"] if x.endswith(".txt")]), "the stored files")
	got = h.get("o/Rel-GRP.srr")
	for b in blocks:
		if b.rawtype == 0x6A and b.file_name in want:
			at = b.block_position
			h.eq(got[at:at + b.header_size + b.add_size], want[b.file_name], "the stored file is what it should be")
	h.reach("end")


def music(h):
	"""every track of a music release is stored as an SRS, but not those that don't match the SFV"""
	c = h.case
	R06.setup(h)
	h.patch("rescene.utility", "show_spinner", lambda n: None)
	h.mkdir("tmp")
	h.mkdir("o")
	h.mkdir("direct")
	nfo = h.blob("nfo", 0, 60)
	h.put("Rel-GRP/01-x.nfo", nfo)
	want = {"01-x.nfo": C.srr_stored(b"01-x.nfo", nfo)}
	sv = h.mod("resample.srs")
	lines = []
	for i, how in enumerate(c["tracks"]):
		n = "0%d-t.mp3" % i
		if how == "right":
			d = b"\xff\xfb" + b"some music." * 40 + R06.END
			lines.append("%s %08x" % (n.upper() if c.get("caps") else n, zlib.crc32(d)))
		else:
			d = b"\xff\xfb" + h.blob("d%d" % i, 300, 400) + R06.END
			h.assume(h.no(d[4:8] == b"ftyp"))
			h.assume(h.no(d[len(d) - 128:len(d) - 125] == b"TAG"))
		h.put("Rel-GRP/" + n, d)
		if how == "wrong":
			lines.append((n.upper() if c.get("caps") else n) + " 12345678")
			h.assume(h.crc(d) != 0x12345678)
			continue
		sv.main([h.path("Rel-GRP/" + n), "-y", "-o", h.path("direct/%d.srs" % i)], no_exit=True)
		want[n[:-3] + "srs"] = C.srr_stored((n[:-3] + "srs").encode(), h.get("direct/%d.srs" % i))
	sfv = "".join(x + "\r\n" for x in lines).encode()
	h.put("Rel-GRP/00-x.sfv", sfv)
	want["00-x.sfv"] = C.srr_stored(b"00-x.sfv", sfv)
	opt = _Options()
	opt.output_dir = h.path("o")
	h.patch("bin.pyrescene", "logging", _Log())
	had = h.ls()
	r = _auto(h, opt)
	h.check(bool(r), "the result")
	h.eq(sorted(f for f in h.ls() if f not in had), ["o/Rel-GRP.srr"], "only the SRR is made")
	w = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8")) + want.pop("01-x.nfo")
	for n in sorted(want):
		w = w + want[n]
	h.eq(h.get("o/Rel-GRP.srr"), w, "the SRR holds the NFO, and the tracks in order")
	h.reach("end")


def proof(h):
	"""a proof in a RAR is stored, above its SFV, and is no volume of the release"""
	parts = _release(h)
	img = h.blob("img", 1, 300)
	name = h.case["name"].encode()
	raw = b"Rar!\x1a\x07\0" + C.block(0x1234, 0x73, 0, b"\0" * 6) + C.block(0x1234, 0x74, 0x8000,
		struct.pack("<II", len(img), len(img)) + b"\0" + struct.pack("<IIBBHI", 0, 0, 29, 0x30, len(name), 0x20) + name) + img
	if h.case.get("cut"):
		raw = raw[:h.choose("cut", list(range(0, 64, h.case["cut"])))]
	sfv = b"p.rar 12345678\r\n"
	h.put("Rel-GRP/Proof/p.rar", raw)
	h.put("Rel-GRP/Proof/p.sfv", sfv)
	opt = _Options()
	opt.output_dir = h.path("o")
	had = h.ls()
	h.check(bool(_auto(h, opt)), "the result")
	h.eq(sorted(f for f in h.ls() if f not in had), ["o/Rel-GRP.srr"], "only the SRR is made")
	n, sf = parts[1]
	if h.case.get("cut"):
		# not always known to be a proof
		blocks = h.mod("rescene.rar").RarReader(h.path("o/Rel-GRP.srr")).read_all()
		h.check({"a.nfo", "x.sfv", "Proof/p.sfv"} <= {b.file_name for b in blocks if b.rawtype == 0x6A}, "the other files are stored")
		h.check("x.rar" in [b.file_name for b in blocks if b.rawtype == 0x71], "the SRR holds the volumes")
		h.reach("cut")
		return
	pr = [(0, C.srr_stored(b"Proof/p.rar", raw))]
	want = _whole((parts[0], [n] + pr + [(0, C.srr_stored(b"Proof/p.sfv", sfv)), sf], parts[2]))
	h.eq(h.get("o/Rel-GRP.srr"), want, "the SRR holds the proof, and the volumes")
	h.reach("end")


def interrupt(h):
	"""Ctrl+C"""
	parts = _release(h)
	c = h.case
	opt = _Options()
	opt.output_dir = h.path("o")
	if c["old"]:
		h.put("o/Rel-GRP.srr", b"old")
		h.patch("rescene.main", "can_overwrite", lambda f: True)
	had = h.ls()
	n = [0]
	cls = getattr(h.mod("rescene.rar"), c["what"][0])
	real = getattr(cls, c["what"][1])

	def f(*a):
		n[0] += 1
		if n[0] - 1 == c["k"]:
			raise KeyboardInterrupt()
		return real(*a)
	setattr(cls, c["what"][1], f)
	try:
		_auto(h, opt)
	except KeyboardInterrupt:
		h.eq(sorted(f for f in h.ls() if f not in had and not f.startswith("tmp/")), [], "no temporary file is left")
		if c["old"]:
			h.eq(h.get("o/Rel-GRP.srr"), b"old", "the SRR that was there is as it was")
		h.reach("interrupted")
		return
	finally:
		setattr(cls, c["what"][1], real)
	h.eq(h.get("o/Rel-GRP.srr"), _whole(parts), "the SRR is complete")
	h.reach("made")


def broken(h):
	"""a release with a volume that is missing or unreadable"""
	c = h.case
	_release(h)
	opt = _Options()
	opt.output_dir = h.path("o")
	if c["old"]:
		h.put("o/Rel-GRP.srr", b"old")
		h.patch("rescene.main", "can_overwrite", lambda f: True)
	last = "Rel-GRP/x.r00"
	d = h.get(last)
	if c["kind"] == "missing":
		h.rm(last)
	else:
		h.put(last, d[:h.choose("cut", list(range(0, 40)))])
	had = h.ls()
	r = _auto(h, opt)
	new = sorted(f for f in h.ls() if f not in had)
	if r:
		h.check(c["kind"] == "cut", "an incomplete release is refused")
		h.eq(new, [] if c["old"] else ["o/Rel-GRP.srr"], "only the SRR is made")
		h.reach("made")
		return
	h.eq(new, [], "nothing is made")
	if c["old"]:
		h.eq(h.get("o/Rel-GRP.srr"), b"old", "the SRR that was there is as it was")
	h.reach("refused")


_1, _2 = [["f0", "e"]], [["f0", "e"], ["f0", "e"]]
HARNESSES = [
	Harness("auto", "auto", [
		{"spec": _2, "folders": [""], "more": ["a.nfo"]},
		{"spec": _2, "folders": ["CD1/", "CD2/"], "more": ["a.nfo"], "any_order": 1},
		{"spec": _1, "folders": ["CD1/", "CD2/"], "more": ["a.nfo", "CD2/a.nfo", "CD1/s.srs"], "same": 1, "any_order": 1},
		{"spec": _1, "folders": ["", "CD2/"], "more": ["CD2/b.nfo", "CD2/Cover/a.log"], "same": 1, "any_order": 1},
		{"spec": _1, "folders": [""], "more": []},
		{"spec": _1, "folders": [""], "more": ["a.nfo", "Sample/s.srs"], "in": 1},
		{"spec": _1, "folders": [""], "more": ["a.nfo", "a.m3u", "Proof/a.jpg", "b.log", "c.cue", "s.srs"]},
		{"spec": _1, "folders": ["CD1/"], "more": ["a.nfo", "b.log"], "skip": (["b.log"], "", ["b.log"])},
		{"spec": _1, "folders": ["CD1/"], "more": ["a.nfo", "b.log"], "skip": ([], "^cd1/.*\\.sfv$", ["CD1/x.sfv"])},
		{"spec": _1, "folders": ["CD1/"], "more": ["a.nfo", "b.log"], "skip": (["a.nfo"], ".*(nfo|log)$", ["a.nfo", "b.log"])},
		{"spec": _1, "folders": [""], "more": ["A.nfo", "a.nfo"], "any_order": 1},
		{"spec": _1, "folders": [""], "more": ["a.nfo"], "never": ["imdb.nfo", "CD1/tvmaze.nfo", "no.nfo", "rushchk.log", ".x.log", "other.txt", "Folder.jpg", "a b.jpg"]},
		{"spec": _1, "folders": ["CD1/"], "more": ["Sample/a.jpg", "Covers/b.png", "Proofs/c.jpeg", "CD1/d-proof.GIF"], "any_order": 1},
		{"spec": _1, "folders": [""], "more": ["a.nfo"], "always_no": 1},
		{"spec": _1, "folders": [""], "more": ["a.nfo"], "old": "y"},
		{"spec": _1, "folders": [""], "more": ["a.nfo"], "old": "n"},
		{"spec": _1, "folders": [""], "more": ["a.nfo"], "old": "no"},
	], expect=("made", "kept")),
	Harness("fault", "fault", [{"spec": _1, "folders": [""], "more": ["a.nfo"], "old": o, "k": k} for o in (0, 1) for k in range(90)],
	        expect=("made", "failed")),
	Harness("broken", "broken", [{"spec": _2, "folders": [""], "more": ["a.nfo"], "kind": k, "old": o} for k in ("missing", "cut") for o in (0, 1)], expect=("refused",)),
	Harness("interrupt", "interrupt", [{"spec": _2, "folders": [""], "more": ["a.nfo"], "what": w, "k": k, "old": o} for w in (
		("RarBlock", "block_bytes"), ("SrrStoredFileBlock", "srr_data"), ("RarReader", "read_all")) for k in range(8) for o in (0, 1)], expect=("interrupted", "made")),
	Harness("sample", "sample", [{"spec": _1, "folders": [""], "more": ["a.nfo"], "samples": x} for x in (
		[("Sample/s.vob", "Sample/s.srs")],
		[("Sample/s.vob", "Sample/s.srs"), ("Sample/t.vob", "Sample/t.srs")],
		[("Sample/s.mpg", "Sample/s.mpg.srs"), ("Sample/s.vob", "Sample/s.vob.srs")],
		[("Sample/s.mpg", "Sample/s.mpg.srs"), ("Sample/t.vob", "Sample/t.srs"), ("Sample/s.vob", "Sample/s.vob.srs")],
		[("Sample/s.vob", "Sample/s.srs"), ("Sample/t.avi", "Sample/t.avi.txt")],
		[("Sample/s.vob", "Sample/s.srs"), ("Sample/t.avi", "")],
		[("Sample/s.vob", "Sample/s.srr")])], expect=("end",)),
	Harness("beside", "sample", [{"spec": _1, "folders": [""], "more": ["a.nfo"], "samples": [("Sample/s.vob", "Sample/s.srs")], "srs": 1}], expect=("end",)),
	Harness("music", "music", [{"tracks": t} for t in (["right", "right"], ["right", "wrong"], ["wrong", "right", "unlisted"], ["unlisted", "right"])] +
		[{"tracks": ["right", "wrong"], "caps": 1}], expect=("end",)),
	Harness("proof", "proof", [{"spec": _1, "folders": [""], "more": ["a.nfo"], "name": n, "cut": k} for n, k in (("p.jpg", 0), ("P.PNG", 0), ("p.jpg", 1))], expect=("end", "cut")),
]
