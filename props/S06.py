"""An edit of an SRR either happens completely or leaves the SRR as it was."""
from symex.run import Harness
from props import common as C, srrbuild as B

PRELOAD = ("rescene.main", "rescene.rar", "rescene.utility")
QUICK_S = 80
BOUNDS = ("every single failing or crashing file-system operation (of the first 40) of add_stored_files, remove_stored_files, "
          "rename_stored_file and of replace_result, on SRRs of up to 2 stored files and a RAR set, contents of any length "
          "up to 2^20; a crash loses what was not flushed and keeps everything else")
OUTSIDE = "power loss that reorders completed operations (no fsync is modelled); two failures in one edit; concurrent editors"


def _edit(h, m):
	k = h.case["op"]
	p = h.path("e/x.srr")
	if k == "add":
		m.add_stored_files(p, ["n1", "n2"], h.path("in"))
	elif k == "rm":
		m.remove_stored_files(p, ["aa", "zz"])
	elif k == "ren":
		m.rename_stored_file(p, "aa", "long new name")


def _new(h, parts, adds):
	k = h.case["op"]
	out = b""
	placed = False
	for p in parts:
		if k == "add" and p.kind == "r" and not placed:
			placed = True
			out = out + adds
		if k == "rm" and p.kind == "s" and p.name in ("aa", "zz"):
			continue
		if k == "ren" and p.kind == "s" and p.name == "aa":
			out = out + C.srr_stored(b"long new name", p.data)
			continue
		out = out + p.raw
	if k == "add" and not placed:
		out = out + adds
	return out


def _setup(h):
	m = h.mod("rescene.main")
	parts = B.build(h, h.case["lay"], ["aa", "b/c"], 1)
	old = B.raw(parts)
	h.put("e/x.srr", old)
	h.put("e/other", b"o")
	adds = b""
	for n in ("n1", "n2"):
		d = h.blob(n, 0, 1 << 20)
		h.put("in/" + n, d)
		adds = adds + C.srr_stored(n.encode("ascii"), d)
	return m, old, _new(h, parts, adds)


def _either(h, got, old, new, msg):
	# (the two always differ in length)
	h.eq(got, old if len(got) == len(old) else new, msg)


def fault(h):
	"""one operation fails: the edit is complete or nothing happened"""
	m, old, new = _setup(h)
	h.fault(h.case["k"])
	try:
		_edit(h, m)
		ok = True
	except OSError:
		ok = False
	n, _ = h.end_fault()
	got = h.get("e/x.srr") if h.exists("e/x.srr") else None
	h.check(got is not None, "the SRR is still there after a failed operation")
	if ok:
		h.eq(got, new, "an edit that reports success is complete")
	else:
		_either(h, got, old, new, "an edit that fails leaves the old or the new SRR")
		h.reach("failed")
	if ok:
		h.eq(sorted(h.ls()), ["e/other", "e/x.srr", "in/n1", "in/n2"], "no other files appear or disappear")
		h.reach("ok")


def clean(h):
	"""a failed edit leaves no temporary file behind, if it could be removed"""
	m, old, new = _setup(h)
	h.fault(h.case["k"])
	try:
		_edit(h, m)
	except OSError:
		h.end_fault()
		h.eq(sorted(h.ls()), ["e/other", "e/x.srr", "in/n1", "in/n2"], "the temporary file of a failed edit is removed")
		h.reach("failed")
		return
	h.end_fault()
	h.reach("ok")


def interrupt(h):
	"""Ctrl+C while the new SRR is written: the old one stays and no temporary file"""
	m, old, new = _setup(h)
	n = [0]
	cls, attr = h.case["what"]
	cls = getattr(h.mod("rescene.rar"), cls)
	real = getattr(cls, attr)

	def f(*a):
		n[0] += 1
		if n[0] - 1 == h.case["k"]:
			raise KeyboardInterrupt()
		return real(*a)
	setattr(cls, attr, f)
	try:
		_edit(h, m)
	except KeyboardInterrupt:
		h.eq(h.get("e/x.srr"), old, "an interrupted edit leaves the SRR as it was")
		h.eq(sorted(h.ls()), ["e/other", "e/x.srr", "in/n1", "in/n2"], "the temporary file of an interrupted edit is removed")
		h.reach("interrupted")
		return
	finally:
		setattr(cls, attr, real)
	h.eq(h.get("e/x.srr"), new, "complete")
	h.reach("ok")


def crash(h):
	"""a crash at any operation: the SRR is the old or the new one"""
	m, old, new = _setup(h)
	h.crash(h.case["k"])
	try:
		_edit(h, m)
	finally:
		n, snap = h.end_fault()
	if snap is None:
		h.eq(h.get("e/x.srr"), new, "complete")
		h.reach("past")
		return
	h.check("e/x.srr" in snap, "the SRR exists at every moment of an edit")
	got = snap["e/x.srr"]
	_either(h, got, old, new, "at every moment the SRR is the old or the new one")
	h.eq(snap["e/other"], b"o", "other files stay")
	h.reach("crash")


def replace(h):
	"""replace_result: the finished file takes the place of the old one"""
	u = h.mod("rescene.utility")
	old = h.blob("old", 0, 1 << 20)
	new = h.blob("new", 0, 1 << 20)
	h.assume(len(old) != len(new))
	if h.case["old"]:
		h.put("e/x.srr", old)
	tmp = u.create_temp_file_name(h.path("e/x.srr"))
	h.mkdir("e")
	if h.case["new"]:
		with open(tmp, "wb") as f:
			f.write(new)
	k = h.case["k"]
	crash = h.case["crash"]
	if crash:
		h.crash(k)
	else:
		h.fault(k)
	try:
		u.replace_result(tmp, h.path("e/x.srr"))
		ok = True
	except OSError:
		ok = False
	n, snap = h.end_fault()
	if snap is not None:
		got = snap.get("e/x.srr")
	else:
		got = h.get("e/x.srr") if h.exists("e/x.srr") else None
	if not h.case["new"]:
		h.check((got is None) == (not h.case["old"]), "nothing to do without a new file")
		if got is not None:
			h.eq(got, old, "the old file is left alone")
		h.reach("nothing")
		return
	if ok and snap is None:
		h.check(got is not None, "the new file is there")
		h.eq(got, new, "the new file took the old one's place")
		h.eq(h.ls(), ["e/x.srr"], "no temporary file left")
		h.reach("done")
		return
	if got is None:
		h.check(not h.case["old"], "the old file is not lost")
	else:
		_either(h, got, old if h.case["old"] else new, new, "the old or the new file")
	h.reach("interrupted")


_OPS = [("add", "sr"), ("add", "s"), ("rm", "sr"), ("rm", "ss"), ("ren", "sr"), ("ren", "ss")]
_K = list(range(0, 26))
HARNESSES = [
	Harness("fault", "fault", [{"op": o, "lay": l, "k": k} for o, l in _OPS for k in _K], expect=("failed", "ok")),
	Harness("clean", "clean", [{"op": o, "lay": l, "k": k} for o, l in _OPS for k in _K], expect=("failed", "ok")),
	Harness("interrupt", "interrupt", [{"op": o, "lay": l, "k": k, "what": w} for o, l in _OPS for k in range(6) for w in
	        (("SrrStoredFileBlock", "srr_data"), ("RarBlock", "block_bytes"))], expect=("interrupted", "ok")),
	Harness("crash", "crash", [{"op": o, "lay": l, "k": k} for o, l in _OPS for k in _K], expect=("past", "crash")),
	Harness("replace", "replace", [{"old": o, "new": n, "k": k, "crash": c} for o in (0, 1) for n in (0, 1)
	                               for k in range(4) for c in (0, 1)],
	        expect=("nothing", "done", "interrupted")),
]
