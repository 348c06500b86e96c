"""Recovery records that were removed are made again, byte for byte."""
import struct
from symex.run import Harness
from props import common as C

PRELOAD = ("rescene.main",)
BOUNDS = ("both kinds of recovery record with 1-4 (thorough: 1-8) recovery sectors over protected parts of 511-2048 (thorough: to 5121) bytes, all of "
          "them symbolic, of one to three volumes; two sets of up to 20011 bytes of which the first and last 300-600 of each volume are symbolic; with "
          "and without comments, several files and blocks behind the record; SRR files that still hold recovery data")
OUTSIDE = "larger volumes and more sectors; records whose counts do not fit the volume"


def _rr(h, head, nrec, kind, tag=""):
	"""(header of the recovery block, its data) that protect the bytes of head"""
	n = (len(head) + 511) // 512
	crcs = b""
	par = [[0] * 512 for _ in range(nrec)]
	for i in range(n):
		s = head[512 * i:512 * i + 512]
		crcs = crcs + struct.pack("<H", ~h.crc(s + bytes(512 - len(s))) & 0xFFFF)
		p = par[i % nrec]
		for k in range(len(s)):
			p[k] = p[k] ^ s[k]
	data = crcs
	for p in par:
		data = data + b"".join([struct.pack("<B", x) for x in p])
	crc = h.int("rrcrc" + tag, 0, 0xFFFFFFFF)
	size = 2 * n + 512 * nrec
	if kind == "new":
		return C.rr_newsub(b"", nrec, n, C.LONG | 0x4000, packed=size, crc=crc), data
	return C.rr_old(b"", nrec, n, packed=size), data


def _volume(h, i, n, size, kind, nrec, extra):
	"""a volume of which the part before the recovery record takes size bytes"""
	fl = (1 if n > 1 else 0) | 0x40 | (0x100 if i == 0 else 0)
	pre = C.RAR_MARKER + C.volhdr(fl, crc=h.int("vc%d" % i, 0, 0xFFFF))
	if extra:
		pre = pre + C.newsub(b"CMT", h.bytes("cmt%d" % i, 5))
	hl = len(C.filehdr(b"a.avi", 0, 0))
	k = size - len(pre) - hl
	return pre, k


def _repairs(h, vol, lens, nrec):
	"""any sector can be got back from its recovery sector and the others of the slice"""
	size, rh = lens
	n = (size + 511) // 512
	pos = size + rh + 2 * n
	for r in range(min(n, nrec)):
		p = vol[pos + 512 * r:pos + 512 * r + 512]
		lost = r + (n - 1 - r) // nrec * nrec
		for k in range(0, 512, 37):
			if 512 * lost + k >= size:
				break
			x = p[k]
			for i in range(r, n, nrec):
				if i != lost and 512 * i + k < size:
					x = x ^ vol[512 * i + k]
			h.check(x == vol[512 * lost + k], "a lost sector comes back")


def rebuild(h):
	m = h.mod("rescene.main")
	kind, sizes, nrec = h.case["kind"], h.case["sizes"], h.case["nrec"]
	n = len(sizes)
	pre, pieces = [], []
	for i in range(n):
		p, k = _volume(h, i, n, sizes[i], kind, nrec, h.case.get("extra"))
		pre.append(p)
		w = h.case.get("window")
		if w is None or w >= k:
			pieces.append(h.bytes("p%d" % i, k))
		else:
			pieces.append(h.bytes("p%d" % i, w) + bytes(k - 2 * w) + h.bytes("q%d" % i, w))
	total = sum(len(p) for p in pieces)
	want, srr = [], C.srr_header(b"prog")
	heads = {}
	for i in range(n):
		fl = C.LONG | (1 if i else 0) | (2 if i + 1 < n else 0)
		hd = pre[i] + C.filehdr(b"a.avi", len(pieces[i]), total, fl, h.int("fc%d" % i, 0, 0xFFFFFFFF))
		rh, rd = _rr(h, hd + pieces[i], nrec, kind, str(i))
		end = C.endblock(0x4000 | (1 if i + 1 < n else 0)) if h.case.get("end", 1) else b""
		v = hd + pieces[i] + rh + rd + end
		name = "x.rar" if i == 0 else "x.r%02d" % (i - 1)
		want.append((name, v))
		srr = srr + C.srr_rarfile(name.encode("ascii")) + hd + rh + end
		h.put("rel/" + name, v)
		heads[name] = (len(hd + pieces[i]), len(rh))
	h.put("src/a.avi", b"".join(pieces))
	m.create_srr(h.path("o.srr"), h.path("rel/x.rar"), h.path("rel"), oso_hash=False)
	got = h.get("o.srr")
	h.eq(got[len(got) - len(srr) + len(C.srr_header(b"prog")):], srr[len(C.srr_header(b"prog")):], "the SRR has the headers without recovery data")
	part = h.case.get("part")
	m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), skip_rar_crc=True, srr_part=part or "")
	for name, v in want:
		if part is None or part == name:
			g = h.get("out/" + name)
			h.eq(g, v, "the rebuilt volume is the original")
			_repairs(h, g, heads[name], nrec)
		else:
			h.check(not h.exists("out/" + name), "only the volume asked for")
	h.reach("end")


def kept(h):
	"""an SRR that still has the recovery data of some volumes: that data is used as it is"""
	m = h.mod("rescene.main")
	srr, want = C.srr_header(b"prog"), []
	pieces = [h.bytes("p%d" % i, k) for i, k in enumerate(h.case["sizes"])]
	total = sum(len(p) for p in pieces)
	n = len(pieces)
	for i, (p, kind, keep) in enumerate(zip(pieces, h.case["kinds"], h.case["keep"])):
		fl = C.LONG | (1 if i else 0) | (2 if i + 1 < n else 0)
		hd = C.RAR_MARKER + C.volhdr(0x141 if i == 0 else 0x41) + C.filehdr(b"a.avi", len(p), total, fl, h.int("fc%d" % i, 0, 0xFFFFFFFF))
		end = C.endblock()
		name = "x.rar" if i == 0 else "x.r%02d" % (i - 1)
		rh, rd = _rr(h, hd + p, h.case.get("nrec", 1), kind, str(i))
		if keep:
			rd = h.bytes("rd%d" % i, len(rd))     # whatever it is
		srr = srr + C.srr_rarfile(name.encode("ascii"), 0 if keep else 1) + hd + rh + (rd if keep else b"") + end
		want.append((name, hd + p + rh + rd + end))
	h.put("src/a.avi", b"".join(pieces))
	h.put("o.srr", srr)
	m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), skip_rar_crc=True)
	for name, v in want:
		h.eq(h.get("out/" + name), v, "the rebuilt volume is the original")
	h.reach("end")


def many(h):
	"""several files and other blocks in front of the recovery record"""
	m = h.mod("rescene.main")
	hd = C.RAR_MARKER + C.volhdr(0x40)
	v, srr = hd, hd
	for i, k in enumerate(h.case["files"]):
		d = h.bytes("d%d" % i, k)
		x = C.filehdr(b"f%d.bin" % i, k, k, C.LONG, h.int("fc%d" % i, 0, 0xFFFFFFFF), dt=h.int("dt%d" % i, 0, 0xFFFFFFFF))
		v, srr = v + x + d, srr + x
		h.put("src/f%d.bin" % i, d)
		if h.case.get("sub"):
			x = C.newsub(b"CMT", h.bytes("c%d" % i, 11))
			v, srr = v + x, srr + x
	rh, rd = _rr(h, v, h.case["nrec"], h.case["kind"])
	tail = C.newsub(b"AV", h.bytes("av", 6)) if h.case.get("sub") else b""
	tail = tail + (C.endblock() if h.case.get("end", 1) else b"")
	v, srr = v + rh + rd + tail, srr + rh + tail
	h.put("o.srr", C.srr_header(b"prog") + C.srr_rarfile(b"x.rar") + srr)
	m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), skip_rar_crc=True)
	h.eq(h.get("out/x.rar"), v, "the rebuilt volume is the original")
	h.put("rel/x.rar", v)
	m.create_srr(h.path("n.srr"), h.path("rel/x.rar"), h.path("rel"), oso_hash=False)
	a = C.srr_header(h.mod("rescene").APPNAME.encode("utf-8"))
	h.eq(h.get("n.srr"), a + C.srr_rarfile(b"x.rar") + srr, "a new SRR has no recovery data")
	h.reach("end")


_S = [((512,), 1), ((511,), 1), ((513,), 1), ((513,), 2), ((1535,), 2), ((1537,), 2), ((1100,), 4), ((2048,), 3), ((700, 513), 1), ((1024, 300, 512), 2)]
HARNESSES = [
	Harness("rebuild", "rebuild", [{"kind": k, "sizes": s, "nrec": r, "extra": i % 2, "end": k == "new" or i % 3} for k in ("old", "new")
	        for i, (s, r) in enumerate(_S)] +
	        [{"kind": k, "sizes": (700, 513, 600), "nrec": 2, "part": p} for k in ("old", "new") for p in ("x.rar", "x.r00", "x.r01")] +
	        [{"kind": "new", "sizes": (20000,), "nrec": 7, "window": 600}, {"kind": "old", "sizes": (20011, 9000), "nrec": 8, "window": 300}],
	        [{"kind": k, "sizes": (n,), "nrec": r} for k in ("old", "new") for n in (1023, 1024, 1025, 3000, 5121) for r in (1, 2, 3, 5, 8)], expect=("end",)),
	Harness("kept", "kept", [{"sizes": (500, 600), "kinds": k, "keep": p} for k in (("old", "old"), ("new", "new"), ("new", "old")) for p in ((1, 1), (0, 1), (1, 0))] +
	        [{"sizes": (900,), "kinds": ("old",), "keep": (1,), "nrec": 2}], expect=("end",)),
	Harness("many", "many", [{"files": f, "kind": k, "nrec": r, "sub": s, "end": e} for k in ("old", "new") for f, r, s, e in (
		((100, 500), 1, 1, 1), ((0, 300, 900), 2, 0, 0), ((600, 1, 600), 3, 1, 0))], expect=("end",)),
]
