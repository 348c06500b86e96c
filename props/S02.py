"""Reading a RAR or SRR file accounts for every byte, or reports an error."""
import struct
from symex.run import Harness
from props import common as C

PRELOAD = ("rescene.rar",)
BOUNDS = ("one block with arbitrary type, flags, header size 7..60, arbitrary header bytes and arbitrary data of up "
          "to 2^33 bytes between a valid start and a known following block, RAR and SRR mode; every file made of a "
          "valid start followed by up to 12 (thorough: 18) arbitrary bytes; every truncation point of a small file; "
          "old and new numbering of two-block RAR starts")
OUTSIDE = "self-extracting archives; RAR 5; more than one arbitrary block in a row except within the small files"

OK_ERR = (EnvironmentError, ValueError)


def extent(h):
	"""marker/header, X, sentinel: the sentinel is found right behind X"""
	rar = h.mod("rescene.rar")
	mode, t = h.case["mode"], h.case["t"]
	hs = h.int("hsize", 7, h.case.get("hmax", 60))
	flags = h.int("flags", 0, 0xFFFF)
	crc = h.int("crc", 0, 0xFFFF)
	body = h.blob("body", 0, 53)
	h.assume(len(body) == hs - 7)
	add = h.int("add", 0, 0xFFFFFFFF)
	if h.case["nohdr"]:
		# a bare seven byte block never has data
		h.assume(h.all(hs == 7, flags & 0x8000 == 0))
		size = 0
		raw = struct.pack("<HBHH", crc, t, flags, 7)
	else:
		h.assume(hs >= 11)
		raw = struct.pack("<HBHHI", crc, t, flags, hs, add) + body[4:]
		has = h.any(flags & 0x8000 != 0, t == 0x74, t == 0x7A)
		size = h.ite(has, add, 0)
		if t in (0x74, 0x7A):
			h.assume(hs >= 40)
			nlen = struct.unpack_from("<H", raw, 26)[0]
			h.assume(nlen <= 2)
			h.assume(flags & (C.UTF8 | C.EXTTIME) == 0)
			if flags & C.LARGE:
				# sizes beyond 32 bit exist for file blocks
				h.assume(t == 0x74)
				hi = struct.unpack_from("<I", raw, 32)[0]
				h.assume(hi <= 1)
				size = size + (hi << 32)
		if t == 0x7A:
			rr = h.all(nlen == 2, raw[32] == 0x52, raw[33] == 0x52)
			h.assume(h.any(h.no(rr), h.all(hs >= 54, flags & (C.LARGE | C.SALT) == 0)))
		if mode == "srr":
			if t == 0x74 or t == 0x78:
				size = 0
			elif t == 0x7A:
				size = h.ite(rr, 0, size)
		if t == 0x78:
			h.assume(hs >= 26)
		if t == 0x73:
			h.assume(hs >= 13)
	data = h.blob("data", 0, 0x1FFFFFFFF)
	h.assume(len(data) == size)
	sent = C.block(0x7777, 0x73, 0, b"\1\2\3\4\5\6")
	if mode == "rar":
		head = C.RAR_MARKER + C.volhdr()
	else:
		head = C.srr_header(b"xx") + C.srr_rarfile(b"a.rar")
	h.put("f", head + raw + data + sent)
	r = rar.RarReader(h.path("f"))
	bl = r.read_all()
	h.check(len(bl) == 4, "four blocks")
	x = bl[2]
	p = len(head)
	h.eq(x.block_position, p, "position of the block")
	h.eq(x.header_size, hs, "size of its header")
	h.check(h.all(x.rawtype == t, x.flags == flags, x.crc == crc), "its basic fields")
	h.eq(x.block_bytes()[:hs], raw, "header bytes are kept")
	h.eq(bl[3].block_position, p + hs + size, "the next block starts right behind the data")
	h.eq(bl[3].block_bytes(), sent, "the next block is read")
	if mode == "srr" and t not in (0x6A, 0x74, 0x78):
		h.eq(x.block_bytes(), raw + data, "data that an SRR holds is kept with the block")
	h.reach("end")


def rrkept(h):
	"""recovery data of an SRR: part of the file unless marked as removed"""
	rar = h.mod("rescene.rar")
	fl = h.int("flags", 0, 0xFFFF)
	d = h.blob("rr", 1, 1 << 20)
	rest = C.rr_newsub(b"", 3, 7, packed=len(d)) if h.case["new"] else C.rr_old(b"", 3, 7, packed=len(d))
	sent = C.block(0x7777, 0x73, 0, b"\1\2\3\4\5\6")
	head = C.srr_header(b"xx") + C.srr_rarfile(b"a.rar", fl)
	h.assume(fl & 0x8000 == 0)
	removed = fl & 1 == 1
	if removed:
		h.put("f", head + rest + sent)
	else:
		h.put("f", head + rest + d + sent)
	bl = rar.RarReader(h.path("f")).read_all()
	h.check(len(bl) == 4, "four blocks")
	h.eq(bl[2].block_bytes(), rest if removed else rest + d, "the block is as it is in the file")
	h.eq(bl[3].block_bytes(), sent, "the next block is read")
	h.check(bl[2].recovery_sectors == 3 and bl[2].data_sectors == 7, "its fields")
	h.reach("removed" if removed else "kept")


def endpad(h):
	"""whatever follows the archive end block is one padding block"""
	rar = h.mod("rescene.rar")
	fl = h.int("flags", 0, 0x7FFF)
	n = h.case["n"]
	pad = h.blob("pad", 1, 1 << 20)
	head = C.RAR_MARKER + C.volhdr() + C.endblock(fl, h.bytes("eb", n))
	h.put("f", head + pad)
	h.assume(h.no(fl & 2 != 0) if n < 4 else True)
	h.assume(h.no(fl & 8 != 0) if n < 6 else True)
	bl = rar.RarReader(h.path("f")).read_all()
	if n == 0:
		# a bare end block is not distinguished from other bare blocks
		pass
	h.check(len(bl) == 4, "padding is one block")
	h.check(isinstance(bl[3], rar.SrrRarPaddingBlock), "padding block")
	h.eq(bl[3].block_bytes()[bl[3].header_size:], pad, "padding bytes")
	h.reach("end")


def _check_tiling(h, rar, content, srr):
	r = None
	try:
		r = rar.RarReader(h.path("f"))
		bl = r.read_all()
	except OK_ERR:
		h.reach("error")
		return
	n = len(content)
	pos = 0
	h.check(len(bl) > 0, "a file that is accepted has blocks")
	h.eq(bl[0].block_position, 0, "first block starts the file")
	prev = None
	for b in bl:
		if prev is not None and prev.rawtype == 0x7B and not srr:
			h.check(b is bl[-1], "padding is last")
			h.eq(prev.block_position + prev.header_size + len(b.block_bytes()) - b.header_size, n,
			     "padding reaches the end")
			return
		if prev is not None:
			h.check(b.block_position >= prev.block_position + prev.header_size, "blocks do not overlap")
		h.eq(b.block_bytes()[:b.header_size], content[b.block_position:b.block_position + b.header_size],
		     "block bytes are the file's bytes")
		prev = b
	end = prev.block_position + prev.header_size
	h.check(end <= n, "last block lies within the file")
	h.reach("read")


def anybytes(h):
	rar = h.mod("rescene.rar")
	m = h.case["mode"]
	tail = h.blob("tail", h.case["n"], h.case["n"])
	if m == "srr":
		head = C.srr_header(b"0123456789ab")
	elif m == "srrf":
		head = C.srr_header(b"xx") + C.srr_rarfile(b"a.rar", 0)
	else:
		head = C.RAR_MARKER + C.volhdr()
	content = head + tail
	h.put("f", content)
	_check_tiling(h, rar, content, m != "rar")


def truncate(h):
	"""a file cut short anywhere is reported, except at a block boundary or
	inside data whose length the reader cannot check"""
	rar = h.mod("rescene.rar")
	m = h.case["mode"]
	d = h.blob("d", 5, 1 << 16)
	if m == "srr":
		hdrs = [C.srr_header(b"0123456789ab"), C.srr_stored(b"n.nfo", d), C.srr_rarfile(b"a.rar"), C.volhdr(),
		        C.filehdr(b"f", len(d), len(d))]
		datas = [0, len(d), 0, 0, 0]
	else:
		hdrs = [C.RAR_MARKER, C.volhdr(), C.filehdr(b"f", len(d), len(d)) + d, C.endblock()]
		datas = [0, 0, len(d), 0]
	content = b""
	cuts = [0]
	for x in hdrs:
		content = content + x
		cuts.append(len(content))
	k = h.int("cut", 0, 1 << 17)
	h.assume(h.all(k >= 20, k <= len(content)))
	boundary = h.any(*[k == c for c in cuts])
	h.put("f", content[:k])
	try:
		bl = rar.RarReader(h.path("f")).read_all()
	except OK_ERR:
		h.check(h.no(boundary), "a file that ends at a block boundary is accepted")
		h.reach("error")
		return
	h.check(boundary, "a truncated file is reported")
	h.check(len(bl) >= 1, "blocks")
	h.reach("read")


def small(h):
	"""too small or foreign files are refused"""
	rar = h.mod("rescene.rar")
	c = h.blob("c", 0, 40)
	h.put("f", c)
	t = None
	if len(c) >= 20:
		t = c[2]
		h.assume(h.no(h.any(t == 0x72, t == 0x69)))
	try:
		rar.RarReader(h.path("f"))
	except OK_ERR:
		h.reach("refused")
		return
	h.check(False, "a file that is neither RAR nor SRR is refused")


def _ext_cases():
	out = []
	for t in (0x75, 0x76, 0x77, 0x79, 0x7A, 0x74, 0x78, 0x73, 0x72, 0x40, 0x6D):
		for m in ("rar", "srr"):
			out.append({"mode": m, "t": t, "nohdr": 0})
	for t in (0x72, 0x75, 0x7A, 0x74, 0x33):
		for m in ("rar", "srr"):
			out.append({"mode": m, "t": t, "nohdr": 1})
	return out


HARNESSES = [
	Harness("extent", "extent", _ext_cases(), expect=("end",)),
	Harness("rrkept", "rrkept", [{"new": 0}, {"new": 1}], expect=("removed", "kept")),
	Harness("endpad", "endpad", [{"n": n} for n in (0, 2, 4, 6, 13)], expect=("end",)),
	Harness("anybytes", "anybytes", [{"mode": m, "n": n} for m in ("srr", "srrf", "rar") for n in (1, 6, 7, 8, 11, 12)],
	        [{"mode": m, "n": n} for m in ("srr", "srrf", "rar") for n in range(1, 19)], expect=("error", "read")),
	Harness("truncate", "truncate", [{"mode": "srr"}, {"mode": "rar"}], expect=("error", "read")),
	Harness("small", "small", expect=("refused",)),
]
