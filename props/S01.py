"""SRR/RAR block encoding: what is written is what is read back."""
import struct
from symex.run import Harness
from props import common as C

PRELOAD = ("rescene.rar",)
BOUNDS = ("names: every string of up to 3 code points over all of Unicode, plus padded names around the 16-bit "
          "header limit; sizes, hashes, CRCs, flags and reserved fields: every value of their width; SRR padding "
          "and stored data of any length up to 2^20; RAR header fields: all values; up to 3 blocks per file")
OUTSIDE = "names of other lengths; more than 3 blocks in one file"


def _name(h, n, pad):
	h.sym = s = h.str("name", n, 0, 0x10FFFF if not pad else 0x7FF)
	return "p" * pad + s if pad else s


def _ulen(h):
	return h.case.get("pad", 0) + C.utf8len(h, h.sym)


def header(h):
	rar = h.mod("rescene.rar")
	name = _name(h, h.case["n"], h.case.get("pad", 0))
	try:
		b = rar.SrrHeaderBlock(appname=name)
	except (UnicodeEncodeError, struct.error):
		h.check(h.any(C.surrogate(h, h.sym), _ulen(h) > 65526),
		        "only unrepresentable names are refused")
		h.reach("rejected")
		return
	h.reach("ok")
	raw = b.block_bytes()
	c = rar.SrrHeaderBlock(raw, 0, "x.srr")
	h.eq(c.appname, name, "application name survives")
	h.eq(c.header_size, len(raw), "header size is the length of the block")
	h.check(h.all(c.rawtype == 0x69, c.crc == 0x6969), "magic")
	h.observe("raw", raw)


def stored(h):
	rar = h.mod("rescene.rar")
	name = _name(h, h.case["n"], h.case.get("pad", 0))
	size = h.int("size", 0, 0xFFFFFFFF)
	try:
		b = rar.SrrStoredFileBlock(file_name=name, file_size=size)
	except (AttributeError, UnicodeEncodeError, struct.error):
		h.check(h.any(C.surrogate(h, h.sym), _ulen(h) > 65522, C.bad_chars(h, h.sym), _ulen(h) == 0),
		        "only unrepresentable names are refused")
		h.reach("rejected")
		return
	h.reach("ok")
	raw = b.block_bytes()
	c = rar.SrrStoredFileBlock(raw, 20, "x.srr")
	h.eq(c.file_name, name, "name survives")
	h.eq(c.file_size, size, "size survives")
	h.eq(c.header_size, len(raw), "header size is the length of the block header")
	h.check(c.rawtype == 0x6A, "type")
	h.check(c.flags & 0x8000 == 0x8000, "LONG_BLOCK: stored data length is declared")
	h.eq(c.add_size, size, "additional size is the stored size")
	h.observe("raw", raw)


def rarfile(h):
	rar = h.mod("rescene.rar")
	name = _name(h, h.case["n"], h.case.get("pad", 0))
	try:
		b = rar.SrrRarFileBlock(file_name=name)
	except (UnicodeEncodeError, struct.error):
		h.check(h.any(C.surrogate(h, h.sym), _ulen(h) > 65526),
		        "only unrepresentable names are refused")
		h.reach("rejected")
		return
	h.reach("ok")
	raw = b.block_bytes()
	c = rar.SrrRarFileBlock(raw, 20, "x.srr")
	h.eq(c.file_name, name, "volume name survives")
	h.eq(c.header_size, len(raw), "header size is the length of the block header")
	h.check(c.rawtype == 0x71, "type")
	h.check(c.flags & 1 == 1, "recovery data is marked as removed")
	h.check(c.add_size == 0, "no data follows")
	h.observe("raw", raw)


def oso(h):
	rar = h.mod("rescene.rar")
	name = _name(h, h.case["n"], 0)
	size = h.int("size", 0, (1 << 64) - 1)
	v = h.int("oso", 0, (1 << 64) - 1)
	try:
		b = rar.SrrOsoHashBlock(file_size=size, file_name=name, oso_hash="%016x" % v)
	except (UnicodeEncodeError, struct.error):
		h.check(h.any(C.surrogate(h, h.sym), _ulen(h) > 65510),
		        "only unrepresentable names are refused")
		h.reach("rejected")
		return
	h.reach("ok")
	raw = b.block_bytes()
	c = rar.SrrOsoHashBlock(raw, 20, "x")
	h.eq(c.file_size, size, "size")
	h.eq(int(c.oso_hash, 16), v, "hash value")
	h.eq(len(c.oso_hash), 16, "hash text is 16 digits")
	h.eq(c.oso_hash, b.oso_hash, "hash text")
	h.eq(c.file_name, name, "name")
	h.eq(c.header_size, len(raw), "header size")
	h.observe("raw", raw)


def padding(h):
	rar = h.mod("rescene.rar")
	p = h.blob("pad", 0, 1 << 20)
	b = rar.SrrRarPaddingBlock(padding_bytes=p)
	raw = b.block_bytes()
	c = rar.SrrRarPaddingBlock(raw, 20, "x")
	h.eq(c.padding_size, len(p), "padding size")
	h.eq(c.header_size + c.padding_size, len(raw), "extent")
	h.eq(c.block_bytes()[c.header_size:], p, "padding bytes")
	h.observe("n", c.padding_size)


# ---- several blocks in one SRR file, read back with the reader
KINDS = ("stored", "rar", "oso", "pad")


def sequence(h):
	rar = h.mod("rescene.rar")
	k = h.case["k"]
	app = h.str("app", 1, 0x21, 0x7FF)
	blocks = [rar.SrrHeaderBlock(appname=app)]
	want = [("h", app, None)]
	content = b""
	raw = blocks[0].block_bytes()
	pos = [0]
	for i, kind in enumerate(k):
		pos.append(len(raw))
		nm = h.str("n%d" % i, 1, 0x80, 0x7FF)
		if kind == "stored":
			d = h.blob("d%d" % i, 0, 1 << 20)
			b = rar.SrrStoredFileBlock(file_name=nm, file_size=len(d))
			raw = raw + b.block_bytes() + d
			want.append((kind, nm, d))
		elif kind == "rar":
			b = rar.SrrRarFileBlock(file_name=nm)
			raw = raw + b.block_bytes()
			want.append((kind, nm, None))
		elif kind == "oso":
			v = h.int("o%d" % i, 0, (1 << 64) - 1)
			b = rar.SrrOsoHashBlock(file_size=v, file_name=nm, oso_hash="%016x" % v)
			raw = raw + b.block_bytes()
			want.append((kind, nm, v))
		else:
			d = h.blob("d%d" % i, 0, 1 << 20)
			b = rar.SrrRarPaddingBlock(padding_bytes=d)
			raw = raw + b.block_bytes()
			want.append((kind, None, d))
	h.assume(len(raw) >= 20)
	h.put("x.srr", raw)
	got = rar.RarReader(h.path("x.srr")).read_all()
	h.eq(len(got), len(want), "number of blocks")
	for g, w, p in zip(got, want, pos):
		h.eq(g.block_position, p, "position of " + w[0])
		if w[0] == "h":
			h.check(isinstance(g, rar.SrrHeaderBlock), "header")
			h.eq(g.appname, w[1], "application name")
		elif w[0] == "stored":
			h.check(isinstance(g, rar.SrrStoredFileBlock), "stored block")
			h.eq(g.file_name, w[1], "stored name")
			h.eq(g.file_size, len(w[2]), "stored size")
			h.eq(g.srr_data(), w[2], "stored data")
		elif w[0] == "rar":
			h.check(isinstance(g, rar.SrrRarFileBlock), "rar block")
			h.eq(g.file_name, w[1], "volume name")
		elif w[0] == "oso":
			h.check(isinstance(g, rar.SrrOsoHashBlock), "oso block")
			h.eq(g.file_name, w[1], "oso name")
			h.eq(g.file_size, w[2], "oso size")
			h.eq(g.oso_hash, "%016x" % w[2], "oso hash")
		else:
			h.check(isinstance(g, rar.SrrRarPaddingBlock), "padding block")
			h.eq(g.block_bytes()[g.header_size:], w[2], "padding data")
	h.reach("end")


# ---- RAR blocks: parsed fields are the encoded fields, bytes are kept verbatim
def rarhdr(h):
	rar = h.mod("rescene.rar")
	kind = h.case["b"]
	crc = h.int("crc", 0, 0xFFFF)
	if kind == "vol":
		fl, r1, r2 = h.int("flags", 0, 0x3FFF), h.int("r1", 0, 0xFFFF), h.int("r2", 0, 0xFFFFFFFF)
		raw = C.volhdr(fl, r1, r2, crc)
		b = rar.RarVolumeHeaderBlock(raw, 7, "x.rar")
		h.check(h.all(b.flags == fl, b.reserved1 == r1, b.reserved2 == r2), "fields")
	elif kind == "file":
		packed, unp = h.int("packed", 0, 0xFFFFFFFF), h.int("unp", 0, 0xFFFFFFFF)
		hp, hu = h.int("hp", 0, 0xFFFFFFFF), h.int("hu", 0, 0xFFFFFFFF)
		fcrc = h.int("fcrc", 0, 0xFFFFFFFF)
		fl = h.int("flags", 0, 0xFFFF)
		m, v = h.int("method", 0, 255), h.int("ver", 0, 255)
		dt, at, os_ = h.int("dt", 0, 0xFFFFFFFF), h.int("attr", 0, 0xFFFFFFFF), h.int("os", 0, 255)
		nm = h.str("name", h.case["n"], 1, 127)
		salt = h.bytes("salt", 8)
		h.assume(fl & (C.LARGE | C.UTF8 | C.SALT | C.EXTTIME) == 0)
		large, salted = h.case["large"], h.case["salt"]
		raw = C.filehdr(nm.encode("ascii"), packed, unp, fl | C.LONG, fcrc, os_, dt, v, m, at, crc,
		                (hp, hu) if large else None, salt if salted else b"")
		b = rar.RarPackedFileBlock(raw, 20, "x.rar")
		h.eq(b.file_name, nm, "file name")
		h.eq(b.packed_size, packed + (hp << 32 if large else 0), "packed size")
		h.eq(b.unpacked_size, unp + (hu << 32 if large else 0), "unpacked size")
		h.check(h.all(b.file_crc == fcrc, b.compression_method == m, b.rar_version == v, b.os == os_,
		              b.file_attributes == at), "fields")
		h.eq(b.add_size, b.packed_size, "data length")
		h.eq(b.is_compressed(), h.no(m == 0x30), "store method")
		if salted:
			h.eq(b.salt, salt, "salt")
	elif kind == "rr":
		s, d = h.int("s", 0, 0xFFFFFFFF), h.int("d", 0, (1 << 64) - 1)
		n = h.int("n", 0, 0xFFFFFFFF)
		raw = C.rr_newsub(b"", s, d, packed=n)
		b = rar.RarNewSubBlock(raw, 20, "x.rar")
		h.check(b.is_recovery, "is a recovery record")
		h.check(h.all(b.recovery_sectors == s, b.data_sectors == d, b.packed_size == n, b.add_size == n),
		        "recovery fields")
	elif kind == "cmt":
		n = h.int("n", 0, 0xFFFFFFFF)
		raw = C.newsub(b"CMT", b"", packed=n)
		b = rar.RarNewSubBlock(raw, 20, "x.rar")
		h.check(not b.is_recovery, "a comment is not a recovery record")
		h.eq(b.add_size, n, "data length")
	elif kind == "old":
		s, d = h.int("s", 0, 0xFFFF), h.int("d", 0, 0xFFFFFFFF)
		n, v = h.int("n", 0, 0xFFFFFFFF), h.int("v", 0, 255)
		raw = C.rr_old(b"", s, d, n, v)
		b = rar.RarOldRecoveryBlock(raw, 20, "x.rar")
		h.check(h.all(b.recovery_sectors == s, b.data_sectors == d, b.packed_size == n, b.add_size == n,
		              b.rar_version == v), "recovery fields")
	elif kind == "end":
		fl = h.int("flags", 0, 0x7FFF)
		a, v = h.int("a", 0, 0xFFFFFFFF), h.int("v", 0, 0xFFFF)
		body = b""
		if fl & 2:
			body = body + struct.pack("<I", a)
		if fl & 8:
			body = body + struct.pack("<H", v)
		raw = C.endblock(fl, body, crc)
		b = rar.RarEndArchiveBlock(raw, 20, "x.rar")
		h.eq(b.flags, fl, "flags")
	h.eq(b.block_bytes(), raw, "header bytes are kept verbatim")
	h.eq(b.header_size, len(raw), "header size")
	h.observe("hs", b.header_size)
	h.reach("end")


_seq2 = [[a, b] for a in KINDS for b in KINDS]
_pads = lambda full: [{"n": 1, "pad": full - x} for x in (1, 2, 3)] + [{"n": 1, "pad": full + 5}]
HARNESSES = [
	Harness("header", "header", [{"n": n} for n in range(0, 4)] + _pads(65526), expect=("ok", "rejected")),
	Harness("stored", "stored", [{"n": n} for n in range(0, 4)] + _pads(65522), expect=("ok", "rejected")),
	Harness("rarfile", "rarfile", [{"n": n} for n in range(1, 4)] + _pads(65526), expect=("ok", "rejected")),
	Harness("oso", "oso", [{"n": n} for n in range(0, 4)] + _pads(65510), expect=("ok",)),
	Harness("padding", "padding"),
	Harness("sequence", "sequence", [{"k": k} for k in _seq2],
	        [{"k": k + [x]} for k in _seq2 for x in KINDS], expect=("end",)),
	Harness("rarhdr", "rarhdr", [{"b": "vol"}, {"b": "rr"}, {"b": "cmt"}, {"b": "old"}, {"b": "end"}] +
	        [{"b": "file", "n": n, "large": l, "salt": s} for n in (1, 2) for l in (0, 1) for s in (0, 1)],
	        expect=("end",)),
]
