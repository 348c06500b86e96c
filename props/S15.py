"""Names and times of archived files are read as they were written."""
import struct
from symex.run import Harness
from props import common as C

PRELOAD = ("rescene.main",)
BOUNDS = ("names of up to 6 characters made of any of the four encodings of a character (low byte, common high byte, both bytes, runs of the "
          "plain name with and without correction), any bytes; UTF-8 names of 1-3 any characters; plain names of 1-3 any "
          "bytes; all 32-bit DOS times; every combination of the four extended times; all methods, dictionary sizes "
          "(but directories), versions and sizes")
OUTSIDE = "longer names; surrogates; malformed encoded names (S02)"


def _enc(h, ops):
	"""(std name, encoded bytes, expected code points)"""
	hi = h.int("hi", 0, 255)
	std, want = [], []
	data = []           # bytes of the encoded part
	flags, fl, nfl = None, 0, 0
	out = [hi]
	slot = None
	k = 0
	for o in ops:
		if nfl == 0:
			slot = len(out)
			out.append(0)
			fl = 0
			nfl = 8
		nfl -= 2
		t = o[0]
		fl |= t << nfl
		out[slot] = fl
		if t == 0:
			b = h.int("b%d" % k, 1, 255)
			out.append(b)
			std.append(h.int("s%d" % k, 1, 255))
			want.append(b)
			k += 1
		elif t == 1:
			b = h.int("b%d" % k, 0, 255)
			out.append(b)
			std.append(h.int("s%d" % k, 1, 255))
			want.append(b + hi * 256)
			k += 1
		elif t == 2:
			b, c = h.int("b%d" % k, 0, 255), h.int("c%d" % k, 0, 255)
			out += [b, c]
			std.append(h.int("s%d" % k, 1, 255))
			want.append(b + c * 256)
			k += 1
		else:
			n, corr = o[1], o[2]
			if corr:
				c = h.int("c%d" % k, 0, 255)
				out += [0x80 | n, c]
			else:
				out.append(n)
			for _ in range(n + 2):
				s = h.int("s%d" % k, 1, 255)
				std.append(s)
				want.append((s + c) % 256 + hi * 256 if corr else s)
				k += 1
	for w in want:
		h.assume(w > 0)
		h.assume(h.no(h.all(w >= 0xD800, w <= 0xDFFF)))
	return std, out, want


def _bytes(h, ints):
	b = b""
	for i in ints:
		b = b + struct.pack("<B", i)
	return b


def encoded(h):
	rar = h.mod("rescene.rar")
	std, enc, want = _enc(h, h.case["ops"])
	raw = _bytes(h, std) + b"\0" + _bytes(h, enc)
	salt = h.bytes("salt", 8) if h.case.get("salt") else b""
	hd = C.filehdr(raw, 10, 20, C.LONG | C.UTF8, salt=salt)
	b = rar.RarPackedFileBlock(hd, 0, "x.rar")
	h.check(len(b.file_name) == len(want), "length of the name")
	h.check(h.all(*[ord(c) == w for c, w in zip(b.file_name, want)]), "the name")
	h.eq(b.orig_filename, _bytes(h, std), "the plain name")
	if h.case.get("salt"):
		h.eq(b.salt, salt, "the salt")
	h.eq(b.block_bytes(), hd, "the header bytes are kept")
	h.reach("end")


def utf8(h):
	"""the flag without an encoded part: the name is UTF-8"""
	rar = h.mod("rescene.rar")
	n = h.str("n", h.case["n"], 1, 0x10FFFF)
	for c in n:
		h.assume(h.no(h.all(ord(c) >= 0xD800, ord(c) <= 0xDFFF)))
	b = rar.RarPackedFileBlock(C.filehdr(n.encode("utf-8"), 10, 20, C.LONG | C.UTF8), 0, "x.rar")
	h.eq(b.file_name, n, "the name")
	h.reach("end")


_CP1252 = {0x80: 0x20AC, 0x82: 0x201A, 0x83: 0x0192, 0x84: 0x201E, 0x85: 0x2026, 0x86: 0x2020, 0x87: 0x2021, 0x88: 0x02C6,
           0x89: 0x2030, 0x8A: 0x0160, 0x8B: 0x2039, 0x8C: 0x0152, 0x8E: 0x017D, 0x91: 0x2018, 0x92: 0x2019, 0x93: 0x201C,
           0x94: 0x201D, 0x95: 0x2022, 0x96: 0x2013, 0x97: 0x2014, 0x98: 0x02DC, 0x99: 0x2122, 0x9A: 0x0161, 0x9B: 0x203A,
           0x9C: 0x0153, 0x9E: 0x017E, 0x9F: 0x0178}


def plain(h):
	rar = h.mod("rescene.rar")
	raw = h.bytes("raw", h.case["n"])
	b = rar.RarPackedFileBlock(C.filehdr(raw, 10, 20), 0, "x.rar")
	h.check(len(b.file_name) == len(raw), "a character per byte")
	for c, x in zip(b.file_name, raw):
		w = 0xFFFD
		if h.any(x < 0x80, x >= 0xA0):
			w = x
		else:
			for k in sorted(_CP1252):
				if x == k:
					w = _CP1252[k]
					break
		h.check(ord(c) == w, "the character")
	h.eq(b.orig_filename, raw, "the bytes")
	h.reach("end")


def used(h):
	"""such a name finds its file when rebuilding, and shows in the listing"""
	m = h.mod("rescene.main")
	kind = h.case["kind"]
	n = h.str("n", 2, 1, 0xD7FF)
	if kind == "1252":
		h.assume(h.all(*[h.any(h.all(ord(c) > 0, ord(c) < 0x80), h.all(ord(c) >= 0xA0, ord(c) <= 0xFF)) for c in n]))
	for c in n:
		h.assume(h.no(h.any(ord(c) == 0x2F, ord(c) == 0x5C, ord(c) == 0x2E)))
	sub = h.case["sub"]
	full = (sub + "\\" if sub else "") + n + ".q"
	if kind == "utf8":
		raw = full.encode("utf-8")
	elif kind == "1252":
		raw = full.encode("latin-1")
	else:
		u = full.encode("utf-16-le")
		raw = b"?" * len(full) + b"\0" + b"\x20"
		for i in range(0, len(full), 4):
			k = len(full) - i
			raw = raw + b"\xaa" + u[2 * i:2 * i + 8]
	data = h.blob("data", 0, 70000)
	cut = h.int("cut", 0, 70000)
	h.assume(cut <= len(data))
	fl = C.LONG | (0 if kind == "1252" else C.UTF8)
	v0 = C.RAR_MARKER + C.volhdr(0x101) + C.filehdr(raw, cut, len(data), fl | 2, crc=h.int("fc0", 0, 0xFFFFFFFF))
	v1 = C.RAR_MARKER + C.volhdr(1) + C.filehdr(raw, len(data) - cut, len(data), fl | 1, crc=h.int("fc1", 0, 0xFFFFFFFF))
	e = C.endblock()
	h.put("rel/x.rar", v0 + data[:cut] + e)
	h.put("rel/x.r00", v1 + data[cut:] + e)
	h.put("src/" + (sub + "/" if sub else "") + n + ".q", data)
	m.create_srr(h.path("o.srr"), h.path("rel/x.rar"), h.path("rel"), oso_hash=False)
	r = m.info(h.path("o.srr"))["archived_files"]
	h.eq(list(r.keys()), [full], "listed under its name")
	h.check(r[full].file_size == len(data), "with its size")
	m.reconstruct(h.path("o.srr"), h.path("src"), h.path("out"), skip_rar_crc=True)
	h.eq(h.get("out/x.rar"), v0 + data[:cut] + e, "the volume is rebuilt")
	h.eq(h.get("out/x.r00"), v1 + data[cut:] + e, "the volume is rebuilt")
	h.reach("end")


def _dos(t):
	return ((t >> 25) + 1980, t >> 21 & 15, t >> 16 & 31, t >> 11 & 31, t >> 5 & 63, (t & 31) * 2)


def _same(h, got, t, one, rem, msg):
	w = _dos(t)
	h.check(h.all(*[g == x for g, x in zip(got[:5], w[:5])]), msg + " (minutes)")
	s = (w[5] + one) * 10000000 + rem
	v = got[5] * 10000000
	h.check(h.all(v < s + 1, v > s - 1), msg + " (seconds)")


def times(h):
	rar = h.mod("rescene.rar")
	dt = h.int("dt", 0, 0xFFFFFFFF)
	if h.case["ext"] is None:
		b = rar.RarPackedFileBlock(C.filehdr(b"a", 1, 1, dt=dt), 0, "x.rar")
		h.check(h.all(*[g == x for g, x in zip(b.file_datetime, _dos(dt))]), "the DOS time")
		h.check(b.mtime is None and b.atime is None and b.ctime is None and b.arctime is None, "no other times")
		h.reach("end")
		return
	flags = 0
	body = b""
	want = []
	for i, (name, x) in enumerate(zip(("mtime", "ctime", "atime", "arctime"), h.case["ext"])):
		if x is None:
			flags |= h.int("j" + name, 0, 7) << (12 - 4 * i)
			want.append((name, None) if i else (name, (dt, 0, 0)))
			continue
		one = h.int("one" + name, 0, 1)
		flags |= (8 | one << 2 | x) << (12 - 4 * i)
		t = dt
		if i:
			t = h.int("t" + name, 0, 0xFFFFFFFF)
			body = body + struct.pack("<I", t)
		rem = 0
		for k in range(x):
			b = h.int("r%s%d" % (name, k), 0, 255)
			body = body + struct.pack("<B", b)
			rem = rem + (b << 8 * (k + 3 - x))
		want.append((name, (t, one, rem)))
	tail = h.bytes("tail", h.case.get("tail", 0))
	hd = C.filehdr(b"a", 1, 1, dt=dt, ext=struct.pack("<H", flags) + body + tail)
	b = rar.RarPackedFileBlock(hd, 0, "x.rar")
	for name, w in want:
		g = getattr(b, name)
		if w is None:
			h.check(g is None, "no " + name)
		else:
			_same(h, g, w[0], w[1], w[2], name)
	h.eq(b.block_bytes(), hd, "the header bytes are kept")
	h.reach("end")


def settings(h):
	"""compression method, dictionary, version and size of a file"""
	rar = h.mod("rescene.rar")
	d = h.int("dict", 0, 6)
	rest = h.int("low", 0, 31)
	m = h.int("method", 0, 5)
	ver = h.int("ver", 0, 255)
	big = h.case["big"]
	p, u, hp, hu = (h.int(k, 0, 0xFFFFFFFF) for k in ("packed", "unpacked", "hp", "hu"))
	b = rar.RarPackedFileBlock(C.filehdr(b"a", p, u, flags=0x8000 | d << 5 | rest, method=0x30 + m, ver=ver, high=(hp, hu) if big else None), 0, "x.rar")
	h.check(b.get_dict_size() == 65536 << d, "the dictionary size")
	par = b.get_dictionary_size_parameter()
	h.check(len(par) == 4 and par[:3] == "-md" and ord(par[3]) == 65 + d, "the option for the dictionary")
	h.check(int(b.get_dictionary().split(" ")[2]) == 64 << d, "the text for the dictionary")
	h.check(h.all(b.is_compressed() == (m != 0)), "only the method Store doesn't compress")
	par = b.get_compression_parameter()
	h.check(len(par) == 3 and par[:2] == "-m" and ord(par[2]) == 48 + m, "the option for the method")
	h.check(b.version == ver if hasattr(b, "version") else b.rar_version == ver, "the version that is needed")
	h.check(h.all(b.packed_size == p + (hp << 32 if big else 0), b.unpacked_size == u + (hu << 32 if big else 0)), "the sizes")
	h.reach("end")


_OPS = [[(0,)], [(1,)], [(2,)], [(3, 0, 0)], [(3, 1, 1)], [(0,), (1,), (2,)], [(2,), (0,), (1,), (1,), (2,)], [(0,), (3, 1, 0), (2,)],
        [(1,), (3, 0, 1), (0,)], [(3, 0, 0), (3, 0, 1)], [(0,), (0,), (0,), (0,), (3, 0, 0)]]
_X = [(0, None, None, None), (3, None, None, None), (2, 1, None, None), (1, 0, 2, None), (3, 3, 3, 3), (None, 3, None, None), (None, None, 1, None),
      (None, None, None, 0), (None, None, None, None)]
HARNESSES = [
	Harness("encoded", "encoded", [{"ops": o} for o in _OPS] + [{"ops": _OPS[5], "salt": 1}], expect=("end",)),
	Harness("utf8", "utf8", [{"n": n} for n in (1, 2, 3)], expect=("end",)),
	Harness("plain", "plain", [{"n": n} for n in (1, 2)], [{"n": 3}], expect=("end",)),
	Harness("used", "used", [{"kind": k, "sub": s} for k in ("utf16", "utf8", "1252") for s in ("", "Sub")], expect=("end",)),
	Harness("times", "times", [{"ext": None}] + [{"ext": x, "tail": t} for x in _X for t in (0, 2)], expect=("end",)),
	Harness("settings", "settings", [{"big": 0}, {"big": 1}], expect=("end",)),
]
