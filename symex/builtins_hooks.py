"""Hooks for builtins and C-implemented library functions."""
import binascii
import builtins
import collections
import functools
import hashlib
import io
import operator
import re
import struct
import sys
import time
import zlib
import z3
from . import terms as T
from .terms import (Sym, SymInt, SymBool, EngineGap, PathCut, and_, or_, not_, ite, is_sym,
                    mk_int, bits_for, int_bytes_le, bytes_int_le)
from .seqs import (SymBytes, SymStr, SymByteArray, SeqBase, Lit, Rep, Ext,
                   as_rope, as_bytes_like, in_ranges)


def install(rt):
	from . import rt as R
	H = rt.hooks
	has_sym = R.has_sym

	H[len] = R.len_

	def h_range(*a):
		if not has_sym(a):
			return range(*a)
		if len(a) == 1:
			return R.SxRange(0, a[0], 1)
		if len(a) == 2:
			return R.SxRange(a[0], a[1], 1)
		return R.SxRange(a[0], a[1], a[2] if not is_sym(a[2]) else T.ENG.concretize(a[2]))
	H[range] = h_range

	def h_ord(c):
		if isinstance(c, SeqBase):
			n = c.length()
			if n != 1:
				raise TypeError("ord() expected a character, but string of length found")
			return c.elems()[0]
		if isinstance(c, SymByteArray):
			return h_ord(as_rope(c))
		return ord(c)
	H[ord] = h_ord

	def h_chr(i):
		if isinstance(i, SymInt):
			if i < 0 or i > 0x10FFFF:
				raise ValueError("chr() arg not in range(0x110000)")
			return SymStr.mk([i])
		return chr(i)
	H[chr] = h_chr

	def h_int(x=0, base=None):
		if isinstance(x, T.SymFloat):
			return x.trunc()
		if isinstance(x, SymBool):
			return x.toint()
		if isinstance(x, SymInt):
			return x
		if isinstance(x, (SymStr, SymBytes)):
			return parse_int(x, 10 if base is None else base)
		if isinstance(x, SymByteArray):
			return h_int(x.v, base) if base is not None else h_int(x.v)
		if base is not None:
			return int(x, base)
		return int(x)
	H[int] = h_int

	def parse_int(x, base):
		if base == 16:
			v = known_hex(x)
			if v is not None:
				return v
		cs = x.strip()
		if isinstance(cs, (str, bytes)):
			return int(cs, base)
		cs = list(cs.elems())
		neg = False

		def bad():
			raise ValueError("invalid literal for int() with base %d" % base)
		if cs and or_(cs[0] == 45, cs[0] == 43):
			neg = bool(cs[0] == 45)
			cs = cs[1:]
		if base == 16 and len(cs) > 2 and cs[0] == 48 and or_(cs[1] == 120, cs[1] == 88):
			cs = cs[2:]
		if base == 0:
			raise EngineGap("int base 0")
		if not cs:
			bad()
		r = 0
		prev_us = True
		for i, c in enumerate(cs):
			if not isinstance(c, int) and isinstance(x, SymStr) and T.rng(c)[1] > 127:
				if not (c < 128):
					raise EngineGap("int() of non-ascii digits")
			if c == 95:
				if prev_us or i == len(cs) - 1:
					bad()
				prev_us = True
				continue
			prev_us = False
			d = digit_val(c, base)
			if d is None:
				bad()
			r = r * base + d
		return -r if neg else r

	def known_hex(x):
		"""digits that come from formatting a number, or that the path
		condition makes hexadecimal digits: no fork per digit"""
		cs = list(x.elems())
		if not cs or len(cs) > 64:
			return None
		r = 0
		conds = []
		for c in cs:
			if isinstance(c, int):
				d = int(chr(c), 16) if chr(c) in "0123456789abcdefABCDEF" else None
			else:
				d = T.ENG.hexdig.get((c.c, tuple(sorted(c.t.items()))))
				if d is None and isinstance(x, SymStr) and T.rng(c)[1] > 127:
					return None
				if d is None:
					conds.append(in_ranges(c, [(48, 57), (65, 70), (97, 102)]))
					d = ite(c < 58, c - 48, ite(c < 97, c - 55, c - 87))
			if d is None:
				return None
			r = r * 16 + d
		if conds and not T.ENG.must(and_(*conds)):
			return None
		return r

	def digit_val(c, base):
		if isinstance(c, int):
			try:
				return int(chr(c), base)
			except ValueError:
				return None
		rs = [(48, 47 + min(base, 10))]
		if base > 10:
			rs += [(65, 64 + base - 10), (97, 96 + base - 10)]
		if not in_ranges(c, rs):
			return None
		if base <= 10:
			return c - 48
		return ite(c < 58, c - 48, ite(c < 97, c - 55, c - 87))

	def h_str(x="", *a):
		if a:
			if isinstance(x, (SymBytes, SymByteArray)):
				return rt.decode(as_rope(x), *a)
			return str(x, *a)
		if isinstance(x, Sym) or R._deep_objs(x) or has_sym(x):
			if isinstance(x, SymStr):
				return x
			if isinstance(x, SymBool):
				return str(bool(x))
			return SymStr.lazy(lambda: rt.to_str(x)) if isinstance(x, Sym) else rt.to_str(x)
		return str(x)
	H[str] = h_str

	def h_repr(x):
		if isinstance(x, Sym):
			return SymStr.lazy(lambda: rt.fmt1(x, "", None, None, "r"))
		return repr(x)
	H[repr] = h_repr

	def h_bytes(x=b"", *a):
		if isinstance(x, (SymBytes, SymByteArray)):
			return as_bytes_like(x)
		if isinstance(x, SymStr):
			return x.encode(*a)
		if isinstance(x, SymInt):
			if x < 0:
				raise ValueError("negative count")
			return rt.repeat(b"\x00", x)
		if isinstance(x, (list, tuple)) or hasattr(x, "__next__") or isinstance(x, R.SxRange):
			x = list(x)
			if has_sym(x):
				for v in x:
					if is_sym(v) and (v < 0 or v > 255):
						raise ValueError("bytes must be in range(0, 256)")
				return SymBytes.lit(x)
		return bytes(x, *a)
	H[bytes] = h_bytes

	def h_bytearray(x=b"", *a):
		if isinstance(x, SymByteArray):
			return SymByteArray(x.v)
		if isinstance(x, (bytes, bytearray)):
			return SymByteArray(bytes(x))
		return SymByteArray(h_bytes(x, *a))
	H[bytearray] = h_bytearray
	H[memoryview] = lambda x: x if isinstance(x, (SymBytes, SymByteArray)) else memoryview(x)

	def symtype(x):
		if isinstance(x, SymStr):
			return str
		if isinstance(x, SymBytes):
			return bytes
		if isinstance(x, SymByteArray):
			return bytearray
		if isinstance(x, SymInt):
			return int
		if isinstance(x, T.SymFloat):
			return float
		if isinstance(x, SymBool):
			return bool
		if isinstance(x, R.SxSet):
			return set
		if type(x) in (R.SxDict,):
			return dict
		if type(x) is R.SxList:
			return list
		t = getattr(type(x), "_sx_type", None)
		return t

	rt.symtype = symtype

	def h_isinstance(x, cls):
		t = symtype(x)
		if t is not None:
			if isinstance(cls, tuple):
				return any(h_isinstance(x, c) for c in cls)
			try:
				if issubclass(t, cls):
					return True
			except TypeError:
				pass
		return isinstance(x, cls)
	H[isinstance] = h_isinstance

	def h_type(*a):
		if len(a) == 1:
			return symtype(a[0]) or type(a[0])
		return type(*a)
	H[type] = h_type

	def mm(name, less):
		native = getattr(builtins, name)

		def f(*a, **kw):
			items = list(a[0]) if len(a) == 1 else list(a)
			key = kw.get("key")
			if key is None and not has_sym(items):
				if len(a) == 1 and not items:
					return native(items, **kw)
				return native(items)
			if not items:
				if "default" in kw:
					return kw["default"]
				raise ValueError("%s() arg is an empty sequence" % name)
			best = items[0]
			kb = rt.call(key, best) if key else best
			for x in items[1:]:
				kx = rt.call(key, x) if key else x
				if (kx < kb) if less else (kx > kb):
					best, kb = x, kx
			return best
		return f
	H[min] = mm("min", True)
	H[max] = mm("max", False)

	def h_sum(it, start=0):
		r = start
		for x in it:
			r = r + x
		return r
	H[sum] = h_sum
	H[abs] = lambda x: abs(x)
	H[divmod] = lambda a, b: (a // b, a % b) if has_sym((a, b)) else divmod(a, b)
	H[hex] = lambda x: rt.join("", ["0x", rt.hexstr(x, False, 0)]) if is_sym(x) else hex(x)
	H[bool] = lambda x=False: bool(x)
	H[print] = lambda *a, **k: None
	H[callable] = callable

	def h_dict(*a, **k):
		return R.SxDict(*a, **k)
	H[dict] = h_dict
	H[set] = lambda it=(): R.SxSet(it)
	H[frozenset] = lambda it=(): R.SxSet(it)
	H[collections.OrderedDict] = h_dict
	H[collections.defaultdict] = lambda f=None, *a: R.SxDefaultDict(f, *a)

	def h_map(f, *its):
		if len(its) == 1:
			return [rt.call(f, x) for x in its[0]]
		return [rt.call(f, *xs) for xs in zip(*its)]
	H[map] = h_map

	def h_filter(f, it):
		return [x for x in it if (x if f is None else rt.call(f, x))]
	H[filter] = h_filter

	def h_sorted(it, key=None, reverse=False):
		l = list(it)
		if key is not None and not isinstance(key, functools.partial):
			k = lambda x: rt.call(key, x)
		else:
			k = key
		return sorted(l, key=k, reverse=reverse)
	H[sorted] = h_sorted

	def h_getattr(o, n, *d):
		if isinstance(n, SymStr):
			n = n.concrete()
		return getattr(o, n, *d)
	H[getattr] = h_getattr

	def h_setattr(o, n, v):
		if isinstance(n, SymStr):
			n = n.concrete()
		return setattr(o, n, v)
	H[setattr] = h_setattr

	def h_hasattr(o, n):
		if isinstance(n, SymStr):
			n = n.concrete()
		return hasattr(o, n)
	H[hasattr] = h_hasattr

	def h_iter(o, *a):
		return iter(o, *a)
	H[iter] = h_iter

	def h_reversed(x):
		if isinstance(x, (SymBytes, SymByteArray)):
			return iter(list(as_rope(x).elems())[::-1])
		if isinstance(x, SymStr):
			return iter([SymStr.mk([c]) for c in x.elems()][::-1])
		return reversed(x)
	H[reversed] = h_reversed

	def h_reduce(f, it, *init):
		it = iter(it)
		acc = init[0] if init else next(it)
		for x in it:
			acc = rt.call(f, acc, x)
		return acc
	H[functools.reduce] = h_reduce

	# operator module equivalents that matter
	H[operator.contains] = lambda a, b: rt.contains(a, b)
	H[operator.getitem] = lambda a, b: rt.getitem(a, b)

	# int.from_bytes
	def from_bytes(b, byteorder="big", signed=False):
		if isinstance(b, (bytes, bytearray)):
			return int.from_bytes(b, byteorder, signed=signed)
		e = as_rope(b).elems() if isinstance(b, (SymBytes, SymByteArray)) else list(b)
		if byteorder == "big":
			e = e[::-1]
		v = bytes_int_le(e)
		if signed and e:
			if v >= (1 << (8 * len(e) - 1)):
				v = v - (1 << (8 * len(e)))
		return v
	rt.method_hooks[(int, "from_bytes")] = from_bytes

	def fromhex(s):
		return unhex(s.replace(" ", "") if not isinstance(s, str) else s)
	rt.method_hooks[(bytes, "fromhex")] = fromhex

	# ------------------------------------------------------------- struct
	H[struct.unpack] = lambda fmt, data: st_unpack(fmt, data)
	H[struct.pack] = lambda fmt, *a: st_pack(fmt, *a)
	H[struct.calcsize] = lambda fmt: struct.calcsize(fmt)
	H[struct.unpack_from] = lambda fmt, data, offset=0: st_unpack(
		fmt, rt.getitem(data, slice(offset, offset + struct.calcsize(fmt))))

	class SxStruct(object):
		def __init__(self, fmt):
			self.format = fmt
			self.size = struct.calcsize(fmt)

		def pack(self, *a):
			return st_pack(self.format, *a)

		def unpack(self, d):
			return st_unpack(self.format, d)

		def unpack_from(self, d, offset=0):
			return st_unpack(self.format, rt.getitem(d, slice(offset, offset + self.size)))
	H[struct.Struct] = SxStruct
	rt.wrap_struct = lambda s: SxStruct(s.format)

	# ------------------------------------------------------------- crc etc
	H[zlib.crc32] = lambda data, value=0: crc32(rt, data, value)
	H[binascii.crc32] = lambda data, value=0: crc32(rt, data, value)

	def hexlify(d, *a):
		if isinstance(d, (SymBytes, SymByteArray)):
			return as_rope(d).hex().encode("ascii")
		return binascii.hexlify(d, *a)
	H[binascii.hexlify] = hexlify
	H[binascii.b2a_hex] = hexlify

	def unhex(s):
		if not isinstance(s, Sym):
			return binascii.unhexlify(s)
		cs = s.elems()
		if len(cs) % 2:
			raise binascii.Error("Odd-length string")
		out = []
		for i in range(0, len(cs), 2):
			hi, lo = digit_val(cs[i], 16), digit_val(cs[i + 1], 16)
			if hi is None or lo is None:
				raise binascii.Error("Non-hexadecimal digit found")
			out.append(hi * 16 + lo)
		return SymBytes.lit(out)
	H[binascii.unhexlify] = unhex
	H[binascii.a2b_hex] = unhex

	class SxHash(object):
		def __init__(self, name, data=b""):
			self.name = name
			self.data = b""
			if R.len_(data):
				self.update(data)

		def update(self, d):
			self.data = self.data + as_bytes_like(d)

		def copy(self):
			return SxHash(self.name, self.data)

		def hexdigest(self):
			if isinstance(self.data, bytes):
				return hashlib.new(self.name, self.data).hexdigest()
			return Digest(self.name, self.data)

		def digest(self):
			if isinstance(self.data, bytes):
				return hashlib.new(self.name, self.data).digest()
			raise EngineGap("binary digest of symbolic data")
	for nm in ("md5", "sha1", "sha256"):
		H[getattr(hashlib, nm)] = functools.partial(SxHash, nm)
	H[hashlib.new] = lambda nm, d=b"": SxHash(nm, d)

	# ------------------------------------------------------------- misc
	H[time.time] = lambda: 1.0e9
	H[time.sleep] = lambda *a: None
	H[sys.exit] = sys.exit
	from . import sre
	sre.install(rt)
	from . import vfs
	vfs.install(rt)


class Digest(Sym):
	"""Collision-free digest of a symbolic rope."""

	def __init__(self, name, data):
		self.name = name
		self.data = data

	def __eq__(self, o):
		if isinstance(o, Digest):
			return self.name == o.name and self.data == o.data
		return False

	def __ne__(self, o):
		return not_(self == o)

	def lower(self):
		return self
	upper = strip = lower
	__hash__ = None

	def __repr__(self):
		return "Digest(%s)" % self.name


POLY = 0xEDB88320
CRC_EXACT = 24


def crc_step_sym(c, b):
	"""c: BitVec32 expr, b: BitVec8 expr"""
	c = c ^ z3.ZeroExt(24, b)
	for _ in range(8):
		lsb = z3.Extract(0, 0, c)
		c = z3.If(lsb == 1, z3.LShR(c, 1) ^ z3.BitVecVal(POLY, 32), z3.LShR(c, 1))
	return c


_crc_rows = None


def crc_lin(c, b):
	"""one byte step as XOR of table rows selected by bits (linear form)"""
	global _crc_rows
	if _crc_rows is None:
		tab = []
		for n in range(256):
			x = n
			for _ in range(8):
				x = (x >> 1) ^ POLY if x & 1 else x >> 1
			tab.append(x)
		_crc_rows = [tab[1 << i] for i in range(8)]
	idx = z3.Extract(7, 0, c) ^ b
	r = z3.LShR(c, 8)
	for i in range(8):
		bit = z3.Extract(i, i, idx)
		r = r ^ (z3.SignExt(31, bit) & z3.BitVecVal(_crc_rows[i], 32))
	return r


def crc32(rt, data, value=0):
	"""zlib.crc32.  Exact (bit-precise) for short literals; for symbolic-length
	or long content an uninterpreted value keyed by the whole hashed rope."""
	E = T.ENG
	prev = None
	if isinstance(value, SymInt):
		value = value & 0xFFFFFFFF
	if isinstance(value, SymInt):
		a = value.single()
		if a is not None and isinstance(a.tag, tuple) and a.tag[0] == "crc":
			prev = a.tag[1]
	if isinstance(data, (bytes, bytearray)) and isinstance(value, int):
		if getattr(E, "crc_hist", None) is None:
			E.crc_hist = {}
		v = zlib.crc32(bytes(data), value)
		h = E.crc_hist.get(value) if value else b""
		if h is not None and len(h) + len(data) < 65536:
			E.crc_hist.setdefault(v, h + bytes(data))
		return v
	if isinstance(data, (bytes, bytearray)) and len(data) == 0:
		return value
	rope = as_rope(data)
	if prev is not None:
		full = SymBytes(list(prev.segs) + list(rope.segs))
	elif isinstance(value, int) and value == 0:
		full = rope
	elif isinstance(value, int) and getattr(E, "crc_hist", None) and value in E.crc_hist:
		full = SymBytes([Lit(list(E.crc_hist[value]))] + list(rope.segs))
	else:
		# unknown seed: needs a concrete length
		return crc_exact(rope.elems(), value)
	n = full.length()
	if not isinstance(n, int) and n == 0:
		return 0
	if isinstance(n, int) and n <= CRC_EXACT or all(
			isinstance(s, Lit) and all(isinstance(x, int) for x in s.b) for s in full.segs):
		r = crc_exact(full.elems(), 0)
		if isinstance(r, SymInt) and r.single() is not None and r.single().tag is None:
			r.single().tag = ("crc", full)
		return r
	# one value per content: the same (or provably the same) bytes have the
	# same checksum
	ck = None
	for k, v in E.crcs:
		d = k.length() - n
		if not isinstance(d, int):
			# equal all the same when the path says so: worth it for plain slices
			if len(k.segs) > 2 or len(full.segs) > 2:
				continue
		elif d != 0:
			continue
		if k.key() == full.key():
			return v
		if ck is None:
			ck = canon(full)
		if canon(k) == ck:
			return v
	e = E.fresh_bv("crc", 32)
	v = mk_int(e, tag=("crc", full))
	E.crcs.append((full, v))
	E.tainted.add(e.get_id())
	return v


def rope_same(a, b):
	"""syntactic equality after canonicalisation; no forks"""
	return canon(a) == canon(b)


def canon(r):
	"""expand literal selects of one source into extents"""
	out = []
	for s in r.segs:
		if isinstance(s, Lit):
			for x in s.b:
				ent = None
				if isinstance(x, SymInt):
					a = x.single()
					if a is not None and z3.is_app(a.e) and a.e.num_args() == 1 and \
							a.e.decl().name().startswith("src_"):
						ent = ("E", a.e.decl().name()[4:], z3.simplify(a.e.arg(0)), 1)
				if ent and out and out[-1][0] == "E" and out[-1][1] == ent[1]:
					p = out[-1]
					nxt = z3.simplify(p[2] + _bv64(p[3]))
					if nxt.eq(ent[2]):
						out[-1] = ("E", p[1], p[2], p[3] + 1)
						continue
				out.append(ent or ("B", x if isinstance(x, int) else (x.c,) + tuple(sorted(x.t.items()))))
		elif isinstance(s, Ext):
			st = z3.simplify(_bv64(s.start))
			if out and out[-1][0] == "E" and out[-1][1] == s.src.name:
				p = out[-1]
				if z3.simplify(p[2] + _bv64(p[3])).eq(st):
					out[-1] = ("E", p[1], p[2], p[3] + s.len)
					continue
			out.append(("E", s.src.name, st, s.len))
		else:
			out.append(s.key())
	res = []
	for o in out:
		if o[0] == "E":
			ln = o[3]
			res.append(("E", o[1], o[2].sexpr(), ln if isinstance(ln, int)
			            else (ln.c,) + tuple(sorted(ln.t.items()))))
		else:
			res.append(o)
	return res


def _bv64(x):
	return z3.BitVecVal(x, 64) if isinstance(x, int) else x.bv(64)


def crc_exact(elems, value):
	c = T.bv(value, 32) ^ z3.BitVecVal(0xFFFFFFFF, 32)
	for b in elems:
		c = crc_lin(c, T.bv(b, 8))
	return mk_int(z3.simplify(c ^ z3.BitVecVal(0xFFFFFFFF, 32)))


# ------------------------------------------------------------------ struct
_SZ = {"b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}
_SZN = dict(_SZ, l=8, L=8)


def parse_fmt(fmt):
	if isinstance(fmt, SymStr):
		fmt = fmt.concrete()
	if isinstance(fmt, bytes):
		fmt = fmt.decode("ascii")
	struct.calcsize(fmt)
	order = "@"
	f = fmt
	if f and f[0] in "<>!=@":
		order, f = f[0], f[1:]
	big = order in ">!" or (order in "=@" and sys.byteorder == "big")
	sizes = _SZN if order == "@" else _SZ
	items = []
	pos = 0
	for m in re.finditer(r"(\d*)([a-zA-Z?])|\s+", f):
		if m.group(2) is None:
			continue
		cnt = int(m.group(1)) if m.group(1) else None
		c = m.group(2)
		if c == "s":
			items.append(("s", cnt if cnt is not None else 1))
		elif c == "x":
			items.append(("x", cnt if cnt is not None else 1))
		elif c == "c":
			items.extend([("c", 1)] * (cnt if cnt is not None else 1))
		elif c in sizes:
			sz = sizes[c]
			for _ in range(cnt if cnt is not None else 1):
				if order == "@" and pos % sz:
					raise EngineGap("native struct alignment")
				items.append((c, sz))
				pos += sz
			continue
		else:
			items.append((c, struct.calcsize("<" + c)))
		pos += items[-1][1]
	return items, big, sum(n for _, n in items)


def st_unpack(fmt, data):
	if isinstance(data, (bytes, bytearray)):
		return struct.unpack(fmt, data)
	items, big, size = parse_fmt(fmt)
	if not isinstance(data, (SymBytes, SymByteArray)):
		raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
	rope = as_rope(data)
	if rope.length() != size:
		raise struct.error("unpack requires a buffer of %d bytes" % size)
	# length proven equal to size: read positions directly
	out = []
	pos = 0
	for c, n in items:
		if c == "s":
			out.append(rope.sub(pos, pos + n) if n else b"")
		elif c == "x":
			pass
		elif c == "c":
			out.append(SymBytes.lit([rope.byte(pos)]))
		elif c in _SZ:
			e = [rope.byte(pos + i) for i in range(n)]
			if big:
				e = e[::-1]
			v = bytes_int_le(e)
			if c == "?":
				v = v != 0
			elif c in "bhilq":
				if isinstance(v, int):
					v = v - (1 << 8 * n) if v >> (8 * n - 1) else v
				else:
					v = T.from_signed(v.bv(8 * n), 8 * n)
			out.append(v)
		else:
			raw = SymBytes([Lit([rope.byte(pos + i) for i in range(n)])])
			out.append(struct.unpack((">" if big else "<") + c, T.ENG.rt.force(raw))[0])
		pos += n
	return tuple(out)


def st_pack(fmt, *args):
	from . import rt as R
	if not R.has_sym(args):
		return struct.pack(fmt, *args)
	items, big, size = parse_fmt(fmt)
	if len([1 for c, n in items if c != "x"]) != len(args):
		raise struct.error("pack expected %d items for packing (got %d)" % (len(items), len(args)))
	segs = []
	i = 0
	for c, n in items:
		if c == "x":
			segs.append(Lit([0] * n))
			continue
		v = args[i]
		i += 1
		if c == "s":
			r = as_rope(v) if isinstance(v, (bytes, bytearray, SymBytes, SymByteArray)) else None
			if r is None:
				raise struct.error("argument for 's' must be a bytes object")
			ln = r.length()
			if ln >= n:
				segs.extend(as_rope(r[0:n]).segs)
			else:
				segs.extend(r.segs)
				ln = ln if isinstance(ln, int) else None
				if ln is None:
					raise EngineGap("pack s of symbolic length")
				segs.append(Lit([0] * (n - ln)))
		elif c == "c":
			r = as_rope(v)
			if r.length() != 1:
				raise struct.error("char format requires a bytes object of length 1")
			segs.append(Lit([r.byte(0)]))
		elif c in _SZ:
			if isinstance(v, SymBool):
				v = v.toint()
			if not isinstance(v, (int, SymInt)):
				raise struct.error("required argument is not an integer")
			if c == "?":
				segs.append(Lit([ite(v != 0, 1, 0)]))
				continue
			if c in "bhilq":
				lo, hi = -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
			else:
				lo, hi = 0, (1 << 8 * n) - 1
			if v < lo or v > hi:
				raise struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
			if c in "bhilq" and isinstance(v, SymInt) and T.rng(v)[0] < 0:
				v = mk_int(v.bv(8 * n))
			b = int_bytes_le(v, n)
			segs.append(Lit(b[::-1] if big else b))
		else:
			segs.append(Lit(list(struct.pack((">" if big else "<") + c, T.ENG.rt.force(v)))))
	return SymBytes(segs).norm_out()
