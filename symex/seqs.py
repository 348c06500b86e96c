"""Symbolic byte ropes and strings."""
import z3
from . import terms as T
from .terms import (Sym, SymInt, SymBool, EngineGap, and_, or_, not_, mk_bool,
                    bool_e, ite, is_sym, bits_for)

WIDE = 64


def length_of(x):
	if isinstance(x, SeqBase):
		return x.length()
	return len(x)


# --------------------------------------------------------------------------
# character classes
_range_cache = {}


def ranges_of(pred, lo, hi):
	"""maximal ranges of code points in [lo,hi] satisfying pred"""
	key = (pred, lo, hi)
	r = _range_cache.get(key)
	if r is None:
		r = []
		start = None
		for c in range(lo, hi + 1):
			if pred(c):
				if start is None:
					start = c
			elif start is not None:
				r.append((start, c - 1))
				start = None
		if start is not None:
			r.append((start, hi))
		_range_cache[key] = r
	return r


def in_ranges(c, rs):
	"""SymBool: c within one of the ranges"""
	if isinstance(c, int):
		return any(a <= c <= b for a, b in rs)
	parts = []
	for a, b in rs:
		parts.append(c == a if a == b else and_(c >= a, c <= b))
	return or_(*parts)


def char_pred(c, pred):
	if isinstance(c, int):
		return bool(pred(c))
	lo, hi = c.rng()
	if hi - lo > 0x3000:
		# restrict lazily: ASCII first
		if c < 0x180:
			hi = 0x17F
		else:
			lo = max(lo, 0x180)
	return in_ranges(c, ranges_of(pred, max(lo, 0), hi))


def char_map(c, f):
	"""map a code point with f: int->int, merged over ranges"""
	if isinstance(c, int):
		return f(c)
	lo, hi = c.rng()
	lo = max(lo, 0)
	if hi - lo > 0x3000:
		if c < 0x180:
			hi = 0x17F
		else:
			lo = max(lo, 0x180)
	key = ("map", f, lo, hi)
	r = _range_cache.get(key)
	if r is None:
		r = []
		for x in range(lo, hi + 1):
			y = f(x)
			d = None if y is None else y - x
			if r and r[-1][2] == d:
				r[-1][1] = x
			else:
				r.append([x, x, d])
		_range_cache[key] = r
	bad = [(a, b) for a, b, d in r if d is None]
	if bad and in_ranges(c, bad):
		return None
	by = {}
	for a, b, d in r:
		if d is not None and d != 0:
			by.setdefault(d, []).append((a, b))
	out = c
	for d, rs in by.items():
		out = ite(in_ranges(c, rs), c + d, out)
	return out


def _lower1(x):
	s = chr(x).lower()
	return ord(s) if len(s) == 1 else None


def _upper1(x):
	s = chr(x).upper()
	return ord(s) if len(s) == 1 else None


def _blower(x):
	return x + 32 if 65 <= x <= 90 else x


def _bupper(x):
	return x - 32 if 97 <= x <= 122 else x


def _isspace(x):
	return chr(x).isspace()


def _isdigit(x):
	return chr(x).isdigit()


def _isalpha(x):
	return chr(x).isalpha()


def _isalnum(x):
	return chr(x).isalnum()


def _isupper(x):
	return chr(x).isupper()


def _islower(x):
	return chr(x).islower()


def _cased(x):
	return chr(x).isupper() or chr(x).islower()


def _bspace(x):
	return x in (9, 10, 11, 12, 13, 32)


def _linebrk(x):
	return x in (0x0a, 0x0b, 0x0c, 0x0d, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029)


def _blinebrk(x):
	return x in (0x0a, 0x0d)


def _bdigit(x):
	return 48 <= x <= 57


class SeqBase(Sym):
	"""Shared element-wise algorithms (str code points / literal bytes)."""
	__slots__ = ()

	def elems(self):
		raise NotImplementedError

	def length(self):
		return len(self.elems())

	def __len__(self):
		n = self.length()
		return n if isinstance(n, int) else n.__index__()

	def __hash__(self):
		return hash(self.concrete())

	def __iter__(self):
		i = 0
		while True:
			if not (i < self.length()):
				return
			yield self[i]
			i += 1

	def __bool__(self):
		return bool(self.length() > 0)
	__nonzero__ = __bool__

	def __mul__(self, n):
		return self.repeat(n)
	__rmul__ = __mul__

	def __ne__(self, o):
		return not_(self.__eq__(o))

	# ordering -----------------------------------------------------------
	def _cmp_lt(self, o, orequal):
		a, b = self.elems(), self.coerce(o)
		if b is None:
			return NotImplemented
		# fold from the end
		n = min(len(a), len(b))
		if len(a) < len(b):
			r = True
		elif len(a) > len(b):
			r = False
		else:
			r = orequal
		for i in range(n - 1, -1, -1):
			lt = a[i] < b[i]
			eq = a[i] == b[i]
			r = or_(lt, and_(eq, r))
		return r

	def __lt__(self, o):
		return self._cmp_lt(o, False)

	def __le__(self, o):
		return self._cmp_lt(o, True)

	def __gt__(self, o):
		r = self._cmp_lt(o, True)
		return r if r is NotImplemented else not_(r)

	def __ge__(self, o):
		r = self._cmp_lt(o, False)
		return r if r is NotImplemented else not_(r)

	# searching ----------------------------------------------------------
	def _match_at(self, a, b, i):
		if i + len(b) > len(a) or i < 0:
			return False
		return and_(*[a[i + j] == b[j] for j in range(len(b))]) if b else True

	def _need(self, o):
		b = self.coerce(o)
		if b is None:
			raise TypeError("a %s-like object is required, not '%s'" % (self.kind, type(o).__name__))
		return b

	def contains(self, o):
		a, b = self.elems(), self._need(o)
		return or_(*[self._match_at(a, b, i) for i in range(len(a) - len(b) + 1)])

	def __contains__(self, o):
		return bool(self.contains(o))

	def _bounds(self, start, end, n):
		start = 0 if start is None else start
		end = n if end is None else end
		start = start if isinstance(start, int) else start.__index__()
		end = end if isinstance(end, int) else end.__index__()
		if start < 0:
			start = max(0, start + n)
		if end < 0:
			end = max(0, end + n)
		return start, min(end, n)

	def _head(self, n):
		x = self[0:n]
		return x.elems() if isinstance(x, SeqBase) else [ord(c) for c in x] if isinstance(x, str) else list(x)

	def startswith(self, o, start=None, end=None):
		if isinstance(o, tuple):
			return or_(*[self.startswith(x, start, end) for x in o])
		if isinstance(o, SymByteArray):
			o = o.get()
		if isinstance(o, SymBytes) and self.kind == "bytes" and any(not isinstance(x, Lit) for x in o.segs):
			a = self if start is None and end is None else self[slice(start, end)]
			x, y = first_of(a), first_of(o)
			if x is not None and y is not None:
				c = x != y
				if c is True or isinstance(c, SymBool) and T.ENG.must(c):
					return False
			if length_of(a) < o.length():
				return False
			return a[0:o.length()] == o
		b = self._need(o)
		n = self.length()
		if not isinstance(n, int):
			if start is not None or end is not None:
				return self[slice(start, end)].startswith(o)
			if n < len(b):
				return False
			return self[0:len(b)] == o
		s, e = self._bounds(start, end, n)
		if start is None and end is None:
			if len(b) > n:
				return False
			return self._match_at(self._head(len(b)), b, 0)
		if s > n:
			return False
		return self._match_at(self.elems()[s:e], b, 0)

	def endswith(self, o, start=None, end=None):
		if isinstance(o, tuple):
			return or_(*[self.endswith(x, start, end) for x in o])
		b = self._need(o)
		if start is not None or end is not None:
			return self[slice(start, end)].endswith(o)
		n = self.length()
		if n < len(b):
			return False
		return self[n - len(b):n] == o

	def _find1(self, v):
		"""position of the first byte v in a sequence of symbolic length (None: not decided here)"""
		pos = 0
		for s in self.segs:
			if isinstance(s, Lit):
				for i, b in enumerate(s.b):
					if b == v:
						return pos + i
			else:
				if isinstance(s.len, SymInt) and s.len == 0:
					continue
				if s.at(0) == v:
					return pos
				if not isinstance(s, Rep):
					return None
			pos = pos + s.len
		return -1

	def _find(self, o, start, end, rev):
		if isinstance(o, (int, SymInt)) and self.kind == "bytes":
			if not rev and end is None and not isinstance(self.length(), int):
				x = self if start is None or (isinstance(start, int) and start == 0) else self[start:]
				if isinstance(x, SymBytes) and not isinstance(x.length(), int):
					r = x._find1(o)
					if r is not None:
						if isinstance(r, int) and r == -1:
							return -1
						return r if x is self else r + clip(start, self.length(), 0)
			o = self.make([o])
		a, b = self.elems(), self._need(o)
		s, e = self._bounds(start, end, len(a))
		if s > len(a):
			return -1
		order = range(s, e - len(b) + 1)
		if rev:
			order = reversed(order)
		for i in order:
			if self._match_at(a, b, i):
				return i
		return -1

	def find(self, o, start=None, end=None):
		return self._find(o, start, end, False)

	def rfind(self, o, start=None, end=None):
		return self._find(o, start, end, True)

	def index(self, o, start=None, end=None):
		r = self._find(o, start, end, False)
		if r < 0:
			raise ValueError("substring not found")
		return r

	def rindex(self, o, start=None, end=None):
		r = self._find(o, start, end, True)
		if r < 0:
			raise ValueError("substring not found")
		return r

	def count(self, o, start=None, end=None):
		a, b = self.elems(), self._need(o)
		s, e = self._bounds(start, end, len(a))
		a = a[s:e]
		i = n = 0
		while i + len(b) <= len(a):
			if self._match_at(a, b, i):
				n += 1
				i += max(1, len(b))
			else:
				i += 1
		return n

	def split(self, sep=None, maxsplit=-1):
		a = self.elems()
		out = []
		if sep is None:
			sp = self.space_pred
			i, n = 0, len(a)
			while True:
				while i < n and char_pred(a[i], sp):
					i += 1
				if i >= n:
					break
				if maxsplit >= 0 and len(out) >= maxsplit:
					j = n
					while j > i and char_pred(a[j - 1], sp):
						j -= 1
					out.append(self.make(a[i:j]))
					break
				j = i
				while j < n and not char_pred(a[j], sp):
					j += 1
				out.append(self.make(a[i:j]))
				i = j
			return out
		b = self._need(sep)
		if not b:
			raise ValueError("empty separator")
		i = last = 0
		while i + len(b) <= len(a):
			if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(a, b, i):
				out.append(self.make(a[last:i]))
				i += len(b)
				last = i
			else:
				i += 1
		out.append(self.make(a[last:]))
		return out

	def rsplit(self, sep=None, maxsplit=-1):
		if maxsplit < 0:
			return self.split(sep)
		a = self.elems()
		if sep is None:
			raise EngineGap("rsplit none")
		b = self._need(sep)
		out = []
		end = len(a)
		i = end - len(b)
		while i >= 0 and len(out) < maxsplit:
			if self._match_at(a, b, i):
				out.append(self.make(a[i + len(b):end]))
				end = i
				i -= len(b)
			else:
				i -= 1
		out.append(self.make(a[:end]))
		out.reverse()
		return out

	def partition(self, sep):
		a, b = self.elems(), self._need(sep)
		i = self.find(sep)
		if i < 0:
			return self, self.make([]), self.make([])
		return self.make(a[:i]), self.make(b), self.make(a[i + len(b):])

	def rpartition(self, sep):
		a, b = self.elems(), self._need(sep)
		i = self.rfind(sep)
		if i < 0:
			return self.make([]), self.make([]), self
		return self.make(a[:i]), self.make(b), self.make(a[i + len(b):])

	def splitlines(self, keepends=False):
		a = self.elems()
		out = []
		i = last = 0
		n = len(a)
		while i < n:
			if char_pred(a[i], self.line_pred):
				j = i + 1
				if j < n and and_(a[i] == 13, a[j] == 10):
					j += 1
				out.append(self.make(a[last:j if keepends else i]))
				i = last = j
			else:
				i += 1
		if last < n:
			out.append(self.make(a[last:]))
		return out

	def _strip(self, chars, left, right):
		a = self.elems()
		if chars is None:
			p = lambda c: char_pred(c, self.space_pred)
		else:
			cs = self._need(chars)
			p = lambda c: or_(*[c == x for x in cs])
		i, j = 0, len(a)
		if left:
			while i < j and p(a[i]):
				i += 1
		if right:
			while j > i and p(a[j - 1]):
				j -= 1
		return self.make(a[i:j])

	def strip(self, chars=None):
		return self._strip(chars, True, True)

	def lstrip(self, chars=None):
		return self._strip(chars, True, False)

	def rstrip(self, chars=None):
		return self._strip(chars, False, True)

	def replace(self, old, new, count=-1):
		a, b, c = self.elems(), self._need(old), self._need(new)
		if len(b) == 1 and len(c) == 1 and count < 0:
			return self.make([ite(x == b[0], c[0], x) if is_sym(x) or is_sym(b[0])
			                  else (c[0] if x == b[0] else x) for x in a])
		if not b:
			raise EngineGap("replace empty")
		out = []
		i = 0
		n = 0
		while i < len(a):
			if (count < 0 or n < count) and self._match_at(a, b, i):
				out.extend(c)
				i += len(b)
				n += 1
			else:
				out.append(a[i])
				i += 1
		return self.make(out)

	def join(self, items):
		return ENGRT().join(self, items)

	def _pad(self, width, fill, left):
		a = list(self.elems())
		f = self._need(fill)[0]
		pad = [f] * max(0, width - len(a))
		return self.make(pad + a if left else a + pad)

	def zfill(self, w):
		return self._pad(w, self.make([48]), True)

	def rjust(self, w, fill=None):
		return self._pad(w, fill if fill is not None else self.make([32]), True)

	def ljust(self, w, fill=None):
		return self._pad(w, fill if fill is not None else self.make([32]), False)

	def lower(self):
		f = self.lower1
		return self.make([self._cm(c, f) for c in self.elems()])

	casefold = lower

	def upper(self):
		f = self.upper1
		return self.make([self._cm(c, f) for c in self.elems()])

	def _cm(self, c, f):
		r = char_map(c, f)
		if r is None:
			raise EngineGap("multi-character case mapping")
		return r

	def _all(self, pred):
		a = self.elems()
		if not a:
			return False
		return and_(*[char_pred(c, pred) for c in a])

	def isspace(self):
		return self._all(self.space_pred)

	def isdigit(self):
		return self._all(self.digit_pred)

	def isalpha(self):
		return self._all(_isalpha)

	def isalnum(self):
		return self._all(_isalnum)

	def isupper(self):
		a = self.elems()
		return and_(or_(*[char_pred(c, _isupper) for c in a]),
		            not_(or_(*[char_pred(c, _islower) for c in a])))

	def islower(self):
		a = self.elems()
		return and_(or_(*[char_pred(c, _islower) for c in a]),
		            not_(or_(*[char_pred(c, _isupper) for c in a])))

	def translate(self, table, *a):
		if a or len(table) != 256 or not all(isinstance(x, int) for x in table):
			raise EngineGap("translate")
		# runs of the table in which the difference is the same
		runs = []
		for i, x in enumerate(table):
			if runs and runs[-1][1] == x - i:
				runs[-1][0] = i
			else:
				runs.append([i, x - i])
		if len(runs) > 16:
			raise EngineGap("translate")
		out = []
		for x in self.elems():
			if not is_sym(x):
				out.append(table[x])
				continue
			r = x + runs[-1][1]
			for last, d in reversed(runs[:-1]):
				r = ite(x <= last, x + d, r)
			out.append(r)
		return self.make(out)

	def removeprefix(self, p):
		return self[len(p):] if self.startswith(p) else self

	def removesuffix(self, p):
		return self[:self.length() - len(p)] if p and self.endswith(p) else self


def ENGRT():
	return T.ENG.rt


# --------------------------------------------------------------------------
# ropes

class Source(object):
	"""Uninterpreted content with a (possibly symbolic) length."""

	def __init__(self, name, length):
		self.name = name
		self.len = length
		self.f = z3.Function("src_" + name, z3.BitVecSort(WIDE), z3.BitVecSort(8))

	def sel(self, idx):
		i = z3.BitVecVal(idx, WIDE) if isinstance(idx, int) else idx.bv(WIDE)
		e = self.f(i)
		ENG = T.ENG
		a = ENG.atoms.get(e.get_id())
		if a is None:
			ENG.sel_log.append((self, i, e))
		return T.mk_int(e)

	def __repr__(self):
		return "Source(%s)" % self.name


class Lit(object):
	__slots__ = ("b",)

	def __init__(self, b):
		self.b = b

	@property
	def len(self):
		return len(self.b)

	def split(self, k):
		if not isinstance(k, int):
			k = T.ENG.enum(k, 0, len(self.b))
		return Lit(self.b[:k]), Lit(self.b[k:])

	def at(self, k):
		return self.b[k]

	def key(self):
		return ("L",) + tuple(x if isinstance(x, int) else lkey(x) for x in self.b)

	def __repr__(self):
		return "Lit(%r)" % (self.b,)


class Rep(object):
	__slots__ = ("v", "len")

	def __init__(self, v, n):
		self.v = v
		self.len = n

	def split(self, k):
		return Rep(self.v, k), Rep(self.v, self.len - k)

	def at(self, k):
		return self.v

	def key(self):
		return ("R", self.v if isinstance(self.v, int) else lkey(self.v), lkey(self.len))

	def __repr__(self):
		return "Rep(%r,%r)" % (self.v, self.len)


class Ext(object):
	__slots__ = ("src", "start", "len")

	def __init__(self, src, start, n):
		self.src = src
		self.start = start
		self.len = n

	def split(self, k):
		return Ext(self.src, self.start, k), Ext(self.src, self.start + k, self.len - k)

	def at(self, k):
		return self.src.sel(self.start + k)

	def key(self):
		return ("E", self.src.name, lkey(self.start), lkey(self.len))

	def __repr__(self):
		return "Ext(%s,%r,%r)" % (self.src.name, self.start, self.len)


def lkey(x):
	if isinstance(x, int):
		return x
	return (x.c,) + tuple(sorted(x.t.items()))


def norm(segs):
	out = []
	for s in segs:
		if isinstance(s.len, int) and s.len == 0:
			continue
		if not isinstance(s, Lit) and isinstance(s.len, int) and s.len <= 64:
			s = Lit([s.at(i) for i in range(s.len)])
		if out:
			p = out[-1]
			if isinstance(s, Lit) and isinstance(p, Lit):
				out[-1] = Lit(list(p.b) + list(s.b))
				continue
			if isinstance(s, Ext) and isinstance(p, Ext) and s.src is p.src:
				d = s.start - (p.start + p.len)
				if isinstance(d, int) and d == 0:
					out[-1] = Ext(p.src, p.start, p.len + s.len)
					continue
			if isinstance(s, Rep) and isinstance(p, Rep) and isinstance(s.v, int) and s.v == p.v:
				out[-1] = Rep(s.v, p.len + s.len)
				continue
		out.append(s)
	return out


def merge_ext_lits(segs):
	return segs


class SymBytes(SeqBase):
	__slots__ = ("segs", "_len")
	kind = "bytes"
	pytype = bytes
	space_pred = staticmethod(_bspace)
	line_pred = staticmethod(_blinebrk)
	digit_pred = staticmethod(_bdigit)
	lower1 = staticmethod(_blower)
	upper1 = staticmethod(_bupper)

	def __init__(self, segs):
		self.segs = norm(segs)
		self._len = None

	def _find(self, o, start, end, rev):
		if isinstance(o, (bytes, bytearray, SymBytes)) and end is None:
			n = self.length()
			if not isinstance(n, int) or n > 512:
				r = self._find_placed(o, 0 if start is None else start, rev)
				if r is not None:
					return r
		return SeqBase._find(self, o, start, end, rev)

	def _find_placed(self, o, start, rev):
		"""search in a rope: the places where it is known to occur, and those that
		begin in literal bytes; that opaque content has it by accident is left out"""
		need = o if isinstance(o, SymBytes) else SymBytes([Lit(list(o))])
		m = need.length()
		if isinstance(m, int) and m == 0 or not need.segs:
			return None
		first = need.segs[0]
		off = 0
		anchor = None
		for s in need.segs:
			if isinstance(s, Ext):
				anchor = s
				break
			off = off + s.len
		cands = []
		pos = 0
		for s in self.segs:
			if isinstance(s, Lit):
				if isinstance(first, Lit):
					for i, b in enumerate(s.b):
						c = b == first.b[0]
						if c is True or anchor is None and c is not False and isinstance(first.b[0], int):
							cands.append(pos + i)
				elif not isinstance(anchor, Ext):
					return None
			elif isinstance(s, Rep):
				if not isinstance(first, Lit) or isinstance(s.v, int) and isinstance(first.b[0], int) and s.v != first.b[0]:
					pass
				else:
					return None
			elif anchor is not None and s.src is anchor.src and not isinstance(first, Lit):
				cands.append(pos + (anchor.start - s.start))
			pos = pos + s.len
		n = pos
		for p in (reversed(cands) if rev else cands):
			if p < start or p < 0 or p + m > n:
				continue
			e = self[p:p + m] == need
			if anchor is not None and isinstance(e, SymBool) and not T.ENG.must(e):
				continue
			if e:
				return p
		return -1

	# construction
	@staticmethod
	def lit(elems):
		elems = list(elems)
		if all(isinstance(x, int) for x in elems):
			return bytes(elems)
		return SymBytes([Lit(elems)])

	def make(self, elems):
		return SymBytes.lit(elems)

	def coerce(self, o):
		if isinstance(o, (bytes, bytearray, memoryview)):
			return list(bytes(o))
		if isinstance(o, SymByteArray):
			o = o.get()
			if isinstance(o, bytes):
				return list(o)
		if isinstance(o, SymBytes):
			return o.elems()
		return None

	def length(self):
		if self._len is None:
			n = 0
			for s in self.segs:
				n = n + s.len
			self._len = n
		return self._len

	def elems(self):
		"""all bytes as a list: needs a concrete length (forks otherwise)"""
		if len(self.segs) == 1 and isinstance(self.segs[0], Lit):
			return list(self.segs[0].b)
		out = []
		for s in self.segs:
			n = s.len
			if not isinstance(n, int):
				n = T.ENG.enum_len(n)
			if n > T.ENG.max_materialize:
				raise T.PathCut("materialize %d bytes" % n)
			for i in range(n):
				out.append(s.at(i))
		return out

	def concrete(self):
		return bytes(T.ENG.concretize(x) if is_sym(x) else x for x in self.elems())

	def at(self, k):
		"""element at (symbolic) position k without forking: ITE chain"""
		r = None
		pos = 0
		parts = []
		for s in self.segs:
			if isinstance(s, Lit):
				for i, b in enumerate(s.b):
					parts.append((pos + i, None, b))
			else:
				parts.append((pos, s, None))
			pos = pos + s.len
		for start, s, b in reversed(parts):
			v = b if s is None else s.at(k - start)
			if r is None:
				r = v
			else:
				if s is None:
					c = (k == start)
				else:
					c = and_(k >= start, k < start + s.len)
				r = ite(c, v, r)
		return 0 if r is None else r

	def split_at(self, k):
		segs = self.segs
		left = []
		rem = k
		for i, s in enumerate(segs):
			if isinstance(rem, int) and rem <= 0:
				return SymBytes(left), SymBytes(segs[i:])
			n = s.len
			if rem >= n:
				left.append(s)
				rem = rem - n
				continue
			l, r = s.split(rem)
			return SymBytes(left + [l]), SymBytes([r] + segs[i + 1:])
		return SymBytes(left), SymBytes([])

	def sub(self, a, b):
		"""[a:b) with 0 <= a <= b <= len known"""
		if isinstance(a, int) and a == 0:
			rest = self
		else:
			rest = self.split_at(a)[1]
		n = b - a
		if isinstance(n, int) and n <= 0:
			return b""
		d = rest.length() - n
		if isinstance(d, int) and d == 0:
			return rest.norm_out()
		return rest.split_at(n)[0].norm_out()

	def lazy(self, a, b):
		"""sub(a, b) for a symbolic length: cut only when it is looked into"""
		return LazyBytes(self, a, b)

	def norm_out(self):
		if not self.segs:
			return b""
		if len(self.segs) == 1 and isinstance(self.segs[0], Lit) and \
				all(isinstance(x, int) for x in self.segs[0].b):
			return bytes(self.segs[0].b)
		return self

	def __getitem__(self, i):
		n = self.length()
		if isinstance(i, slice):
			if i.step is not None and i.step != 1:
				return self.make(self.elems()[i])
			a, b = clip(i.start, n, 0), clip(i.stop, n, n)
			if a >= b:
				return b""
			if isinstance(b - a, int):
				return self.sub(a, b)
			return self.lazy(a, b)
		if isinstance(i, SymBool):
			i = i.toint()
		if i < 0:
			i = i + n
			if i < 0:
				raise IndexError("index out of range")
		if i >= n:
			raise IndexError("index out of range")
		return self.byte(i)

	def byte(self, i):
		pos = 0
		for s in self.segs:
			if isinstance(i, int) and isinstance(pos, int) and isinstance(s.len, int):
				if i < pos + s.len:
					return s.at(i - pos)
			elif i < pos + s.len:
				k = i - pos
				if isinstance(s, Lit) and not isinstance(k, int):
					k2 = 0
					r = s.b[-1]
					for j in range(len(s.b) - 2, -1, -1):
						r = ite(k == j, s.b[j], r)
					return r
				return s.at(k)
			pos = pos + s.len
		raise IndexError("index out of range")

	def repeat(self, n):
		if not isinstance(n, int):
			if len(self.segs) == 1 and self.length() == 1:
				return SymBytes([Rep(self.segs[0].at(0), n)]) if n > 0 else b""
			n = T.ENG.concretize(n)
		return SymBytes(self.segs * max(0, n)).norm_out()

	def __add__(self, o):
		if isinstance(o, (bytes, bytearray)):
			return SymBytes(self.segs + [Lit(list(o))])
		if isinstance(o, SymByteArray):
			o = o.get()
			return self + o
		if isinstance(o, SymBytes):
			return SymBytes(self.segs + o.segs)
		return NotImplemented

	def __radd__(self, o):
		if isinstance(o, (bytes, bytearray)):
			return SymBytes([Lit(list(o))] + self.segs)
		return NotImplemented

	def __eq__(self, o):
		if isinstance(o, SymByteArray):
			o = o.get()
		if isinstance(o, (bytes, bytearray)):
			o = SymBytes([Lit(list(o))])
		if not isinstance(o, SymBytes):
			return False
		return rope_eq(self, o)

	__hash__ = SeqBase.__hash__

	def key(self):
		return tuple(s.key() for s in self.segs)

	def decode(self, encoding="utf-8", errors="strict"):
		return ENGRT().decode(self, encoding, errors)

	def hex(self, *a):
		if a:
			raise EngineGap("hex sep")
		out = []
		for b in self.elems():
			for nib in (b >> 4, b & 15):
				out.append(hexdigit(nib, False))
		return SymStr.mk(out)

	def __repr__(self):
		return "SymBytes(%r)" % (self.segs,)

	def __mod__(self, o):
		raise EngineGap("bytes %")


_segs = SymBytes.segs


class LazyBytes(SymBytes):
	"""a slice of symbolic length that is not cut out until its bytes are needed,
	as a cut in literal bytes is a fork for every place it can be at"""
	__slots__ = ("base", "a", "b")

	def __init__(self, base, a, b):
		self.base = base
		self.a = a
		self.b = b
		self._len = b - a

	def __copy__(self):
		return self

	def __deepcopy__(self, memo):
		return self

	@property
	def segs(self):
		if self.base is not None:
			r = self.base.sub(self.a, self.b)
			self.base = None
			_segs.__set__(self, r.segs if isinstance(r, SymBytes) else [Lit(list(r))] if r else [])
		return _segs.__get__(self)

	def length(self):
		return self._len

	def at(self, k):
		if self.base is not None:
			return self.base.at(self.a + k)
		return SymBytes.at(self, k)

	def byte(self, i):
		if self.base is not None:
			return self.base.byte(self.a + i)
		return SymBytes.byte(self, i)

	def sub(self, a, b):
		if self.base is not None:
			n = b - a
			if isinstance(n, int):
				return self.base.sub(self.a + a, self.a + b) if n > 0 else b""
			return self.base.lazy(self.a + a, self.a + b)
		return SymBytes.sub(self, a, b)

	def lazy(self, a, b):
		if self.base is not None:
			return self.base.lazy(self.a + a, self.a + b)
		return LazyBytes(self, a, b)

	def split_at(self, k):
		if self.base is not None and not isinstance(k, int):
			# both halves may be asked for
			self.segs
		return SymBytes.split_at(self, k)

	def norm_out(self):
		return self if self.base is not None else SymBytes.norm_out(self)


def first_of(x):
	"""the first byte of a sequence that surely has one, else None"""
	if not isinstance(x, SymBytes):
		return x[0] if isinstance(x, (bytes, bytearray)) and x else None
	if isinstance(x, LazyBytes) and x.base is not None:
		return None
	if not x.segs:
		return None
	s = x.segs[0]
	if isinstance(s, Lit):
		return s.b[0]
	lo = s.len if isinstance(s.len, int) else s.len.rng()[0]
	return s.at(0) if lo > 0 else None


def hexdigit(n, up):
	base = 55 if up else 87
	if isinstance(n, int):
		return n + (48 if n < 10 else base)
	r = ite(n < 10, n + 48, n + base)
	if isinstance(r, SymInt):
		T.ENG.hexdig[(r.c, tuple(sorted(r.t.items())))] = n
	return r


def clip(v, n, default):
	"""slice bound normalisation (forks on symbolic order)"""
	if v is None:
		return default
	if isinstance(v, SymBool):
		v = v.toint()
	if v < 0:
		v = v + n
		if v < 0:
			return 0
		return v
	if v > n:
		return n
	return v


def rope_eq(a, b):
	"""SymBool/bool; may fork while aligning segments"""
	la, lb = a.length(), b.length()
	d = la - lb
	if isinstance(d, int):
		if d != 0:
			return False
		if a.key() == b.key():
			return True
	f, g = first_of(a), first_of(b)
	if f is not None and g is not None and (not isinstance(d, int) or len(a.segs) + len(b.segs) > 2):
		c = f != g
		if c is True or isinstance(c, SymBool) and T.ENG.must(c):
			return False
	if not isinstance(d, int) and la != lb:
		return False
	if a.key() == b.key():
		return True
	A, B = list(a.segs), list(b.segs)
	conds = []
	while A and B:
		x, y = A[0], B[0]
		dl = x.len - y.len
		if isinstance(dl, int) and dl == 0:
			A.pop(0)
			B.pop(0)
		elif x.len <= y.len:
			l, r = y.split(x.len)
			y = l
			A.pop(0)
			B[0] = r
		else:
			l, r = x.split(y.len)
			x = l
			B.pop(0)
			A[0] = r
		c = seg_eq(x, y)
		if c is False:
			return False
		conds.append(c)
		if isinstance(A and A[0].len or 1, int) and A and A[0].len == 0:
			A.pop(0)
		if B and isinstance(B[0].len, int) and B[0].len == 0:
			B.pop(0)
	return and_(*conds)


def rope_must_eq(a, b):
	"""True when both surely hold the same bytes; no forks"""
	must = T.ENG.must
	d = a.length() - b.length()
	if isinstance(d, int) and d or not isinstance(d, int) and not must(d == 0):
		return False
	A, B = list(a.segs), list(b.segs)

	def clean(X):
		while X and (X[0].len == 0 if isinstance(X[0].len, int) else X[0].len.rng()[0] == 0 and must(X[0].len == 0)):
			X.pop(0)
	while True:
		clean(A)
		clean(B)
		if not A or not B:
			return not A and not B
		x, y = A[0], B[0]
		dl = x.len - y.len
		if dl == 0 if isinstance(dl, int) else must(dl == 0):
			A.pop(0)
			B.pop(0)
		elif dl < 0 if isinstance(dl, int) else must(dl < 0):
			if isinstance(y, Lit) and not isinstance(x.len, int):
				return False
			y, B[0] = y.split(x.len)
			A.pop(0)
		elif dl > 0 if isinstance(dl, int) else must(dl > 0):
			if isinstance(x, Lit) and not isinstance(y.len, int):
				return False
			x, A[0] = x.split(y.len)
			B.pop(0)
		else:
			return False
		if x.key() == y.key():
			continue
		if isinstance(x, Ext) and isinstance(y, Ext) and x.src is y.src:
			d = x.start - y.start
			if d == 0 if isinstance(d, int) else must(d == 0):
				continue
		if isinstance(x, Rep) and isinstance(y, Rep):
			c = x.v == y.v
			if c is True or c is not False and must(c):
				continue
		n = x.len if isinstance(x.len, int) else y.len
		if isinstance(n, int) and n <= 512:
			cs = and_(*[x.at(i) == y.at(i) for i in range(n)])
			if cs is True or cs is not False and must(cs):
				continue
		return False


def seg_eq(x, y):
	n = x.len
	if isinstance(n, int) and n == 0:
		return True
	if x.key() == y.key():
		return True
	if isinstance(x, Ext) and isinstance(y, Ext) and x.src is y.src:
		d = x.start - y.start
		if isinstance(d, int) and d == 0:
			return True
		if not isinstance(d, int) and T.ENG.must(d == 0):
			return True
	if isinstance(x, Rep) and isinstance(y, Rep):
		return or_(x.v == y.v, n == 0)
	if not isinstance(n, int):
		m = y.len
		if isinstance(m, int):
			n = m
	if isinstance(n, int) and n <= T.ENG.max_materialize:
		return and_(*[x.at(i) == y.at(i) for i in range(n)])
	# symbolic-length comparison of unrelated content: decided by a fresh
	# boolean; the false side carries a witness index.
	if not isinstance(n, int) and n == 0:
		return True
	e = T.ENG
	f = e.fresh_bool("ropeeq")
	k = e.fresh_int("diffidx", 0, (1 << 48) - 1)
	wit = and_(k < n, not_(x.at(k) == y.at(k)))
	e.note_inexact("rope equality of unrelated content")
	if SymBool(f):
		return True
	e.assume(wit)
	return False


class SymByteArray(Sym):
	"""mutable bytearray"""
	kind = "bytes"

	def __init__(self, init=b""):
		self.v = init if isinstance(init, (bytes, SymBytes)) else bytes(init)

	def get(self):
		return self.v

	def length(self):
		return length_of(self.v)

	def __len__(self):
		n = self.length()
		return n if isinstance(n, int) else n.__index__()

	def __iter__(self):
		return iter(self.v)

	def __bool__(self):
		return bool(self.length() > 0)

	def __getitem__(self, i):
		r = ENGRT().getitem(self.v, i)
		return SymByteArray(r) if isinstance(i, slice) else r

	def __setitem__(self, i, val):
		if isinstance(i, slice):
			n = self.length()
			if i.step is not None and i.step != 1:
				raise EngineGap("bytearray step assign")
			a, b = clip(i.start, n, 0), clip(i.stop, n, n)
			v = as_rope(self.v)
			self.v = (v.sub(0, a) + as_bytes_like(val) + v.sub(b, n)) if b >= a else \
				(v.sub(0, a) + as_bytes_like(val) + v.sub(a, n))
			return
		n = self.length()
		if i < 0:
			i = i + n
		if i < 0 or i >= n:
			raise IndexError("bytearray index out of range")
		if not isinstance(i, int):
			i = T.ENG.concretize(i)
		if not isinstance(val, int):
			if val < 0 or val > 255:
				raise ValueError("byte must be in range(0, 256)")
		elif not 0 <= val <= 255:
			raise ValueError("byte must be in range(0, 256)")
		if isinstance(self.v, bytes) and isinstance(val, int):
			b = bytearray(self.v)
			b[i] = val
			self.v = bytes(b)
			return
		v = as_rope(self.v)
		if len(v.segs) == 1 and isinstance(v.segs[0], Lit):
			l = list(v.segs[0].b)
			l[i] = val
			self.v = SymBytes.lit(l)
			return
		self.v = v.sub(0, i) + SymBytes([Lit([val])]) + v.sub(i + 1, n)

	def __delitem__(self, i):
		if isinstance(i, slice):
			self[i] = b""
		else:
			self[i:i + 1] = b""

	def append(self, x):
		self.v = self.v + SymBytes.lit([x])

	def extend(self, xs):
		if isinstance(xs, (bytes, bytearray, SymBytes, SymByteArray)):
			self.v = self.v + as_bytes_like(xs)
		else:
			self.v = self.v + SymBytes.lit(list(xs))

	def __iadd__(self, o):
		self.extend(o)
		return self

	def __add__(self, o):
		return SymByteArray(self.v + as_bytes_like(o))

	def __radd__(self, o):
		return as_bytes_like(o) + self.v

	def __eq__(self, o):
		return ENGRT().eq(self.v, as_bytes_like(o)) if isinstance(
			o, (bytes, bytearray, SymBytes, SymByteArray)) else False

	def __ne__(self, o):
		return not_(self == o)

	def contains(self, o):
		return ENGRT().contains(self.v, o)

	def __contains__(self, o):
		return bool(self.contains(o))

	def repeat(self, n):
		return SymByteArray(ENGRT().repeat(self.v, n))

	def __mul__(self, n):
		return self.repeat(n)

	def __getattr__(self, name):
		if name.startswith("__"):
			raise AttributeError(name)
		v = as_rope(self.v)
		return getattr(v, name)

	__hash__ = None

	def __repr__(self):
		return "SymByteArray(%r)" % (self.v,)


def as_rope(v):
	if isinstance(v, SymBytes):
		return v
	if isinstance(v, SymByteArray):
		return as_rope(v.v)
	return SymBytes([Lit(list(bytes(v)))])


def as_bytes_like(v):
	if isinstance(v, SymByteArray):
		return v.v
	if isinstance(v, SymBytes):
		return v
	return bytes(v)


# --------------------------------------------------------------------------

class SymStr(SeqBase):
	__slots__ = ("_cps", "_thunk")
	kind = "str"
	pytype = str
	space_pred = staticmethod(_isspace)
	line_pred = staticmethod(_linebrk)
	digit_pred = staticmethod(_isdigit)
	lower1 = staticmethod(_lower1)
	upper1 = staticmethod(_upper1)

	def __init__(self, cps, thunk=None):
		self._cps = cps
		self._thunk = thunk

	@staticmethod
	def mk(cps):
		cps = list(cps)
		if all(isinstance(x, int) for x in cps):
			return "".join(map(chr, cps))
		return SymStr(cps)

	@staticmethod
	def lazy(thunk):
		return SymStr(None, thunk)

	def make(self, elems):
		return SymStr.mk(elems)

	def coerce(self, o):
		if isinstance(o, str):
			return [ord(c) for c in o]
		if isinstance(o, SymStr):
			return o.elems()
		return None

	def elems(self):
		if self._cps is None:
			v = self._thunk()
			self._cps = [ord(c) for c in v] if isinstance(v, str) else v.elems()
		return self._cps

	def concrete(self):
		return "".join(chr(T.ENG.concretize(x) if is_sym(x) else x) for x in self.elems())

	def __getitem__(self, i):
		a = self.elems()
		n = len(a)
		if isinstance(i, slice):
			st = [x if x is None or isinstance(x, int) else T.ENG.enum_len(x)
			      for x in (i.start, i.stop, i.step)]
			return SymStr.mk(a[slice(*st)])
		if isinstance(i, SymInt):
			i = T.ENG.concretize(i)
		return SymStr.mk([a[i]])

	def repeat(self, n):
		if not isinstance(n, int):
			n = T.ENG.concretize(n)
		return SymStr.mk(list(self.elems()) * max(n, 0))

	def __add__(self, o):
		b = self.coerce(o)
		if b is None:
			return NotImplemented
		if self._cps is None or (isinstance(o, SymStr) and o._cps is None):
			return SymStr.lazy(lambda: SymStr.mk(list(self.elems()) + list(self.coerce(o))))
		return SymStr.mk(list(self.elems()) + b)

	def __radd__(self, o):
		b = self.coerce(o)
		if b is None:
			return NotImplemented
		if self._cps is None:
			return SymStr.lazy(lambda: SymStr.mk(b + list(self.elems())))
		return SymStr.mk(b + list(self.elems()))

	def __eq__(self, o):
		b = self.coerce(o)
		if b is None:
			return False
		a = self.elems()
		if len(a) != len(b):
			return False
		return and_(*[x == y for x, y in zip(a, b)])

	__hash__ = SeqBase.__hash__

	def __mod__(self, args):
		return ENGRT().str_mod(self, args)

	def encode(self, encoding="utf-8", errors="strict"):
		return ENGRT().encode(self, encoding, errors)

	def format(self, *a, **k):
		raise EngineGap("symbolic format string")

	def expandtabs(self, *a):
		raise EngineGap("expandtabs")

	def title(self):
		raise EngineGap("title")

	def __str__(self):
		return self.__repr__()

	def __repr__(self):
		if self._cps is None:
			return "SymStr(<lazy>)"
		return "SymStr(%r)" % ([c if not isinstance(c, int) else chr(c) for c in self._cps],)
