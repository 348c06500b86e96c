"""Symbolic integers and booleans.

SymInt is an exact (unbounded) Python integer: a linear combination of
unsigned bit-vector atoms with Python-int coefficients plus a constant.
Width is only chosen when a value is materialised for the solver, always wide
enough for the value's interval, so Python's integer semantics are exact.
"""
import z3

ENG = None          # current Engine (set by engine.Engine.activate)


def set_engine(e):
	global ENG
	ENG = e


def engine():
	return ENG


class Abort(BaseException):
	"""Ends the current path; remembered by the engine so that code under test
	which swallows every exception cannot hide it."""

	def __init__(self, *a):
		BaseException.__init__(self, *a)
		if ENG is not None and ENG.abort is None:
			ENG.abort = self


class EngineGap(Abort):
	"""The engine cannot represent this operation (never a property failure)."""


class PathCut(Abort):
	"""A stated bound was reached on this path."""


class PathInfeasible(Abort):
	"""assume() made the path infeasible."""


def bits_for(v):
	return max(1, int(v).bit_length())


class Atom(object):
	__slots__ = ("e", "lo", "hi", "w", "base", "lsb", "key", "tag")

	def __init__(self, e, lo=None, hi=None, base=None, lsb=0, tag=None):
		self.e = e
		self.w = e.size()
		self.lo = 0 if lo is None else lo
		self.hi = (1 << self.w) - 1 if hi is None else min(hi, (1 << self.w) - 1)
		self.base = base
		self.lsb = lsb
		self.key = e.get_id()
		self.tag = tag

	def __repr__(self):
		return "A<%s>" % self.e


def atom(e, lo=None, hi=None, base=None, lsb=0, tag=None):
	"""Get or create the atom of a z3 BitVec expression."""
	tab = ENG.atoms
	k = e.get_id()
	a = tab.get(k)
	if a is None:
		a = Atom(e, lo, hi, base, lsb, tag)
		tab[k] = a
	return a


def mk_int(e, lo=None, hi=None, tag=None):
	"""z3 BitVec -> SymInt / int"""
	if z3.is_bv_value(e):
		return e.as_long()
	a = atom(e, lo, hi, tag=tag)
	if a.lo == a.hi:
		return a.lo
	return SymInt({a.key: 1}, 0)


def _lin(terms, c):
	if not terms:
		return c
	return SymInt(terms, c)


def is_sym(x):
	return isinstance(x, Sym)


class Sym(object):
	"""Base of all symbolic proxies."""
	__slots__ = ()


class SymBool(Sym):
	__slots__ = ("e",)

	def __init__(self, e):
		self.e = e

	def __bool__(self):
		return ENG.branch(self.e)

	__nonzero__ = __bool__

	def toint(self):
		return mk_int(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))

	def __and__(self, o):
		if isinstance(o, (bool, SymBool)):
			return mk_bool(z3.And(self.e, bool_e(o)))
		return self.toint() & o
	__rand__ = __and__

	def __or__(self, o):
		if isinstance(o, (bool, SymBool)):
			return mk_bool(z3.Or(self.e, bool_e(o)))
		return self.toint() | o
	__ror__ = __or__

	def __xor__(self, o):
		if isinstance(o, (bool, SymBool)):
			return mk_bool(z3.Xor(self.e, bool_e(o)))
		return self.toint() ^ o
	__rxor__ = __xor__

	def __eq__(self, o):
		if isinstance(o, (bool, SymBool)):
			return mk_bool(self.e == bool_e(o))
		if isinstance(o, (int, SymInt)):
			return self.toint() == o
		return False

	def __ne__(self, o):
		return not_(self.__eq__(o))

	def __hash__(self):
		return hash(bool(self))

	def _num(name):
		def f(self, o):
			return getattr(self.toint(), name)(o)
		return f
	for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "lt", "le", "gt",
	           "ge", "lshift", "rlshift", "rshift", "floordiv", "mod"):
		locals()["__%s__" % _n] = _num("__%s__" % _n)
	del _n

	def __index__(self):
		return int(bool(self))
	__int__ = __index__

	def __repr__(self):
		return "SymBool(%s)" % self.e


def bool_e(x):
	if isinstance(x, SymBool):
		return x.e
	if isinstance(x, SymInt):
		return bool_e(x != 0)
	return z3.BoolVal(bool(x))


def mk_bool(e):
	if z3.is_true(e):
		return True
	if z3.is_false(e):
		return False
	return SymBool(e)


def not_(x):
	if isinstance(x, SymBool):
		return mk_bool(z3.Not(x.e))
	if isinstance(x, Sym):
		return not_(x != 0) if isinstance(x, SymInt) else (not x)
	return not x


def and_(*xs):
	es = []
	for x in xs:
		if isinstance(x, SymBool):
			es.append(x.e)
		elif isinstance(x, SymInt):
			es.append(bool_e(x))
		elif not x:
			return False
	if not es:
		return True
	return mk_bool(z3.And(*es) if len(es) > 1 else es[0])


def or_(*xs):
	es = []
	for x in xs:
		if isinstance(x, SymBool):
			es.append(x.e)
		elif isinstance(x, SymInt):
			es.append(bool_e(x))
		elif x:
			return True
	if not es:
		return False
	return mk_bool(z3.Or(*es) if len(es) > 1 else es[0])


class SymInt(Sym):
	__slots__ = ("t", "c")

	def __init__(self, t, c):
		self.t = t          # dict atomkey -> nonzero int coeff
		self.c = c

	# ---- intervals
	def rng(self):
		lo = hi = self.c
		at = ENG.atoms
		for k, f in self.t.items():
			a = at[k]
			if f > 0:
				lo += f * a.lo
				hi += f * a.hi
			else:
				lo += f * a.hi
				hi += f * a.lo
		return lo, hi

	@property
	def lo(self):
		return self.rng()[0]

	@property
	def hi(self):
		return self.rng()[1]

	def single(self):
		"""The atom if this value is exactly one atom."""
		if self.c == 0 and len(self.t) == 1:
			(k, f), = self.t.items()
			if f == 1:
				return ENG.atoms[k]
		return None

	# ---- materialise
	def bv(self, w):
		"""BitVec of width w, value modulo 2**w."""
		a = self.single()
		if a is not None:
			return fit(a.e, w)
		at = ENG.atoms
		m = (1 << w) - 1
		e = None
		for k in sorted(self.t):
			f = self.t[k]
			x = fit(at[k].e, w)
			if f != 1:
				fm = f & m
				if fm & (fm - 1) == 0 and fm:
					sh = fm.bit_length() - 1
					aw = at[k].w
					if sh + aw <= w:
						# pure placement of bits
						parts = []
						if w - sh - aw:
							parts.append(z3.BitVecVal(0, w - sh - aw))
						parts.append(at[k].e)
						if sh:
							parts.append(z3.BitVecVal(0, sh))
						x = z3.Concat(*parts) if len(parts) > 1 else parts[0]
					else:
						x = x << sh
				else:
					x = x * z3.BitVecVal(fm, w)
			e = x if e is None else e + x
		if self.c & m:
			e = e + z3.BitVecVal(self.c & m, w)
		return e

	def nat(self):
		"""(BitVec, width) for a value known to be >= 0; forks on sign if the
		interval does not exclude negatives."""
		lo, hi = self.rng()
		if lo < 0:
			if ENG.branch(bool_e(self < 0)):
				return None, None
			hi = max(hi, 0)
		w = bits_for(hi)
		return self.bv(w), w

	# ---- arithmetic
	def __add__(self, o):
		if isinstance(o, bool):
			o = int(o)
		if isinstance(o, int):
			return SymInt(self.t, self.c + o) if o else self
		if isinstance(o, SymBool):
			o = o.toint()
		if isinstance(o, SymInt):
			if len(self.t) == 1 and len(o.t) == 1:
				r = join_slices(self, o)
				if r is not None:
					return r + (self.c + o.c) if self.c + o.c else r
			t = dict(self.t)
			for k, f in o.t.items():
				n = t.get(k, 0) + f
				if n:
					t[k] = n
				else:
					del t[k]
			return _lin(t, self.c + o.c)
		if isinstance(o, float):
			return SymFloat.of(self) + o
		return NotImplemented
	__radd__ = __add__

	def __neg__(self):
		return SymInt({k: -f for k, f in self.t.items()}, -self.c)

	def __pos__(self):
		return self

	def __sub__(self, o):
		if isinstance(o, (int, SymInt, SymBool)):
			return self + (-o)
		return NotImplemented

	def __rsub__(self, o):
		if isinstance(o, (int, SymInt, SymBool)):
			return (-self) + o
		return NotImplemented

	def __mul__(self, o):
		if isinstance(o, bool):
			o = int(o)
		if isinstance(o, int):
			if o == 0:
				return 0
			if o == 1:
				return self
			return SymInt({k: f * o for k, f in self.t.items()}, self.c * o)
		if isinstance(o, SymBool):
			o = o.toint()
		if isinstance(o, SymInt):
			l1, h1 = self.rng()
			l2, h2 = o.rng()
			if l1 >= 0 and l2 >= 0:
				w = bits_for(h1 * h2)
				return mk_int(self.bv(w) * o.bv(w), l1 * l2, h1 * h2)
			m = max(abs(v) for v in (l1 * l2, l1 * h2, h1 * l2, h1 * h2))
			w = bits_for(m) + 1
			return from_signed(self.bv(w) * o.bv(w), w)
		if isinstance(o, (bytes, str, list, tuple)) or \
				(isinstance(o, Sym) and hasattr(o, "repeat")):
			return ENG.rt.repeat(o, self)
		return NotImplemented
	__rmul__ = __mul__

	def __floordiv__(self, o):
		if isinstance(o, SymInt):
			if o == 0:
				raise ZeroDivisionError("integer division or modulo by zero")
			if self < 0 or o < 0:
				raise EngineGap("signed symbolic division")
			w = bits_for(max(self.hi, o.hi))
			return mk_int(z3.UDiv(self.bv(w), o.bv(w)), 0, self.hi)
		if not isinstance(o, int):
			return NotImplemented
		if o == 0:
			raise ZeroDivisionError("integer division or modulo by zero")
		if o < 0:
			return (-self) // (-o)
		return divmod_const(self, o)[0]

	def __mod__(self, o):
		if isinstance(o, SymInt):
			if o == 0:
				raise ZeroDivisionError("integer division or modulo by zero")
			if self < 0 or o < 0:
				raise EngineGap("signed symbolic modulo")
			w = bits_for(max(self.hi, o.hi))
			return mk_int(z3.URem(self.bv(w), o.bv(w)), 0, o.hi)
		if not isinstance(o, int):
			return NotImplemented
		if o == 0:
			raise ZeroDivisionError("integer division or modulo by zero")
		if o < 0:
			return -((-self) % (-o))
		return divmod_const(self, o)[1]

	def __divmod__(self, o):
		return (self // o, self % o)

	def __rfloordiv__(self, o):
		return lift(o) // self if isinstance(o, int) else NotImplemented

	def __rmod__(self, o):
		if isinstance(o, int):
			return lift(o) % self
		if isinstance(o, (str, bytes)):
			return ENG.rt.mod(o, self)
		return NotImplemented

	def __truediv__(self, o):
		if isinstance(o, int) and not isinstance(o, bool):
			if o == 0:
				raise ZeroDivisionError("division by zero")
			return SymFloat(self, o) if o > 0 else SymFloat(-self, -o)
		ENG.note_concretize("truediv")
		return self.__index__() / o

	def __rtruediv__(self, o):
		ENG.note_concretize("truediv")
		return o / self.__index__()

	def __pow__(self, o, m=None):
		if isinstance(o, int) and m is None and 0 <= o <= 8:
			r = 1
			for _ in range(o):
				r = r * self
			return r
		return pow(self.__index__(), o, m)

	def __rpow__(self, o):
		if o == 2:
			return 1 << self
		return o ** self.__index__()

	def __lshift__(self, o):
		if isinstance(o, SymInt):
			return shift_sym(self, o, True)
		return self * (1 << o)

	def __rlshift__(self, o):
		if self < 0:
			raise ValueError("negative shift count")
		if isinstance(o, int):
			lo, hi = self.rng()
			if hi <= 128:
				w = bits_for(o << hi)
				return mk_int(fit(z3.BitVecVal(o, w), w) << self.bv(w) if bits_for(hi) <= w
				              else z3.BitVecVal(o, w) << self.bv(w), 0, o << hi)
		return o << self.__index__()

	def __rshift__(self, o):
		if isinstance(o, SymInt):
			return shift_sym(self, o, False)
		if o < 0:
			raise ValueError("negative shift count")
		return divmod_const(self, 1 << o)[0]

	def __rrshift__(self, o):
		return shift_sym(lift(o), self, False)

	def __and__(self, o):
		if isinstance(o, SymBool):
			o = o.toint()
		if isinstance(o, bool):
			o = int(o)
		if isinstance(o, int):
			if o == 0:
				return 0
			if o > 0 and (o & (o + 1)) == 0:
				return divmod_const(self, o + 1)[1]
			if o > 0:
				# contiguous mask shifted: (x >> s & m) << s
				s = (o & -o).bit_length() - 1
				mm = o >> s
				if s and (mm & (mm + 1)) == 0:
					r = divmod_const(divmod_const(self, 1 << s)[0], mm + 1)[1]
					return r << s
				w = bits_for(o)
				return mk_int(self.bv(w) & z3.BitVecVal(o, w), 0, o)
			lo, hi = self.rng()
			if lo < 0:
				if self < 0:
					raise EngineGap("negative & negative")
			w = bits_for(max(hi, 0))
			return mk_int(self.bv(w) & z3.BitVecVal(o & ((1 << w) - 1), w), 0, hi)
		if isinstance(o, SymInt):
			l1, h1 = self.rng()
			l2, h2 = o.rng()
			if l1 < 0 and self < 0 or l2 < 0 and o < 0:
				raise EngineGap("signed &")
			w = bits_for(min(h1, h2))
			return mk_int(self.bv(w) & o.bv(w), 0, min(h1, h2))
		return NotImplemented
	__rand__ = __and__

	def _orxor(self, o, op):
		if isinstance(o, SymBool):
			o = o.toint()
		if isinstance(o, bool):
			o = int(o)
		if isinstance(o, int):
			if o == 0:
				return self
			if o < 0:
				if op == "xor" and o == -1:
					return -self - 1
				raise EngineGap("negative or/xor")
			lo, hi = self.rng()
		elif isinstance(o, SymInt):
			lo, hi = self.rng()
		else:
			return NotImplemented
		if disjoint_bits(self, o):
			return self + o
		l2, h2 = rng(o)
		if lo < 0 and self < 0 or l2 < 0 and o < 0:
			raise EngineGap("signed or/xor")
		w = bits_for(max(hi, h2))
		a, b = self.bv(w), bv(o, w)
		e = (a | b) if op == "or" else (a ^ b)
		return mk_int(e, max(lo, l2, 0) if op == "or" else 0, (1 << w) - 1)

	def __or__(self, o):
		return self._orxor(o, "or")
	__ror__ = __or__

	def __xor__(self, o):
		return self._orxor(o, "xor")
	__rxor__ = __xor__

	def __invert__(self):
		return -self - 1

	def __abs__(self):
		return -self if self < 0 else self

	# ---- comparison
	def __lt__(self, o):
		return cmp_(self, o, "lt")

	def __le__(self, o):
		return cmp_(self, o, "le")

	def __gt__(self, o):
		return cmp_(o, self, "lt") if isinstance(o, (int, Sym)) else NotImplemented

	def __ge__(self, o):
		return cmp_(o, self, "le") if isinstance(o, (int, Sym)) else NotImplemented

	def __eq__(self, o):
		if not isinstance(o, (int, SymInt, SymBool, SymFloat)):
			if isinstance(o, float) and o == int(o):
				o = int(o)
			else:
				return False
		if isinstance(o, SymInt):
			a, b = self.single(), o.single()
			if a is not None and b is not None and a.key != b.key and a.tag.__class__ is tuple \
					and b.tag.__class__ is tuple and a.tag[0] == b.tag[0] == "crc":
				from .seqs import rope_must_eq
				if rope_must_eq(a.tag[1], b.tag[1]):
					return True
		return cmp_(self, o, "eq")

	def __ne__(self, o):
		return not_(self.__eq__(o))

	def __bool__(self):
		return ENG.branch(bool_e(self != 0))
	__nonzero__ = __bool__

	def __hash__(self):
		return hash(self.__index__())

	def __index__(self):
		return ENG.concretize(self)
	__int__ = __index__

	def __float__(self):
		return float(self.__index__())

	def __trunc__(self):
		return self

	def bit_length(self):
		lo, hi = self.rng()
		n = 0
		v = abs(self)
		while v >= (1 << n):
			n += 1
		return n

	def to_bytes(self, length=1, byteorder="big", signed=False):
		from .seqs import SymBytes
		if signed:
			raise EngineGap("signed to_bytes")
		if self < 0 or self >= (1 << (8 * length)):
			raise OverflowError("int too big to convert")
		bs = int_bytes_le(self, length)
		if byteorder == "big":
			bs.reverse()
		return SymBytes.lit(bs)

	def __repr__(self):
		at = ENG.atoms if ENG else {}
		s = "+".join("%s*%s" % (f, at[k].e if k in at else k) for k, f in self.t.items())
		return "SymInt(%s+%d)" % (s, self.c)
	__str__ = __repr__


def lift(v):
	return SymInt({}, v) if isinstance(v, int) else v


def rng(x):
	if isinstance(x, SymInt):
		return x.rng()
	return int(x), int(x)


def bv(x, w):
	if isinstance(x, SymInt):
		if not x.t:
			return z3.BitVecVal(x.c & ((1 << w) - 1), w)
		return x.bv(w)
	if isinstance(x, SymBool):
		return bv(x.toint(), w)
	return z3.BitVecVal(int(x) & ((1 << w) - 1), w)


def fit(e, w):
	s = e.size()
	if s == w:
		return e
	if s < w:
		return z3.ZeroExt(w - s, e)
	return z3.Extract(w - 1, 0, e)


def from_signed(e, w):
	"""signed interpretation of e"""
	raw = mk_int(e ^ z3.BitVecVal(1 << (w - 1), w))
	return raw - (1 << (w - 1))


def low_zero(x):
	"""number of low bits of x known zero (large for 0)"""
	if isinstance(x, int):
		return 10 ** 6 if x == 0 else (x & -x).bit_length() - 1
	n = 10 ** 6 if x.c == 0 else (x.c & -x.c).bit_length() - 1
	for f in x.t.values():
		n = min(n, (f & -f).bit_length() - 1)
	return n


class SymFloat(Sym):
	"""num / den, for the few places that divide: exact, where the real code
	rounds to a double (the numbers stay far below 2^53)"""
	__slots__ = ("num", "den")

	def __init__(self, num, den):
		self.num, self.den = num, den

	@staticmethod
	def of(x):
		if isinstance(x, SymFloat):
			return x
		if isinstance(x, float):
			n, d = x.as_integer_ratio()
			return SymFloat(n, d)
		return SymFloat(x.toint() if isinstance(x, SymBool) else x, 1)

	def __add__(self, o):
		if not isinstance(o, (int, float, SymInt, SymFloat, SymBool)):
			return NotImplemented
		o = SymFloat.of(o)
		if o.den == self.den:
			return SymFloat(self.num + o.num, self.den)
		return SymFloat(self.num * o.den + o.num * self.den, self.den * o.den)
	__radd__ = __add__

	def __neg__(self):
		return SymFloat(-self.num, self.den)

	def __sub__(self, o):
		return self + (-o)

	def __rsub__(self, o):
		return (-self) + o

	def __mul__(self, o):
		if isinstance(o, float):
			raise EngineGap("symbolic fraction times float")
		if not isinstance(o, (int, SymInt)):
			return NotImplemented
		return SymFloat(self.num * o, self.den)
	__rmul__ = __mul__

	def __truediv__(self, o):
		if not isinstance(o, int) or o <= 0:
			raise EngineGap("symbolic fraction division")
		return SymFloat(self.num, self.den * o)

	def trunc(self):
		if self.num < 0:
			return -((-self.num) // self.den)
		return self.num // self.den

	def floor(self):
		return self.num // self.den if self.num >= 0 else -((-self.num + self.den - 1) // self.den)

	def ceil(self):
		return -((-self).floor())

	def __lt__(self, o):
		return cmp_(self, o, "lt")

	def __le__(self, o):
		return cmp_(self, o, "le")

	def __gt__(self, o):
		return cmp_(o, self, "lt")

	def __ge__(self, o):
		return cmp_(o, self, "le")

	def __eq__(self, o):
		if not isinstance(o, (int, float, SymInt, SymFloat, SymBool)):
			return False
		return cmp_(self, o, "eq")

	def __ne__(self, o):
		return not_(self.__eq__(o))

	def __bool__(self):
		return bool(self.num != 0)

	def __float__(self):
		return (self.num if isinstance(self.num, int) else self.num.__index__()) / self.den

	def __hash__(self):
		return hash(float(self))


def disjoint_bits(a, b):
	la, ha = rng(a)
	lb, hb = rng(b)
	if la < 0 or lb < 0:
		return False
	za, zb = low_zero(a), low_zero(b)
	return hb < (1 << min(za, 4096)) or ha < (1 << min(zb, 4096))


def cmp_(a, b, op):
	"""a op b for ints/SymInts"""
	if isinstance(a, SymBool):
		a = a.toint()
	if isinstance(b, SymBool):
		b = b.toint()
	if isinstance(a, SymFloat) or isinstance(b, SymFloat):
		a, b = SymFloat.of(a), SymFloat.of(b)
		return cmp_(a.num * b.den, b.num * a.den, op)
	if not isinstance(a, (int, SymInt)) or not isinstance(b, (int, SymInt)):
		if isinstance(b, float) or isinstance(a, float):
			# compare against float bound via integers
			import math
			if isinstance(b, float):
				if op == "lt":
					return cmp_(a, math.ceil(b), "lt")
				if op == "le":
					return cmp_(a, math.floor(b), "le")
			elif op == "lt":
				return cmp_(math.floor(a), b, "lt")
			elif op == "le":
				return cmp_(math.ceil(a), b, "le")
		raise TypeError("unorderable types: symbolic int and %s" % type(b).__name__)
	d = a - b
	if isinstance(d, int):
		return {"lt": d < 0, "le": d <= 0, "eq": d == 0}[op]
	lo, hi = d.rng()
	if op == "lt":
		if hi < 0:
			return True
		if lo >= 0:
			return False
	elif op == "le":
		if hi <= 0:
			return True
		if lo > 0:
			return False
	else:
		if lo > 0 or hi < 0:
			return False
		# gcd test
		import math
		g = 0
		for f in d.t.values():
			g = math.gcd(g, f)
		if g > 1 and d.c % g:
			return False
	if len(d.t) > 1 and len(d.t) <= 10 and ENG.lfacts:
		neg = {k: -f for k, f in d.t.items()}
		if op == "lt":
			if ENG.ge0(neg, -d.c - 1):
				return True
			if ENG.ge0(d.t, d.c):
				return False
		elif op == "le":
			if ENG.ge0(neg, -d.c):
				return True
			if ENG.ge0(d.t, d.c - 1):
				return False
		elif ENG.ge0(d.t, d.c - 1) or ENG.ge0(neg, -d.c - 1):
			return False
		elif ENG.ge0(d.t, d.c) and ENG.ge0(neg, -d.c):
			return True
	at = ENG.atoms
	P, N = {}, {}
	for k, f in d.t.items():
		if f > 0:
			P[k] = f
		else:
			N[k] = -f
	p, n = SymInt(P, max(d.c, 0)), SymInt(N, max(-d.c, 0))
	w = bits_for(max(p.hi if P else p.c, n.hi if N else n.c))
	pe, ne = bv(p, w), bv(n, w)
	if op == "lt":
		e = z3.ULT(pe, ne)
	elif op == "le":
		e = z3.ULE(pe, ne)
	else:
		e = pe == ne
	sb = SymBool(e)
	ENG.lin_info[e.get_id()] = (op, d, e)
	return sb


def divmod_const(x, c):
	"""floor divmod by a positive constant"""
	if isinstance(x, int):
		return divmod(x, c)
	if c == 1:
		return x, 0
	# split divisible part
	qt, rt = {}, {}
	for k, f in x.t.items():
		q, r = divmod(f, c)
		if r == 0:
			qt[k] = q
		else:
			rt[k] = f
	qc, rc = divmod(x.c, c)
	rest = _lin(rt, rc)
	lo, hi = rng(rest)
	q0 = _lin(qt, qc)
	if 0 <= lo and hi < c:
		return q0, rest
	if lo >= 0 and lo // c == hi // c:
		return q0 + lo // c, rest - (lo // c) * c
	# split fixed pieces for powers of two: rest itself
	if lo < 0:
		# make non negative by adding a multiple of c (exact for floor semantics)
		k = (-lo + c - 1) // c
		rest = rest + k * c
		q0 = q0 - k
		lo, hi = rng(rest)
		if 0 <= lo and hi < c:
			return q0, rest
	w = bits_for(hi)
	if c & (c - 1) == 0:
		s = c.bit_length() - 1
		a = rest.single()
		if a is not None:
			return q0 + mk_slice(a, s, a.w - s), mk_slice(a, 0, s)
		if w <= s:
			return q0, rest
		e = rest.bv(w)
		qa = mk_int(z3.Extract(w - 1, s, e), lo >> s, hi >> s)
		ra = low_bits(rest, s, min(c - 1, hi))
		note_slice(qa, rest, s, w - s)
		note_slice(ra, rest, 0, s)
		return q0 + qa, ra
	e = rest.bv(w)
	qa = mk_int(z3.UDiv(e, z3.BitVecVal(c, w)), lo // c, hi // c)
	ra = mk_int(z3.URem(e, z3.BitVecVal(c, w)), 0, c - 1)
	return q0 + qa, ra


def _key(x):
	return (x.c,) + tuple(sorted(x.t.items()))


def note_slice(v, src, lsb, n):
	"""v is bits [lsb, lsb+n) of the sum src"""
	if isinstance(v, SymInt):
		a = v.single()
		if a is not None:
			ENG.prov.setdefault(a.key, {})[_key(src)] = (src, lsb, n)


def slices_of(a):
	d = ENG.prov.get(a.key)
	if a.base is not None:
		d = dict(d or ())
		b = SymInt({a.base.key: 1}, 0)
		d[_key(b)] = (b, a.lsb, a.w)
	return d


def join_slices(x, y):
	"""x + y where these are neighbouring bits of one value, else None"""
	(ka, f), = x.t.items()
	(kb, g), = y.t.items()
	if f < g:
		ka, f, kb, g = kb, g, ka, f
	if g != 1 or f <= 1 or f & (f - 1):
		return None
	m = f.bit_length() - 1
	at = ENG.atoms
	a, b = at[ka], at[kb]
	if b.w != m:
		return None
	da = slices_of(a)
	if not da:
		return None
	db = slices_of(b)
	if not db:
		return None
	for k, (src, lb, nb) in db.items():
		t = da.get(k)
		if t is None or nb != m or t[1] != lb + nb:
			continue
		n = nb + t[2]
		if lb == 0 and n >= bits_for(src.rng()[1]):
			return src
		# a range that became known meanwhile is not used here, so that the rest still joins
		w = max(bits_for(src.rng()[1]), lb + n)
		e = src.bv(w)
		r = mk_int(z3.Extract(lb + n - 1, lb, e), 0, (1 << n) - 1)
		note_slice(r, src, lb, n)
		return r
	return None


def low_bits(x, s, hi):
	"""x modulo 2^s; sums of sums modulo 2^s come out as one sum, so that the
	order of additions does not matter"""
	m = (1 << s) - 1
	t, c = {}, x.c
	for k, f in x.t.items():
		d = ENG.modof.get(k)
		if d is not None and d[0] >= s:
			c += f * d[2]
			for k2, f2 in d[1].items():
				t[k2] = t.get(k2, 0) + f * f2
		else:
			t[k] = t.get(k, 0) + f
	t = dict((k, f & m) for k, f in t.items() if f & m)
	c &= m
	if not t:
		return c
	y = SymInt(t, c)
	key = (s, c, tuple(sorted(t.items())))
	e = ENG.modtab.get(key)
	if e is None:
		e = ENG.modtab[key] = y.bv(s)
	r = mk_int(e, 0, hi)
	if isinstance(r, SymInt):
		ENG.modof[e.get_id()] = (s, t, c)
	return r


def mk_slice(a, lsb, n):
	"""bits [lsb, lsb+n) of atom a as value"""
	if n <= 0:
		return 0
	base, off = (a.base, a.lsb) if a.base is not None else (a, 0)
	lsb0 = lsb
	if lsb0 + n > a.w:
		n = a.w - lsb0
		if n <= 0:
			return 0
	if lsb0 == 0 and n >= a.w:
		return SymInt({a.key: 1}, 0)
	lo, hi = a.lo >> lsb0, a.hi >> lsb0
	if hi >= (1 << n):
		lo, hi = 0, (1 << n) - 1
	if lo == hi:
		return lo
	e = z3.Extract(off + lsb0 + n - 1, off + lsb0, base.e)
	na = atom(e, lo, hi, base, off + lsb0)
	ENG.keep.append(e)
	d = ENG.prov.get(a.key)
	if d:
		t = ENG.prov.setdefault(na.key, {})
		for k, (src, l, _) in d.items():
			t[k] = (src, l + lsb0, n)
	return SymInt({na.key: 1}, 0)


def shift_sym(x, s, left):
	lo, hi = rng(s)
	if s < 0:
		raise ValueError("negative shift count")
	if hi > 256:
		if s > 256:
			raise EngineGap("huge shift")
		hi = 256
	if x < 0:
		raise EngineGap("shift of negative")
	xl, xh = rng(x)
	if left:
		w = max(bits_for(xh << hi), bits_for(hi))
		return mk_int(bv(x, w) << bv(s, w), 0, xh << hi)
	w = max(bits_for(xh), bits_for(hi))
	return mk_int(z3.LShR(bv(x, w), bv(s, w)), 0, xh)


def int_bytes_le(v, n):
	"""n little-endian bytes of v modulo 2**(8n)"""
	out = []
	v0 = v
	for _ in range(n):
		q, r = divmod_const(v, 256)
		out.append(r)
		v = q
	if isinstance(v0, SymInt) and v0.single() is None:
		ENG.byte_src[_bytes_key(out)] = v0
	return out


def _bytes_key(bs):
	ks = [(b.c,) + tuple(sorted(b.t.items())) if isinstance(b, SymInt) else b for b in bs]
	while ks and ks[-1] == 0 and ks[-1].__class__ is int:
		ks.pop()
	return tuple(ks)


def bytes_int_le(bs):
	"""little endian value of byte elements; fuses consecutive slices"""
	bs = list(bs)
	if ENG.byte_src:
		v = ENG.byte_src.get(_bytes_key(bs))
		if v is not None:
			# the bytes of a value, put together again
			top = 1 << (8 * len(bs))
			lo, hi = v.rng()
			if (lo >= 0 or ENG.must(v >= 0)) and (hi < top or ENG.must(v < top)):
				return v
	items = []       # (shift, value or ('s', base, lsb, n))
	i = 0
	r = 0
	n = len(bs)
	at = ENG.atoms
	while i < n:
		b = bs[i]
		if isinstance(b, SymInt):
			a = b.single()
			if a is not None and a.base is not None and a.w == 8:
				base, l0 = a.base, a.lsb
				j = i + 1
				width = 8
				while j < n:
					b2 = bs[j]
					a2 = b2.single() if isinstance(b2, SymInt) else None
					if a2 is None:
						# a short top slice
						break
					if a2.base is base and a2.lsb == l0 + width:
						width += a2.w
						j += 1
						if a2.w != 8:
							break
					else:
						break
				if l0 + width > base.w:
					width = base.w - l0
				v = SymInt({base.key: 1}, 0) if (l0 == 0 and width == base.w) \
					else mk_slice(base, l0, width)
				r = r + (v << (8 * i))
				i = j
				continue
			r = r + b * (1 << (8 * i))
		else:
			r = r + (b << (8 * i))
		i += 1
	return r


def ite(c, a, b):
	"""merge two ints"""
	if not isinstance(c, SymBool):
		return a if c else b
	if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
		return mk_bool(z3.If(c.e, bool_e(a), bool_e(b)))
	l1, h1 = rng(a)
	l2, h2 = rng(b)
	if isinstance(a, int) and isinstance(b, int) and a == b:
		return a
	lo, hi = min(l1, l2), max(h1, h2)
	off = 0
	if lo < 0:
		off = lo
		a, b = a - off, b - off
	w = bits_for(hi - off)
	return mk_int(z3.If(c.e, bv(a, w), bv(b, w)), lo - off, hi - off) + off
