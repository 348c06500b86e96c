"""Runtime hooks called by instrumented code."""
import binascii
import builtins
import io
import operator
import struct
import sys
import functools
import types
import zlib
import z3
from . import terms as T
from .terms import (Sym, SymInt, SymBool, EngineGap, PathCut, and_, or_, not_, ite, is_sym,
                    mk_int, bits_for, int_bytes_le, bytes_int_le)
from .seqs import (SymBytes, SymStr, SymByteArray, SeqBase, Lit, Rep, Ext,
                   as_rope, as_bytes_like, char_map, in_ranges, hexdigit, rope_eq)


def has_sym(x, depth=3):
	if isinstance(x, Sym):
		return True
	if depth and type(x) in (tuple, list, SxList):
		return any(has_sym(y, depth - 1) for y in x)
	if depth and isinstance(x, dict):
		return isinstance(x, SxDict) and x._assoc or \
			any(has_sym(y, depth - 1) for y in x.values())
	return False


class SxList(list):
	pass


class SxDict(dict):
	"""dict whose symbolic keys live in an association list (insertion order
	between concrete and symbolic keys is kept in _order)."""

	def __init__(self, *a, **k):
		dict.__init__(self)
		self._assoc = None       # list of [key, value] for everything once symbolic
		if a:
			src = a[0]
			items = src.items() if hasattr(src, "keys") else src
			for kk, v in items:
				self[kk] = v
		for kk, v in k.items():
			self[kk] = v

	def _go(self):
		if self._assoc is None:
			self._assoc = [[k, v] for k, v in dict.items(self)]

	def _sym(self, k):
		return self._assoc is not None or keysym(k)

	def _find(self, k):
		self._go()
		for e in self._assoc:
			if rt_eq(e[0], k):
				return e
		return None

	def __getitem__(self, k):
		if not self._sym(k):
			return dict.__getitem__(self, k)
		e = self._find(k)
		if e is None:
			if hasattr(type(self), "__missing__"):
				return self.__missing__(k)
			raise KeyError(k)
		return e[1]

	def __setitem__(self, k, v):
		if not self._sym(k):
			dict.__setitem__(self, k, v)
			return
		e = self._find(k)
		if e is None:
			self._assoc.append([k, v])
		else:
			e[1] = v

	def __delitem__(self, k):
		if not self._sym(k):
			dict.__delitem__(self, k)
			return
		e = self._find(k)
		if e is None:
			raise KeyError(k)
		self._assoc.remove(e)

	def __contains__(self, k):
		if not self._sym(k):
			return dict.__contains__(self, k)
		return self._find(k) is not None

	has_key = __contains__

	def get(self, k, d=None):
		if not self._sym(k):
			return dict.get(self, k, d)
		e = self._find(k)
		return d if e is None else e[1]

	def setdefault(self, k, d=None):
		if k in self:
			return self[k]
		self[k] = d
		return d

	def pop(self, k, *d):
		if not self._sym(k):
			return dict.pop(self, k, *d)
		e = self._find(k)
		if e is None:
			if d:
				return d[0]
			raise KeyError(k)
		self._assoc.remove(e)
		return e[1]

	def keys(self):
		if self._assoc is None:
			return dict.keys(self)
		return [k for k, _ in self._assoc]

	def values(self):
		if self._assoc is None:
			return dict.values(self)
		return [v for _, v in self._assoc]

	def items(self):
		if self._assoc is None:
			return dict.items(self)
		return [(k, v) for k, v in self._assoc]

	def __iter__(self):
		return iter(self.keys())

	def __len__(self):
		return dict.__len__(self) if self._assoc is None else len(self._assoc)

	def __bool__(self):
		return len(self) > 0

	def update(self, *a, **k):
		for src in a + (k,):
			items = src.items() if hasattr(src, "keys") else src
			for kk, v in items:
				self[kk] = v

	def copy(self):
		return SxDict(self)

	def clear(self):
		dict.clear(self)
		self._assoc = None

	def __eq__(self, o):
		if self._assoc is None and not (isinstance(o, SxDict) and o._assoc):
			return dict.__eq__(self, o)
		if len(self) != len(o):
			return False
		for k, v in self.items():
			if k not in o or not rt_eq(o[k], v):
				return False
		return True

	def __ne__(self, o):
		return not self == o
	__hash__ = None


class SxDefaultDict(SxDict):
	def __init__(self, factory=None, *a, **k):
		self.default_factory = factory
		SxDict.__init__(self, *a, **k)

	def __missing__(self, k):
		v = self.default_factory()
		self[k] = v
		return v

	def __getitem__(self, k):
		if k not in self:
			return self.__missing__(k)
		return SxDict.__getitem__(self, k)


class SxSet(object):
	def __init__(self, it=()):
		self.c = set()
		self.s = None
		for x in it:
			self.add(x)

	def _go(self):
		if self.s is None:
			self.s = sorted(self.c, key=repr)

	def add(self, x):
		if self.s is None and not keysym(x):
			self.c.add(x)
			return
		self._go()
		if x not in self:
			self.s.append(x)

	def __contains__(self, x):
		if self.s is None and not keysym(x):
			return x in self.c
		self._go()
		for y in self.s:
			if rt_eq(y, x):
				return True
		return False

	def __iter__(self):
		return iter(self.c if self.s is None else list(self.s))

	def __len__(self):
		return len(self.c if self.s is None else self.s)

	def __bool__(self):
		return len(self) > 0

	def remove(self, x):
		if x not in self:
			raise KeyError(x)
		self.discard(x)

	def discard(self, x):
		if self.s is None and not keysym(x):
			self.c.discard(x)
			return
		self._go()
		for i, y in enumerate(self.s):
			if rt_eq(y, x):
				del self.s[i]
				return

	def update(self, *its):
		for it in its:
			for x in it:
				self.add(x)

	def union(self, *its):
		r = SxSet(self)
		r.update(*its)
		return r
	__or__ = union

	def __ior__(self, o):
		self.update(o)
		return self

	def intersection(self, o):
		return SxSet(x for x in self if x in o)
	__and__ = intersection

	def difference(self, o):
		return SxSet(x for x in self if x not in o)
	__sub__ = difference

	def issubset(self, o):
		return all(x in o for x in self)
	__le__ = issubset

	def __eq__(self, o):
		return len(self) == len(o) and all(x in o for x in self)

	def __ne__(self, o):
		return not self == o
	__hash__ = None

	def pop(self):
		for x in self:
			self.discard(x)
			return x
		raise KeyError("pop from an empty set")

	def copy(self):
		return SxSet(self)

	def __repr__(self):
		return "SxSet(%r)" % list(self)


def keysym(k):
	if isinstance(k, Sym):
		return True
	if type(k) is tuple:
		return any(keysym(x) for x in k)
	return False


def rt_eq(a, b):
	if a is b:
		return True
	if type(a) is tuple and type(b) is tuple:
		return len(a) == len(b) and all(rt_eq(x, y) for x, y in zip(a, b))
	return bool(a == b)


class SxRange(object):
	def __init__(self, a, b, c):
		self.a, self.b, self.c = a, b, c

	def __iter__(self):
		i = self.a
		n = 0
		while True:
			if self.c > 0:
				if not i < self.b:
					return
			elif not i > self.b:
				return
			yield i
			i = i + self.c
			n += 1
			if n > T.ENG.lim.max_loop:
				raise PathCut("range loop")

	def length(self):
		n = self.b - self.a
		if n <= 0:
			return 0
		return (n + self.c - 1) // self.c if self.c != 1 else n

	def __len__(self):
		return self.length().__index__()

	def contains(self, x):
		if self.c != 1:
			raise EngineGap("range step contains")
		return and_(x >= self.a, x < self.b)

	def __contains__(self, x):
		return bool(self.contains(x))

	def __getitem__(self, i):
		return self.a + i * self.c


# ---------------------------------------------------------------- hooks table
class Runtime(object):
	def __init__(self):
		self.hooks = {}
		self.method_hooks = {}
		self.isinstance_extra = []
		self.seen_gaps = {}
		from . import builtins_hooks
		builtins_hooks.install(self)

	# call ---------------------------------------------------------------
	def call(self, f, *args, **kw):
		try:
			h = self.hooks.get(f)
		except TypeError:
			h = None
		if h is not None:
			return h(*args, **kw)
		tf = type(f)
		if getattr(f, "__module__", None) in FORBIDDEN and f not in ALLOWED:
			raise EngineGap("native %s.%s" % (f.__module__, getattr(f, "__name__", f)))
		if tf is types.FunctionType or tf is types.MethodType:
			return f(*args, **kw)
		if tf is functools.partial:
			return self.call(f.func, *(f.args + args), **dict(f.keywords, **kw))
		if tf is types.BuiltinMethodType:
			s = f.__self__
			ts = type(s)
			if s is None or isinstance(s, types.ModuleType):
				if has_sym(args) or (kw and has_sym(list(kw.values()))):
					return self.unknown(f, args, kw)
				return f(*args, **kw)
			if ts in SEQ_TYPES:
				if f.__name__ == "join" and args and not isinstance(args[0], (list, tuple)):
					args = (list(args[0]),)
				if has_sym(args) or (kw and has_sym(list(kw.values()))):
					return self.seq_method(s, f.__name__, args, kw)
			elif ts in (dict,) and f.__name__ in ("get", "pop", "setdefault", "__getitem__") \
					and keysym(args[0]):
				return self.dict_method(s, f.__name__, args)
			elif ts in (list, SxList):
				return f(*args, **kw)
			elif ts is int and has_sym(args):
				return getattr(T.lift(s), f.__name__)(*args, **kw)
			elif ts is type and has_sym(args):
				# classmethods such as int.from_bytes, dict.fromkeys, bytes.fromhex
				h = self.method_hooks.get((s, f.__name__))
				if h is not None:
					return h(*args, **kw)
				return self.unknown(f, args, kw)
			elif ts is set and has_sym(args):
				return self.set_method(s, f.__name__, args)
			return f(*args, **kw)
		if tf is types.MethodDescriptorType:
			# e.g. str.lower(x) / bytes.startswith(x, ...)
			if args and isinstance(args[0], Sym):
				return getattr(args[0], f.__name__)(*args[1:], **kw)
			if has_sym(args):
				return self.call(getattr(args[0], f.__name__), *args[1:], **kw)
		return f(*args, **kw)

	def unknown(self, f, args, kw):
		name = getattr(f, "__module__", "") or ""
		if name in FORBIDDEN:
			raise EngineGap("native %s.%s" % (name, getattr(f, "__name__", f)))
		name = "%s.%s" % (name, getattr(f, "__qualname__", repr(f)))
		T.ENG.note_concretize("call of native %s" % name)
		args = [self.force(a) for a in args]
		kw = {k: self.force(v) for k, v in kw.items()}
		return f(*args, **kw)

	def force(self, x):
		"""single concrete value of x (path becomes incomplete)"""
		E = T.ENG
		if isinstance(x, SymInt):
			return E.concretize(x, limit=1)
		if isinstance(x, SymBool):
			return bool(x)
		if isinstance(x, SymBytes):
			return bytes(E.concretize(b, limit=1) if is_sym(b) else b for b in x.elems())
		if isinstance(x, SymByteArray):
			return bytearray(self.force(x.v))
		if isinstance(x, SymStr):
			return "".join(chr(E.concretize(b, limit=1) if is_sym(b) else b) for b in x.elems())
		if type(x) in (list, SxList):
			return [self.force(y) for y in x]
		if type(x) is tuple:
			return tuple(self.force(y) for y in x)
		if isinstance(x, SxDict):
			return {self.force(k): self.force(v) for k, v in x.items()}
		return x

	# sequence methods on concrete receivers with symbolic arguments --------
	def lift_seq(self, s):
		if isinstance(s, str):
			return SymStr([ord(c) for c in s])
		return SymBytes([Lit(list(bytes(s)))])

	def seq_method(self, s, name, args, kw):
		if name == "join":
			return self.join(s, args[0])
		if name == "format":
			return self.str_format(s, args, kw)
		if isinstance(s, bytearray):
			b = SymByteArray(bytes(s))
			if name in ("append", "extend"):
				raise EngineGap("native bytearray mutation")
			return getattr(b, name)(*args, **kw)
		if isinstance(s, str) and name == "encode":
			return s.encode(*self.force(args), **kw)
		if isinstance(s, bytes) and name == "decode":
			return s.decode(*self.force(args), **kw)
		m = getattr(self.lift_seq(s), name, None)
		if m is None:
			return self.unknown(getattr(s, name), args, kw)
		return m(*args, **kw)

	def dict_method(self, d, name, args):
		k = args[0]
		for kk in d:
			if rt_eq(kk, k):
				return getattr(d, name)(kk, *args[1:])
		if name == "get":
			return args[1] if len(args) > 1 else None
		if name == "pop":
			if len(args) > 1:
				return args[1]
			raise KeyError(k)
		if name == "__getitem__":
			raise KeyError(k)
		raise EngineGap("symbolic key stored into a native dict")

	def set_method(self, s, name, args):
		if name in ("add", "update"):
			raise EngineGap("symbolic value stored into a native set")
		if name in ("remove", "discard"):
			for x in list(s):
				if rt_eq(x, args[0]):
					s.discard(x)
					return
			if name == "remove":
				raise KeyError(args[0])
			return
		return self.unknown(getattr(s, name), args, {})

	# operators ------------------------------------------------------------
	def eq(self, a, b):
		return a == b

	def contains(self, y, x):
		"""x in y"""
		if isinstance(y, SeqBase) or isinstance(y, (SymByteArray, SxRange)):
			if isinstance(x, (int, SymInt)) and getattr(y, "kind", "") == "bytes":
				return or_(*[e == x for e in as_rope(y).elems()])
			return y.contains(x)
		if isinstance(y, (SxDict, SxSet)):
			return x in y
		ty = type(y)
		if ty in (list, tuple, SxList):
			if has_sym(x) or has_sym(y):
				for e in y:
					if rt_eq(e, x):
						return True
				return False
			return x in y
		if keysym(x):
			if isinstance(y, (str, bytes, bytearray)):
				if isinstance(x, (int, SymInt)):
					return or_(*[e == x for e in bytes(y)])
				return self.lift_seq(y).contains(x)
			if isinstance(y, (dict, set, frozenset)) or isinstance(y, type({}.keys())):
				for e in sorted(y, key=repr) if isinstance(y, (set, frozenset)) else y:
					if rt_eq(e, x):
						return True
				return False
			if isinstance(y, range):
				return or_(*[]) if len(y) == 0 else (
					and_(x >= y[0], x <= y[-1]) if y.step == 1 else x in list(y))
		return x in y

	def not_contains(self, y, x):
		return not_(self.contains(y, x))

	def getitem(self, o, i):
		if isinstance(i, SymInt):
			if isinstance(o, (list, tuple)):
				n = len(o)
				if n == 0:
					raise IndexError("list index out of range")
				if i < 0:
					i = i + n
					if i < 0:
						raise IndexError("list index out of range")
				if i >= n:
					raise IndexError("list index out of range")
				if isinstance(i, int):
					return o[i]
				if n > 1 and all(isinstance(x, (int, SymInt)) and not isinstance(x, bool) for x in o):
					return self.table(o, i)
				return o[T.ENG.concretize(i)]
			if isinstance(o, (bytes, bytearray)):
				return self.lift_seq(bytes(o))[i]
			if isinstance(o, str):
				n = len(o)
				if i < 0:
					i = i + n
					if i < 0:
						raise IndexError("string index out of range")
				if i >= n:
					raise IndexError("string index out of range")
				return SymStr.mk([self.table([ord(c) for c in o], i)])
			if isinstance(o, dict) and not isinstance(o, SxDict):
				return self.dict_method(o, "__getitem__", (i,))
			return o[i]
		if isinstance(i, slice):
			if has_sym((i.start, i.stop, i.step)):
				if isinstance(o, (bytes, str, bytearray)):
					r = self.lift_seq(o)[i]
					return r
				if isinstance(o, (list, tuple)):
					return o[slice(*[x if x is None else (T.ENG.enum_len(x) if is_sym(x) else x)
					                 for x in (i.start, i.stop, i.step)])]
			return o[i]
		if isinstance(o, dict) and not isinstance(o, SxDict) and keysym(i) and type(o) is dict:
			return self.dict_method(o, "__getitem__", (i,))
		return o[i]

	def table(self, tab, i):
		"""merged table lookup"""
		n = len(tab)
		lo, hi = T.rng(i)
		lo, hi = max(lo, 0), min(hi, n - 1)
		r = tab[hi]
		# group equal runs
		for j in range(hi - 1, lo - 1, -1):
			if isinstance(tab[j], int) and isinstance(r, int) and tab[j] == r:
				continue
			r = ite(i == j, tab[j], r) if j == lo else ite(i <= j, tab[j], r)
		return r

	def setitem(self, o, i, v):
		if isinstance(i, SymInt) and isinstance(o, list):
			o[T.ENG.concretize(i)] = v
			return
		if type(o) is dict and keysym(i):
			for kk in o:
				if rt_eq(kk, i):
					o[kk] = v
					return
			raise EngineGap("symbolic key stored into a native dict")
		if isinstance(o, bytearray) and (is_sym(v) or has_sym(i)):
			raise EngineGap("symbolic store into a native bytearray")
		o[i] = v

	def delitem(self, o, i):
		if type(o) is dict and keysym(i):
			for kk in o:
				if rt_eq(kk, i):
					del o[kk]
					return
			raise KeyError(i)
		del o[i]

	def mod(self, a, b):
		if isinstance(a, str):
			if isinstance(b, (int, float, str)) and not isinstance(b, Sym):
				return a % b
			if has_sym(b) or isinstance(b, SxDict) or _deep_objs(b):
				return self.str_mod(a, b)
			return a % b
		if isinstance(a, bytes):
			if has_sym(b):
				raise EngineGap("bytes % symbolic")
			return a % b
		return a % b

	def repeat(self, o, n):
		if isinstance(o, (bytes, bytearray)):
			o = self.lift_seq(bytes(o))
			return o.repeat(n)
		if isinstance(o, str):
			return self.lift_seq(o).repeat(n)
		if isinstance(o, Sym):
			return o.repeat(n)
		n = T.ENG.enum_len(n) if is_sym(n) else n
		return o * n

	def join(self, sep, items):
		items = list(items)
		if isinstance(sep, (bytes, bytearray)) or (isinstance(sep, SeqBase) and sep.kind == "bytes"):
			segs = []
			for i, x in enumerate(items):
				if i and len_(sep):
					segs.extend(as_rope(sep).segs)
				if not isinstance(x, (bytes, bytearray, SymBytes, SymByteArray)):
					raise TypeError("sequence item %d: expected a bytes-like object" % i)
				segs.extend(as_rope(x).segs)
			return SymBytes(segs).norm_out()
		out = []
		sp = [ord(c) for c in sep] if isinstance(sep, str) else sep.elems()
		for i, x in enumerate(items):
			if i:
				out.extend(sp)
			if isinstance(x, str):
				out.extend(ord(c) for c in x)
			elif isinstance(x, SymStr):
				out.extend(x.elems())
			else:
				raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
		return SymStr.mk(out)

	# text formatting --------------------------------------------------------
	def str_mod(self, fmt, args):
		if isinstance(fmt, str) and not isinstance(args, dict):
			import re
			convs = [m for m in re.findall(r"%[-#0 +]*(?:\d+|\*)?(?:\.\d+)?[hlL]?([a-zA-Z%])", fmt) if m != "%"]
			av = args if isinstance(args, tuple) else (args,)
			if len(convs) != len(av):
				raise TypeError("not enough arguments for format string" if len(convs) > len(av)
				                else "not all arguments converted during string formatting")
			for c, a in zip(convs, av):
				if c in "dixXofeEgG" and not isinstance(a, (int, float, SymInt, SymBool, T.SymFloat)):
					raise TypeError("%%%s format: a number is required, not %s" % (c, type(a).__name__))
		return SymStr.lazy(lambda: self._str_mod(fmt, args))

	def _str_mod(self, fmt, args):
		import re
		if isinstance(fmt, SymStr):
			if any(is_sym(c) for c in fmt.elems()):
				raise EngineGap("symbolic format string")
			fmt = fmt.concrete()
		out = []
		mapping = isinstance(args, dict)
		if not mapping and not isinstance(args, tuple):
			args = (args,)
		ai = 0
		pos = 0
		for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\d+|\*)?(?:\.(\d+))?[hlL]?([a-zA-Z%])", fmt):
			out.append(fmt[pos:m.start()])
			pos = m.end()
			key, flags, width, prec, conv = m.groups()
			if conv == "%":
				out.append("%")
				continue
			if key is not None:
				v = args[key]
			else:
				if ai >= len(args):
					raise TypeError("not enough arguments for format string")
				v = args[ai]
				ai += 1
			out.append(self.fmt1(v, flags, width, prec, conv))
		out.append(fmt[pos:])
		if not mapping and ai < len(args):
			raise TypeError("not all arguments converted during string formatting")
		return self.join("", out)

	def fmt1(self, v, flags, width, prec, conv):
		w = int(width) if width else 0
		if isinstance(v, SymBool):
			v = bool(v)
		if not isinstance(v, Sym):
			if conv in "sr" and not isinstance(v, (str, int, float, bytes, type(None), bool)):
				return self.to_str(v)
			return ("%" + flags + (width or "") + ("." + prec if prec else "") + conv) % v
		if conv in "sr":
			s = self.to_str(v)
			if conv == "r" and isinstance(v, SymStr):
				s = self.join("", ["'", s, "'"])
		elif conv in "di":
			if isinstance(v, T.SymFloat):
				v = v.trunc()
				if isinstance(v, int):
					return self.fmt1(v, flags, width, prec, conv)
			if not isinstance(v, SymInt):
				raise TypeError("%d format: a real number is required")
			s = self.decimal(v)
			if prec and len(s) < int(prec):
				neg = len(s) > 0 and s[0] == "-"
				if neg:
					s = self.join("", ["-", "0" * (int(prec) + 1 - len(s)), s[1:]])
				else:
					s = "0" * (int(prec) - len(s)) + s
		elif conv in "xX":
			if not isinstance(v, SymInt):
				raise TypeError("%x format: an integer is required, not " + type(v).__name__)
			s = self.hexstr(v, conv == "X", int(prec or 0) if prec is not None
				else w if "0" in flags else 0)
		elif conv in "fF" and isinstance(v, T.SymFloat):
			p = 6 if prec is None else int(prec)
			if v.num < 0 or 10 ** p % v.den:
				raise EngineGap("formatting a rounded symbolic fraction")
			k = v.num * (10 ** p // v.den)
			s = self.decimal(k // 10 ** p)
			if p:
				d = k % 10 ** p
				ds = []
				for _ in range(p):
					d, r = d // 10, d % 10
					ds.append(r + 48)
				s = self.join("", [s, ".", SymStr.mk(ds[::-1])])
		elif conv == "c":
			s = SymStr.mk([v]) if isinstance(v, SymInt) else v
		else:
			return self.fmt1(self.force(v), flags, width, prec, conv)
		if w:
			n = len(s)
			if n < w:
				pad = ("0" if "0" in flags and conv not in "sr" else " ") * (w - n)
				s = s + pad if "-" in flags else pad + s
		return s

	def to_str(self, v):
		if isinstance(v, SymStr):
			return v
		if isinstance(v, SymInt):
			return self.decimal(v)
		if isinstance(v, SymBool):
			return str(bool(v))
		if isinstance(v, (SymBytes, SymByteArray)):
			return str(self.force(v))
		if isinstance(v, (list, tuple)) and has_sym(v):
			return str(self.force(v))
		cls = type(v)
		if "__str__" in dir(cls) and cls.__str__ is not object.__str__ and \
				isinstance(cls.__str__, types.FunctionType):
			return cls.__str__(v)
		if isinstance(v, BaseException) and has_sym(v.args):
			return self.to_str(v.args[0]) if len(v.args) == 1 else str(self.force(v.args))
		return str(v)

	def decimal(self, v):
		if isinstance(v, int):
			return str(v)
		if v < 0:
			return self.join("", ["-", self.decimal(-v)])
		digits = []
		n = 1
		while True:
			if v < 10 ** n:
				break
			n += 1
		for _ in range(n):
			v, r = v // 10, v % 10
			digits.append(r + 48)
		digits.reverse()
		return SymStr.mk(digits)

	def hexstr(self, v, up, minw):
		if isinstance(v, int):
			return ("%X" if up else "%x") % v
		if v < 0:
			return self.join("", ["-", self.hexstr(-v, up, 0)])
		n = max(1, minw)
		while not (v < 16 ** n):
			n += 1
		ds = []
		for _ in range(n):
			v, r = v >> 4, v & 15
			ds.append(hexdigit(r, up))
		ds.reverse()
		return SymStr.mk(ds)

	def str_format(self, fmt, args, kw):
		import string

		def thunk():
			out = []
			auto = 0
			for lit, field, spec, conv in string.Formatter().parse(fmt):
				out.append(lit)
				if field is None:
					continue
				if field == "":
					v = args[auto]
					auto += 1
				else:
					import re
					m = re.match(r"^(\w+)(.*)$", field)
					k, rest = m.groups()
					v = args[int(k)] if k.isdigit() else kw[k]
					for mm in re.finditer(r"\.(\w+)|\[([^\]]+)\]", rest):
						if mm.group(1):
							v = getattr(v, mm.group(1))
						else:
							kk = mm.group(2)
							v = v[int(kk) if kk.isdigit() else kk]
				out.append(self.fmt_spec(v, spec, conv))
			return self.join("", out)
		return SymStr.lazy(thunk)

	def fmt_spec(self, v, spec, conv=None):
		if conv in ("s", "r"):
			v = self.fmt1(v, "", None, None, conv)
		if isinstance(spec, SymStr):
			spec = self.force(spec)
		if not isinstance(v, Sym):
			if has_sym(v):
				v = self.force(v)
			return format(v, spec or "") if not hasattr(v, "__dict__") else self.to_str(v)
		if not spec:
			return self.to_str(v)
		import re
		m = re.match(r"^(0?)(\d*)([dxX]?)$", spec)
		if m and isinstance(v, SymInt):
			return self.fmt1(v, m.group(1), m.group(2) or None, None, m.group(3) or "d")
		m = re.match(r"^([<>]?)(\d+)s?$", spec)
		if m and isinstance(v, SymStr):
			return self.fmt1(v, "" if m.group(1) == ">" else "-", m.group(2), None, "s")
		return format(self.force(v), spec)

	def fstring(self, *parts):
		def thunk():
			out = []
			for p in parts:
				if isinstance(p, tuple):
					v, conv, spec = p
					out.append(self.fmt_spec(v, spec, conv))
				else:
					out.append(p)
			return self.join("", out)
		if any(isinstance(p, tuple) and (has_sym(p[0]) or _deep_objs(p[0])) for p in parts):
			return SymStr.lazy(thunk)
		return thunk()

	# codecs -----------------------------------------------------------------
	def decode(self, data, enc="utf-8", errors="strict"):
		e = norm_enc(enc)
		b = data.elems()
		if not any(is_sym(x) for x in b):
			return bytes(b).decode(enc, errors)
		if e in ("latin-1",):
			return SymStr.mk(b)
		if e == "ascii":
			out = []
			for i, x in enumerate(b):
				if x < 128:
					out.append(x)
				elif errors == "ignore":
					pass
				elif errors == "replace":
					out.append(0xFFFD)
				else:
					raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "symbolic: ordinal not in range(128)")
			return SymStr.mk(out)
		if e == "utf-8":
			return SymStr.mk(self.dec_utf8(b, errors))
		if e in ("utf-16-le", "utf-16-be"):
			return SymStr.mk(self.dec_utf16(b, e.endswith("le"), errors))
		if e in CHARMAPS:
			f = charmap_dec(e)
			out = []
			for x in b:
				y = char_map(x, f)
				if y is None:
					if errors == "ignore":
						continue
					if errors == "replace":
						y = 0xFFFD
					else:
						raise UnicodeDecodeError(e, b"\x81", 0, 1, "symbolic: character maps to <undefined>")
				out.append(y)
			return SymStr.mk(out)
		T.ENG.note_concretize("codec " + enc)
		return self.force(data).decode(enc, errors)

	def dec_utf8(self, b, errors):
		out = []
		i, n = 0, len(b)

		def bad(ln=1):
			if errors == "strict":
				raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "symbolic: invalid utf-8")
			if errors == "replace":
				out.append(0xFFFD)
			elif errors == "surrogateescape":
				for j in range(ln):
					out.append(b[i + j] + 0xDC00)
			elif errors != "ignore":
				raise EngineGap("utf-8 errors=" + errors)
			return ln

		def cont(j, lo=0x80, hi=0xBF):
			return j < n and bool(and_(b[j] >= lo, b[j] <= hi))
		while i < n:
			x = b[i]
			if x < 0x80:
				out.append(x)
				i += 1
			elif x < 0xC2:
				i += bad()
			elif x < 0xE0:
				if cont(i + 1):
					out.append((x - 0xC0) * 64 + (b[i + 1] - 0x80))
					i += 2
				else:
					i += bad()
			elif x < 0xF0:
				if x == 0xE0:
					lo, hi = 0xA0, 0xBF
				elif x == 0xED:
					lo, hi = 0x80, 0x9F
				else:
					lo, hi = 0x80, 0xBF
				if not cont(i + 1, lo, hi):
					i += bad()
				elif not cont(i + 2):
					i += bad(2)
				else:
					out.append((x - 0xE0) * 4096 + (b[i + 1] - 0x80) * 64 + (b[i + 2] - 0x80))
					i += 3
			elif x < 0xF5:
				if x == 0xF0:
					lo, hi = 0x90, 0xBF
				elif x == 0xF4:
					lo, hi = 0x80, 0x8F
				else:
					lo, hi = 0x80, 0xBF
				if not cont(i + 1, lo, hi):
					i += bad()
				elif not cont(i + 2):
					i += bad(2)
				elif not cont(i + 3):
					i += bad(3)
				else:
					out.append((x - 0xF0) * 262144 + (b[i + 1] - 0x80) * 4096 +
					           (b[i + 2] - 0x80) * 64 + (b[i + 3] - 0x80))
					i += 4
			else:
				i += bad()
		return out

	def dec_utf16(self, b, le, errors):
		out = []
		i, n = 0, len(b)
		def fail(msg):
			if errors == "strict":
				raise UnicodeDecodeError("utf-16-le", b"\x00", 0, 1, "symbolic: " + msg)
			if errors == "replace":
				out.append(0xFFFD)
		while i < n:
			if i + 1 >= n:
				fail("truncated data")
				break
			u = b[i] + 256 * b[i + 1] if le else b[i + 1] + 256 * b[i]
			i += 2
			if and_(u >= 0xD800, u <= 0xDFFF):
				if u <= 0xDBFF:
					if i + 1 >= n:
						fail("unexpected end of data")
						break
					v = b[i] + 256 * b[i + 1] if le else b[i + 1] + 256 * b[i]
					if and_(v >= 0xDC00, v <= 0xDFFF):
						out.append((u - 0xD800) * 1024 + (v - 0xDC00) + 0x10000)
						i += 2
						continue
				fail("illegal UTF-16 surrogate")
				continue
			out.append(u)
		return out

	def encode(self, s, enc="utf-8", errors="strict"):
		e = norm_enc(enc)
		out = []
		cps = s.elems()
		for c in cps:
			if isinstance(c, int):
				out.extend(chr(c).encode(enc, errors) if e != "utf-16" else b"")
				continue
			if e == "utf-8":
				if c < 0x80:
					out.append(c)
				elif c < 0x800:
					out.append((c >> 6) | 0xC0)
					out.append((c & 63) | 0x80)
				elif c < 0x10000:
					if and_(c >= 0xD800, c <= 0xDFFF):
						if errors == "surrogateescape" and and_(c >= 0xDC80, c <= 0xDCFF):
							out.append(c - 0xDC00)
							continue
						if errors == "ignore":
							continue
						if errors == "replace":
							out.append(63)
							continue
						raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "symbolic: surrogates not allowed")
					out.append((c >> 12) | 0xE0)
					out.append(((c >> 6) & 63) | 0x80)
					out.append((c & 63) | 0x80)
				else:
					out.append((c >> 18) | 0xF0)
					out.append(((c >> 12) & 63) | 0x80)
					out.append(((c >> 6) & 63) | 0x80)
					out.append((c & 63) | 0x80)
			elif e in ("ascii", "latin-1"):
				if c < (128 if e == "ascii" else 256):
					out.append(c)
				elif errors == "ignore":
					pass
				elif errors == "replace":
					out.append(63)
				else:
					raise UnicodeEncodeError(e, "\uffff", 0, 1, "symbolic: ordinal not in range")
			elif e in ("utf-16-le", "utf-16-be"):
				if c < 0x10000:
					p = [c & 255, c >> 8]
					out.extend(p if e.endswith("le") else p[::-1])
				else:
					v = c - 0x10000
					for u in ((v >> 10) + 0xD800, (v & 1023) + 0xDC00):
						p = [u & 255, u >> 8]
						out.extend(p if e.endswith("le") else p[::-1])
			elif e in CHARMAPS:
				y = char_map(c, charmap_enc(e))
				if y is None:
					if errors == "ignore":
						continue
					if errors == "replace":
						y = 63
					else:
						raise UnicodeEncodeError(e, "\uffff", 0, 1, "symbolic: character maps to <undefined>")
				out.append(y)
			else:
				T.ENG.note_concretize("codec " + enc)
				return self.force(s).encode(enc, errors)
		return SymBytes.lit(out)


def _deep_objs(b):
	"""does formatting b call instrumented __str__/__repr__ that may be symbolic?"""
	if isinstance(b, (str, int, float, bytes, type(None))):
		return False
	if isinstance(b, tuple):
		return any(_deep_objs(x) for x in b)
	return hasattr(b, "__dict__") and not isinstance(b, (type, types.FunctionType, types.ModuleType))


import os as _os
FORBIDDEN = {"posix", "os", "shutil", "subprocess", "socket", "_socket", "tempfile", "_posixsubprocess"}
ALLOWED = {_os.getenv, _os.strerror, _os.fsencode, _os.fsdecode, _os.fspath, _os.getpid, _os.environ.get}
SEQ_TYPES = (bytes, str, bytearray)
CHARMAPS = {"cp1252", "cp437", "cp850"}


def norm_enc(enc):
	import codecs
	n = codecs.lookup(enc).name
	return {"iso8859-1": "latin-1"}.get(n, n)


_cm = {}


def charmap_dec(e):
	f = _cm.get(("d", e))
	if f is None:
		def f(x):
			try:
				return ord(bytes([x]).decode(e))
			except UnicodeError:
				return None
		_cm[("d", e)] = f
	return f


def charmap_enc(e):
	f = _cm.get(("e", e))
	if f is None:
		def f(x):
			try:
				return chr(x).encode(e)[0]
			except UnicodeError:
				return None
		_cm[("e", e)] = f
	return f


def len_(x):
	if isinstance(x, (SeqBase, SymByteArray, SxRange)):
		return x.length()
	cls = type(x)
	m = getattr(cls, "__len__", None)
	if isinstance(m, types.FunctionType) and not isinstance(x, (SxDict, SxSet)):
		return m(x)
	return len(x)
