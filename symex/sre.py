"""Symbolic regular expression matching: a backtracking matcher over the
parsed pattern whose character tests are solver decisions (so the priority
order of Python's own engine is preserved exactly)."""
import re
import re._parser as sp
import re._constants as sc
from . import terms as T
from .terms import SymInt, EngineGap, and_, or_, not_, is_sym
from .seqs import SymStr, SymBytes, SymByteArray, SeqBase, in_ranges, char_pred, ranges_of, as_rope

CAT = {
	sc.CATEGORY_DIGIT: lambda x: chr(x).isdecimal(),
	sc.CATEGORY_SPACE: lambda x: chr(x).isspace(),
	sc.CATEGORY_WORD: lambda x: chr(x).isalnum() or x == 95,
}
CATB = {
	sc.CATEGORY_DIGIT: lambda x: 48 <= x <= 57,
	sc.CATEGORY_SPACE: lambda x: x in (9, 10, 11, 12, 13, 32),
	sc.CATEGORY_WORD: lambda x: 48 <= x <= 57 or 65 <= x <= 90 or 97 <= x <= 122 or x == 95,
}
NEG = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE,
       sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}


def fold(x):
	s = chr(x)
	r = {x}
	for t in (s.lower(), s.upper()):
		if len(t) == 1:
			r.add(ord(t))
	return r


class Matcher(object):
	def __init__(self, pat, flags, a, is_bytes):
		self.flags = flags
		self.a = a
		self.n = len(a)
		self.b = is_bytes or bool(flags & re.ASCII)

	def lit(self, c, x):
		if self.flags & re.IGNORECASE:
			return or_(*[c == y for y in sorted(fold(x))])
		return c == x

	def cls(self, c, items):
		neg = False
		parts = []
		ic = self.flags & re.IGNORECASE
		for op, av in items:
			if op is sc.NEGATE:
				neg = True
			elif op is sc.LITERAL:
				parts.append(self.lit(c, av))
			elif op is sc.RANGE:
				lo, hi = av
				parts.append(and_(c >= lo, c <= hi))
				if ic:
					for y in range(lo, hi + 1):
						for z in fold(y):
							if not lo <= z <= hi:
								parts.append(c == z)
			elif op is sc.CATEGORY:
				parts.append(self.cat(c, av))
			else:
				raise EngineGap("regex class %s" % op)
		r = or_(*parts)
		return not_(r) if neg else r

	def cat(self, c, av):
		neg = av in NEG
		p = (CATB if self.b else CAT)[NEG.get(av, av)]
		r = char_pred(c, p)
		return not_(r) if neg else r

	def single(self, op, av):
		"""test function if node consumes exactly one character"""
		if op is sc.LITERAL:
			return lambda c: self.lit(c, av)
		if op is sc.NOT_LITERAL:
			return lambda c: not_(self.lit(c, av))
		if op is sc.ANY:
			if self.flags & re.DOTALL:
				return lambda c: True
			return lambda c: not_(c == 10)
		if op is sc.IN:
			return lambda c: self.cls(c, av)
		return None

	def word(self, i):
		return 0 <= i < self.n and bool(char_pred(self.a[i], (CATB if self.b else CAT)[sc.CATEGORY_WORD]))

	def m(self, nodes, k, i, g):
		"""generator of (end, groups)"""
		if k == len(nodes):
			yield i, g
			return
		op, av = nodes[k]
		t = self.single(op, av)
		if t is not None:
			if i < self.n and t(self.a[i]):
				for r in self.m(nodes, k + 1, i + 1, g):
					yield r
			return
		if op is sc.SUBPATTERN:
			grp, add, dele, sub = av
			if add or dele:
				raise EngineGap("regex inline flags")
			for j, g2 in self.m(list(sub), 0, i, g):
				if grp is not None:
					g2 = dict(g2)
					g2[grp] = (i, j)
				for r in self.m(nodes, k + 1, j, g2):
					yield r
			return
		if op is sc.BRANCH:
			for alt in av[1]:
				for j, g2 in self.m(list(alt), 0, i, g):
					for r in self.m(nodes, k + 1, j, g2):
						yield r
			return
		if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
			lo, hi, sub = av
			sub = list(sub)
			hi = None if hi is sc.MAXREPEAT else hi
			t = self.single(*sub[0]) if len(sub) == 1 else None
			if t is not None:
				if op is sc.MAX_REPEAT:
					j = i
					while j < self.n and (hi is None or j - i < hi) and t(self.a[j]):
						j += 1
					while j - i >= lo:
						for r in self.m(nodes, k + 1, j, g):
							yield r
						j -= 1
				else:
					j = i
					while True:
						if j - i >= lo:
							for r in self.m(nodes, k + 1, j, g):
								yield r
						if j >= self.n or (hi is not None and j - i >= hi) or not t(self.a[j]):
							return
						j += 1
				return

			def rep(cnt, i, g):
				if op is sc.MIN_REPEAT and cnt >= lo:
					for r in self.m(nodes, k + 1, i, g):
						yield r
				if hi is None or cnt < hi:
					for j, g2 in self.m(sub, 0, i, g):
						if j == i and cnt >= lo:
							continue
						for r in rep(cnt + 1, j, g2):
							yield r
				if op is sc.MAX_REPEAT and cnt >= lo:
					for r in self.m(nodes, k + 1, i, g):
						yield r
			for r in rep(0, i, g):
				yield r
			return
		if op is sc.AT:
			ok = False
			if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
				ok = i == 0 or (av is sc.AT_BEGINNING and self.flags & re.MULTILINE and
				                bool(self.a[i - 1] == 10))
			elif av is sc.AT_END:
				ok = i == self.n or (i == self.n - 1 and bool(self.a[i] == 10)) or \
					(self.flags & re.MULTILINE and i < self.n and bool(self.a[i] == 10))
			elif av is sc.AT_END_STRING:
				ok = i == self.n
			elif av is sc.AT_BOUNDARY:
				ok = self.word(i - 1) != self.word(i)
			elif av is sc.AT_NON_BOUNDARY:
				ok = self.word(i - 1) == self.word(i)
			else:
				raise EngineGap("regex at %s" % av)
			if ok:
				for r in self.m(nodes, k + 1, i, g):
					yield r
			return
		if op is sc.GROUPREF:
			if av not in g:
				return
			s, e = g[av]
			ln = e - s
			if i + ln <= self.n and and_(*[self.a[s + q] == self.a[i + q] for q in range(ln)]):
				for r in self.m(nodes, k + 1, i + ln, g):
					yield r
			return
		if op in (sc.ASSERT, sc.ASSERT_NOT):
			d, sub = av
			found = None
			if d > 0:
				for r in self.m(list(sub), 0, i, g):
					found = r
					break
			else:
				w = sub.getwidth()
				if w[0] != w[1]:
					raise EngineGap("lookbehind")
				if i >= w[0]:
					for r in self.m(list(sub), 0, i - w[0], g):
						found = r
						break
			if (found is not None) == (op is sc.ASSERT):
				for r in self.m(nodes, k + 1, i, g if op is sc.ASSERT_NOT else found[1]):
					yield r
			return
		raise EngineGap("regex op %s" % op)


class SymMatch(object):
	def __init__(self, pat, string, elems, span, groups):
		self.re = pat
		self.string = string
		self._e = elems
		self._s = span
		self._g = groups
		self.lastindex = max(groups) if groups else None

	def _span(self, g):
		if isinstance(g, str):
			g = self.re.groupindex[g]
		if g == 0:
			return self._s
		if g > self.re.groups:
			raise IndexError("no such group")
		return self._g.get(g, (-1, -1))

	def _get(self, g, default=None):
		s, e = self._span(g)
		if s < 0:
			return default
		return self.string.make(self._e[s:e])

	def group(self, *gs):
		if not gs:
			return self._get(0)
		if len(gs) == 1:
			return self._get(gs[0])
		return tuple(self._get(g) for g in gs)

	__getitem__ = group

	def groups(self, default=None):
		return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

	def groupdict(self, default=None):
		return {k: self._get(i, default) for k, i in self.re.groupindex.items()}

	def start(self, g=0):
		return self._span(g)[0]

	def end(self, g=0):
		return self._span(g)[1]

	def span(self, g=0):
		return self._span(g)


class SxPattern(object):
	def __init__(self, native):
		self.native = native
		self.pattern = native.pattern
		self.flags = native.flags
		self.groups = native.groups
		self.groupindex = native.groupindex
		self.nodes = None

	def _parsed(self):
		if self.nodes is None:
			self.nodes = list(sp.parse(self.pattern, self.flags & ~re.UNICODE
			                           if isinstance(self.pattern, bytes) else self.flags))
		return self.nodes

	def _try(self, s, pos, mode, elems=None):
		a = elems if elems is not None else s.elems()
		mt = Matcher(self, self.flags, a, isinstance(self.pattern, bytes))
		nodes = self._parsed()
		starts = range(pos, len(a) + 1) if mode == "search" else [pos]
		for st in starts:
			for e, g in mt.m(nodes, 0, st, {}):
				if mode == "fullmatch" and e != len(a):
					continue
				return SymMatch(self, s, a, (st, e), g)
		return None

	def _seq(self, s):
		if isinstance(s, SymByteArray):
			return as_rope(s)
		return s

	def _do(self, mode, s, *a):
		if not isinstance(s, (SeqBase, SymByteArray)):
			return getattr(self.native, mode)(s, *a)
		if a and len(a) > 1:
			raise EngineGap("regex endpos")
		if getattr(s, "kind", "str") == "bytes" and not isinstance(self.pattern, bytes):
			raise TypeError("cannot use a string pattern on a bytes-like object")
		return self._try(self._seq(s), a[0] if a else 0, mode)

	def match(self, s, *a):
		return self._do("match", s, *a)

	def search(self, s, *a):
		return self._do("search", s, *a)

	def fullmatch(self, s, *a):
		return self._do("fullmatch", s, *a)

	def finditer(self, s):
		if not isinstance(s, (SeqBase, SymByteArray)):
			for m in self.native.finditer(s):
				yield m
			return
		s = self._seq(s)
		a = s.elems()
		pos = 0
		while pos <= len(a):
			m = self._try(s, pos, "search", a)
			if m is None:
				return
			yield m
			if m.end() == m.start():
				pos = m.end() + 1
			else:
				pos = m.end()

	def findall(self, s):
		if not isinstance(s, (SeqBase, SymByteArray)):
			return self.native.findall(s)
		out = []
		for m in self.finditer(s):
			if self.groups == 0:
				out.append(m.group())
			elif self.groups == 1:
				out.append(m.group(1))
			else:
				out.append(m.groups())
		return out

	def split(self, s, maxsplit=0):
		if not isinstance(s, (SeqBase, SymByteArray)):
			return self.native.split(s, maxsplit)
		s = self._seq(s)
		a = s.elems()
		out = []
		last = 0
		for n, m in enumerate(self.finditer(s)):
			if maxsplit and n >= maxsplit:
				break
			out.append(s.make(a[last:m.start()]))
			out.extend(m.groups())
			last = m.end()
		out.append(s.make(a[last:]))
		return out

	def sub(self, repl, s, count=0):
		if not isinstance(s, (SeqBase, SymByteArray)):
			return self.native.sub(repl, s, count)
		s = self._seq(s)
		a = s.elems()
		out = []
		last = 0
		rt = T.ENG.rt
		for n, m in enumerate(self.finditer(s)):
			if count and n >= count:
				break
			out.extend(a[last:m.start()])
			if callable(repl):
				r = repl(m)
			else:
				r = self._expand(repl, m)
			out.extend(s.coerce(r))
			last = m.end()
		out.extend(a[last:])
		return s.make(out)

	def _expand(self, repl, m):
		if isinstance(repl, (SymStr, SymBytes)) or ("\\" not in repl if isinstance(repl, str) else b"\\" not in repl):
			return repl
		out = self.pattern[:0]
		for i, part in enumerate(re.split(r"\\(\d|g<\w+>)", repl)):
			if i % 2:
				g = part[2:-1] if part.startswith("g<") else part
				out = out + m.group(int(g) if g.isdigit() else g)
			else:
				out = out + part.encode().decode("unicode_escape") if part else out
		return out


_compiled = {}


def compile_(p, flags=0):
	if isinstance(p, SxPattern):
		return p
	if isinstance(p, re.Pattern):
		key = (p.pattern, p.flags)
		r = _compiled.get(key)
		if r is None:
			r = _compiled[key] = SxPattern(p)
		return r
	if isinstance(p, (SymStr, SymBytes)):
		T.ENG.note_concretize("symbolic regex pattern")
		p = T.ENG.rt.force(p)
	key = (p, int(flags))
	r = _compiled.get(key)
	if r is None:
		r = _compiled[key] = SxPattern(re.compile(p, flags))
	return r


def install(rt):
	H = rt.hooks
	H[re.compile] = compile_
	for nm in ("match", "search", "fullmatch", "findall", "finditer"):
		def f(p, s, flags=0, nm=nm):
			return getattr(compile_(p, flags), nm)(s)
		H[getattr(re, nm)] = f
	H[re.sub] = lambda p, r, s, count=0, flags=0: compile_(p, flags).sub(r, s, count)
	H[re.split] = lambda p, s, maxsplit=0, flags=0: compile_(p, flags).split(s, maxsplit)

	def esc(s):
		if isinstance(s, SymStr):
			return rt.unknown(re.escape, (s,), {})
		return re.escape(s)
	H[re.escape] = esc
