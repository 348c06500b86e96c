"""Path exploration by re-execution with decision prefixes."""
import os
import sys
import time
import z3
from . import terms as T
from .terms import (SymInt, SymBool, EngineGap, PathCut, PathInfeasible, mk_int,
                    bool_e, bits_for)


TRACE = os.environ.get("SYMEX_TRACE")


class Decided(object):
	pass


class Limits(object):
	def __init__(self, **kw):
		self.max_decisions = 600      # per path
		self.max_enum = 300           # values enumerated for one concretisation
		self.max_materialize = 4096
		self.fast_ms = 60             # first attempt of a query
		self.query_ms = 4000
		self.hard_ms = 20000
		self.max_loop = 100000
		self.__dict__.update(kw)


class Stats(object):
	FIELDS = ("paths", "decisions", "queries", "sat", "unsat", "unknown",
	          "solver_s", "checks", "check_unsat", "check_trivial", "cut", "gaps",
	          "lin_unsat", "lin_sat", "concretized", "inexact", "validated", "mismatch", "infeasible")

	def __init__(self):
		for f in self.FIELDS:
			setattr(self, f, 0)
		self.solver_s = 0.0

	def as_dict(self):
		return {f: getattr(self, f) for f in self.FIELDS}

	def add(self, d):
		for f in self.FIELDS:
			setattr(self, f, getattr(self, f) + d.get(f, 0))


class Engine(object):
	def __init__(self, limits=None, seed=1):
		self.lim = limits or Limits()
		self.max_materialize = self.lim.max_materialize
		self.seed = seed
		self.stats = Stats()
		self.rt = None
		self.functions = set()     # encoded functions (module:qualname)

	# ------------------------------------------------------------ path setup
	def start(self, prefix):
		self.atoms = {}
		self.modof = {}
		self.prov = {}            # atom -> the sums it is bits of
		self.modtab = {}
		self.keep = []
		self.lin_info = {}
		self.sel_log = []
		self.inputs = {}           # name -> spec
		self.sources = {}
		self.prefix = prefix
		self.pos = 0
		self.decisions = []
		self.nsplit = 0            # decisions the solver was asked about
		self.pending = []          # alternative prefixes found on this path
		self.pc = []
		self.lpc = []
		self.lsolver = None
		self.lvars = {}
		self.lkeys = []
		self.model = None
		self.solver = z3.Solver()
		self.solver.set("random_seed", self.seed)
		self.notes = []
		self.incomplete = None
		self.inexact = False
		self.counter = {}
		self.facts = {}
		self.lfacts = []
		self.deadline = None
		self.tainted = set()       # UF-valued inputs (crc etc.)
		self.crcs = []             # (content, checksum) of symbolic contents
		self.abort = None
		self.loops = 0
		from .vfs import VFS
		self.vfs = VFS()
		self.crc_hist = {}
		self.hexdig = {}
		self.byte_src = {}         # bytes of a value -> the value
		T.set_engine(self)

	def fresh_name(self, base):
		n = self.counter.get(base, 0)
		self.counter[base] = n + 1
		return "%s!%d" % (base, n)

	def fresh_bool(self, base):
		return z3.Bool(self.fresh_name(base))

	def fresh_bv(self, base, w):
		return z3.BitVec(self.fresh_name(base), w)

	def fresh_int(self, base, lo, hi):
		v = z3.BitVec(self.fresh_name(base), bits_for(hi - lo))
		x = mk_int(v, 0, hi - lo)
		if hi - lo != (1 << bits_for(hi - lo)) - 1:
			self.add(z3.ULE(v, z3.BitVecVal(hi - lo, v.size())))
		return x + lo

	def note_concretize(self, what):
		self.stats.concretized += 1
		self.incomplete = self.incomplete or ("concretized: " + str(what)[:100])

	def note_inexact(self, what):
		self.inexact = True
		self.stats.inexact += 1
		self.notes.append(what)

	def note_cut(self, what):
		self.incomplete = self.incomplete or ("bound: " + what)

	# ------------------------------------------------------------ solver
	def add(self, e, src=None, val=True):
		"""add a constraint; src: the comparison it came from (kept for the
		integer view of the path condition), val: its truth value"""
		self.pc.append(e)
		self.solver.add(e)
		if self.model is not None and not z3.is_true(self._eval(self.model, e)):
			self.model = None
		self.lpc.append((e if src is None else src, val))

	# -------------------------------------------------- integer abstraction
	# Comparisons of linear combinations dominate (positions and lengths in
	# ropes), and bit-blasting sums of 64-bit terms is slow.  Their integer
	# reading forms a weaker path condition: if it is unsatisfiable, so is the
	# real one; if not, its values are a candidate that the bit-vector solver
	# completes or rejects.  The bit-vector solver has the last word on "sat".
	def _lvar(self, k):
		v = self.lvars.get(k)
		if v is None:
			a = self.atoms[k]
			v = self.lvars[k] = z3.Int("l%d" % len(self.lvars))
			self.lkeys.append(k)
			self.lsolver.add(v >= a.lo, v <= a.hi)
		return v

	def _lconv(self, e, val):
		if z3.is_not(e):
			return self._lconv(e.arg(0), not val)
		if z3.is_and(e) or z3.is_or(e):
			parts = [self._lconv(c, val) for c in e.children()]
			known = [p for p in parts if p is not None]
			if z3.is_and(e) == val:
				return z3.And(*known) if known else None
			return z3.Or(*known) if len(known) == len(parts) else None
		info = self.lin_info.get(e.get_id())
		if info is None:
			return None
		op, d, _ = info
		x = z3.IntVal(d.c)
		for k, f in d.t.items():
			x = x + f * self._lvar(k)
		if op == "lt":
			return x < 0 if val else x >= 0
		if op == "le":
			return x <= 0 if val else x > 0
		return x == 0 if val else x != 0

	def _lin_check(self, extra, src, val):
		if self.lsolver is None:
			self.lsolver = z3.SimpleSolver()
			self.lsolver.set("timeout", 3000)
			self.ldone = 0
		ls = self.lsolver
		while self.ldone < len(self.lpc):
			c = self._lconv(*self.lpc[self.ldone])
			self.ldone += 1
			if c is not None:
				ls.add(c)
		q = None
		if extra is not None:
			q = self._lconv(extra if src is None else src, val)
		ls.push()
		if q is not None:
			ls.add(q)
		r = ls.check()
		m = ls.model() if r == z3.sat else None
		vals = []
		if m is not None:
			for k in self.lkeys:
				v = m[self.lvars[k]]
				if v is not None:
					vals.append((k, v.as_long()))
		ls.pop()
		if r == z3.unsat:
			return r, None
		if r == z3.sat and vals:
			s = self.solver
			s.set("timeout", 1000)
			s.push()
			if extra is not None:
				s.add(extra)
			for k, v in vals:
				e = self.atoms[k].e
				s.add(e == z3.BitVecVal(v, e.size()))
			r = s.check()
			m = s.model() if r == z3.sat else None
			s.pop()
			if r == z3.sat:
				return r, m
		return z3.unknown, None

	def _check(self, extra, src=None, val=True):
		st = self.stats
		st.queries += 1
		t0 = time.time()
		s = self.solver
		s.set("timeout", min(self.lim.fast_ms, self.lim.query_ms))
		s.push()
		if extra is not None:
			s.add(extra)
		r = s.check()
		m = None
		if r == z3.sat:
			m = s.model()
		s.pop()
		if r == z3.unknown:
			r, m = self._lin_check(extra, src, val)
			if r == z3.unsat:
				st.lin_unsat += 1
			elif r == z3.sat:
				st.lin_sat += 1
		if r == z3.unknown:
			s2 = z3.SolverFor("QF_UFBV")
			s2.set("timeout", self.lim.hard_ms)
			for p in self.pc:
				s2.add(p)
			if extra is not None:
				s2.add(extra)
			r = s2.check()
			if r == z3.sat:
				m = s2.model()
		st.solver_s += time.time() - t0
		if r == z3.sat:
			st.sat += 1
		elif r == z3.unsat:
			st.unsat += 1
		else:
			st.unknown += 1
		return r, m

	def get_model(self):
		if self.model is None:
			r, m = self._check(None)
			if r == z3.unsat:
				raise PathInfeasible()
			if r != z3.sat:
				raise PathCut("solver gave up on the path condition")
			self.model = m
		return self.model

	def _eval(self, m, e):
		return m.eval(e, model_completion=True)

	def assume(self, c):
		"""Constrain the path (harness preconditions)."""
		if isinstance(c, (SymBool, SymInt)):
			e0 = bool_e(c)
			e = z3.simplify(e0)
			if z3.is_true(e):
				return
			if z3.is_false(e):
				raise PathInfeasible()
			self.add(e, e0)
			self._learn(e0, True)
			if self.pos < len(self.prefix):
				self.model = None
				return
			if self.model is not None and z3.is_true(self._eval(self.model, e)):
				return
			self.model = None
			self.get_model()
		elif not c:
			raise PathInfeasible()

	def must(self, c):
		"""True iff c is implied by the path condition (no fork).  Only used
		to improve precision, so the answer may be False on unknown."""
		if not isinstance(c, SymBool):
			return bool(c)
		# the answer is part of the path's decisions: a replay of the prefix
		# must take the same course whatever the solver's state and timing
		i = self.pos
		self.pos = i + 1
		if i < len(self.prefix):
			d = self.prefix[i]
			if d.__class__ is not tuple or d[0] != "m":
				raise EngineGap("replay misaligned (must)")
			self.decisions.append(d)
			if d[1]:
				e = z3.simplify(c.e)
				self.facts[e.get_id()] = (True, e)
				self._learn(c.e, True)
			return d[1]
		e = z3.simplify(c.e)
		hit = self.facts.get(e.get_id())
		if z3.is_true(e):
			v = True
		elif z3.is_false(e):
			v = False
		elif hit is not None:
			v = hit[0]
		else:
			r, _ = self._check(z3.Not(e), c.e, False)
			v = r == z3.unsat
		if v:
			self.facts[e.get_id()] = (True, e)
			self._learn(c.e, True)
		self.decisions.append(("m", v))
		return v

	def _learn(self, e, val):
		"""Tighten atom intervals from a linear fact."""
		if z3.is_not(e):
			return self._learn(e.arg(0), not val)
		if z3.is_and(e) and val or z3.is_or(e) and not val:
			for ch in e.children():
				self._learn(ch, val)
			return
		info = self.lin_info.get(e.get_id())
		if info is None:
			return
		op, d, _ = info
		if 1 < len(d.t) <= 10:
			l = self.lfacts
			if op == "eq":
				if val:
					l.append((d.t, d.c))
					l.append(({k: -f for k, f in d.t.items()}, -d.c))
			elif val:
				l.append(({k: -f for k, f in d.t.items()}, -d.c - (op == "lt")))
			else:
				l.append((d.t, d.c - (op == "le")))
			if len(l) > 400:
				del l[100:200]
		if len(d.t) > 4:
			return
		# d op 0
		if op == "lt":
			cons = [("le", d + 1)] if val else [("le", -d)]
		elif op == "le":
			cons = [("le", d)] if val else [("le", 1 - d)]
		else:
			cons = [("le", d), ("le", -d)] if val else []
			if not val and len(d.t) == 1:
				(k, f), = d.t.items()
				a = self.atoms[k]
				if d.c % f == 0:
					v = -d.c // f
					if a.lo == v and a.hi > v:
						a.lo += 1
					elif a.hi == v and a.lo < v:
						a.hi -= 1
		for _, x in cons:
			if not isinstance(x, int):
				self._tighten(x.t, x.c)

	def _tighten(self, t, c):
		"""intervals of the atoms of sum(t) + c <= 0"""
		for k, f in t.items():
			# f*atom <= -(rest)  ; rest minimal
			a = self.atoms[k]
			rest = c
			for k2, f2 in t.items():
				if k2 != k:
					b = self.atoms[k2]
					rest += f2 * (b.lo if f2 > 0 else b.hi)
			if f > 0:
				h = (-rest) // f
				if h < a.hi and h >= a.lo:
					a.hi = h
			else:
				l = -((-rest) // (-f))
				if l > a.lo and l <= a.hi:
					a.lo = l

	def low(self, t, c, best):
		"""a lower bound for sum(t) + c from the known linear facts, at least best"""
		at = self.atoms
		for ft, fc in self.lfacts:
			lo = c - fc
			for k in t:
				if k in ft:
					break
			else:
				continue
			for k, f in t.items():
				f -= ft.get(k, 0)
				if f:
					lo += f * (at[k].lo if f > 0 else at[k].hi)
			for k, f in ft.items():
				if k not in t:
					lo -= f * (at[k].hi if f > 0 else at[k].lo)
			if lo > best:
				best = lo
		return best

	def ge0(self, t, c):
		"""whether sum(t) + c >= 0 follows from one known linear fact and the intervals"""
		at = self.atoms
		for ft, fc in self.lfacts:
			lo = c - fc
			for k in t:
				if k in ft:
					break
			else:
				continue
			for k, f in t.items():
				f -= ft.get(k, 0)
				if f:
					lo += f * (at[k].lo if f > 0 else at[k].hi)
			for k, f in ft.items():
				if k not in t:
					lo -= f * (at[k].hi if f > 0 else at[k].lo)
			if lo >= 0:
				if len(t) <= 4:
					self._tighten({k: -f for k, f in t.items()}, -c)
				return True
		return False

	def _trace(self, e):
		f = sys._getframe(2)
		w = []
		while f and len(w) < 6:
			fn = f.f_code.co_filename
			if not w or "/symex/" not in fn:
				w.append("%s:%d" % (fn.rsplit("/", 1)[-1], f.f_lineno))
			f = f.f_back
		if not z3.is_true(e) and not z3.is_false(e):
			open(TRACE, "a").write("branch %s %s\n" % (" < ".join(w), str(e)[:100].replace("\n", " ")))

	def branch(self, e):
		# Every call is logged, also one whose answer needs no solver: what
		# simplification sees may differ between a run and its replay (z3
		# orders arguments by identifiers), the sequence of calls may not.
		# bit 0: outcome, bit 1: forced (the other side is infeasible),
		# bit 2: answered without the solver
		e0 = e
		i = self.pos
		if i < len(self.prefix):
			d = self.prefix[i]
			if d.__class__ is not int:
				raise EngineGap("replay misaligned (branch)")
			self.pos = i + 1
			self.decisions.append(d)
			v = bool(d & 1)
			if d & 4:
				return v
			self.nsplit += 1
			e = z3.simplify(e)
			if not d & 2:
				self.add(e if v else z3.Not(e), e0, v)
			self.facts[e.get_id()] = (v, e)
			self._learn(e0, v)
			return v
		e = z3.simplify(e)
		if TRACE:
			self._trace(e)
		k = e.get_id()
		hit = self.facts.get(k)
		if z3.is_true(e):
			hit = (True,)
		elif z3.is_false(e):
			hit = (False,)
		if hit is not None:
			self.pos = i + 1
			self.decisions.append(5 if hit[0] else 4)
			return hit[0]
		self.tick()
		m = self.get_model()
		v = z3.is_true(self._eval(m, e))
		other = z3.Not(e) if v else e
		r, m2 = self._check(other, e0, not v)
		forced = 2
		if r != z3.unsat:
			forced = 0
			if r == z3.unknown:
				self.note_cut("solver unknown at a branch")
			else:
				self.pending.append(list(self.decisions) + [0 if v else 1])
			self.add(e if v else z3.Not(e), e0, v)
		self.pos = i + 1
		self.decisions.append((1 if v else 0) | forced)
		self.nsplit += 1
		self.stats.decisions += 1
		self.facts[k] = (v, e)
		self._learn(e0, v)
		return v

	def tick(self):
		if self.nsplit >= self.lim.max_decisions:
			raise PathCut("decision limit %d" % self.lim.max_decisions)
		if self.deadline is not None and time.time() > self.deadline:
			raise PathCut("path time limit")

	def choose(self, n, label=None):
		"""n-way nondeterministic choice (explores all)."""
		if n <= 1:
			return 0
		i = self.pos
		if i < len(self.prefix):
			d = self.prefix[i]
			if d.__class__ is not tuple or d[0] != "c":
				raise EngineGap("replay misaligned (choose)")
			self.pos = i + 1
			self.nsplit += 1
			self.decisions.append(d)
			return d[1]
		self.tick()
		for alt in range(n - 1, 0, -1):
			self.pending.append(list(self.decisions) + [("c", alt)])
		self.pos = i + 1
		self.decisions.append(("c", 0))
		self.nsplit += 1
		self.stats.decisions += 1
		return 0

	def concretize(self, x, limit=None):
		"""Enumerate the values of x by forking; beyond the limit keep a single
		value and mark the path incomplete."""
		if isinstance(x, int):
			return x
		if isinstance(x, SymBool):
			return int(bool(x))
		lo, hi = x.rng()
		if lo == hi:
			return lo
		if len(x.t) > 1:
			lo = self.low(x.t, x.c, lo)
			hi = -self.low({k: -f for k, f in x.t.items()}, -x.c, -hi)
			if lo == hi:
				return lo
		limit = limit or self.lim.max_enum
		tried = 0
		w = bits_for(hi - lo)
		off = x - lo
		e = off.bv(w) if isinstance(off, SymInt) else None
		if e is None:
			return x if isinstance(x, int) else lo + off
		if TRACE:
			self._trace(e)
		while True:
			i = self.pos
			if i < len(self.prefix):
				d = self.prefix[i]
				if d.__class__ is not tuple or d[0] != "v":
					raise EngineGap("replay misaligned (concretize)")
				self.pos = i + 1
				self.nsplit += 1
				self.decisions.append(d)
				_, val, taken, forced = d
				cond = e == z3.BitVecVal(val, w)
				if not forced:
					self.add(cond if taken else z3.Not(cond), bool_e(x == lo + val), taken)
				if taken:
					self._learn(bool_e(x == lo + val), True)
					return lo + val
				tried += 1
				continue
			self.tick()
			m = self.get_model()
			val = self._eval(m, e).as_long()
			cond = e == z3.BitVecVal(val, w)
			r, m2 = self._check(z3.Not(cond), bool_e(x == lo + val), False)
			forced = r == z3.unsat
			if r == z3.unknown:
				self.note_cut("solver unknown at a concretisation")
			elif r == z3.sat:
				if tried + 1 >= limit:
					self.note_concretize("more than %d values" % limit)
				else:
					self.pending.append(list(self.decisions) + [("v", val, False, False)])
			if not forced:
				self.add(cond, bool_e(x == lo + val))
			self.pos = i + 1
			self.decisions.append(("v", val, True, forced))
			self.nsplit += 1
			self.stats.decisions += 1
			self._learn(bool_e(x == lo + val), True)
			return lo + val

	def enum(self, x, lo, hi):
		return self.concretize(x, limit=max(4, hi - lo + 2))

	def enum_len(self, n):
		"""concretise a length; lengths above the materialisation bound cut."""
		if isinstance(n, int):
			return n
		if n > self.lim.max_materialize:
			raise PathCut("symbolic length beyond %d materialised" % self.lim.max_materialize)
		return self.concretize(n)

	# ------------------------------------------------------------ checks
	def prove(self, c):
		"""Decide whether c holds on this path: returns (True, None) or
		(False, model) or (None, None) if the solver gives up."""
		self.stats.checks += 1
		if not isinstance(c, (SymBool, SymInt)):
			if c:
				self.stats.check_trivial += 1
				return True, None
			return False, self.get_model()
		e0 = bool_e(c)
		e = z3.simplify(e0)
		if z3.is_true(e):
			self.stats.check_trivial += 1
			return True, None
		r, m = self._check(z3.Not(e), e0, False)
		if r == z3.unsat:
			self.stats.check_unsat += 1
			return True, None
		if r == z3.sat:
			return False, m
		return None, None
