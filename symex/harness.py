"""Harness API: the same harness runs symbolically on instrumented code and
natively on the real modules with the concrete values of a model."""
import contextlib
import io
import os
import random
import sys
import traceback
import z3
from . import terms as T
from .terms import (Sym, SymInt, SymBool, EngineGap, PathCut, PathInfeasible, Abort, and_, or_, not_,
                    bool_e, mk_int, mk_bool, is_sym)
from .seqs import SymBytes, SymStr, SymByteArray, SeqBase, Source, Ext, Lit, as_rope, as_bytes_like

MAX_NATIVE_BLOB = 24 << 20
ROOT = "/v"


class CheckFailed(Exception):
	pass


def blob_default(name, n):
	return random.Random("blob:" + name).randbytes(n) if n else b""


# ------------------------------------------------------------------ symbolic
class SymH(object):
	symbolic = True

	def __init__(self, eng, loader, case, tier):
		self.e = eng
		self.loader = loader
		self.case = case
		self.tier = tier
		self.obs = []
		self.failures = []      # (msg, inputs or None)
		self.reached = set()
		self.lens = []

	# inputs
	def _reg(self, name, kind, val):
		if name in self.e.inputs:
			raise RuntimeError("duplicate input " + name)
		self.e.inputs[name] = (kind, val)
		return val

	def int(self, name, lo, hi):
		if lo == hi:
			return self._reg(name, "int", lo)
		w = T.bits_for(hi - lo)
		v = z3.BitVec(name, w)
		x = mk_int(v, 0, hi - lo)
		if hi - lo != (1 << w) - 1:
			self.e.add(z3.ULE(v, z3.BitVecVal(hi - lo, w)))
		x = x + lo
		return self._reg(name, "int", x)

	def bool(self, name):
		b = SymBool(z3.Bool(name))
		return self._reg(name, "bool", b)

	def bytes(self, name, n):
		"""n symbolic bytes (n concrete)"""
		els = [mk_int(z3.BitVec("%s.%d" % (name, i), 8)) for i in range(n)]
		v = SymBytes([Lit(els)]) if n else b""
		return self._reg(name, "bytes", v)

	def blob(self, name, lo, hi):
		"""content of symbolic length in [lo, hi]"""
		if lo == hi:
			n = lo
		else:
			w = T.bits_for(hi - lo)
			v = z3.BitVec(name + ".len", w)
			n = mk_int(v, 0, hi - lo)
			if hi - lo != (1 << w) - 1:
				self.e.add(z3.ULE(v, z3.BitVecVal(hi - lo, w)))
			n = n + lo
			self.lens.append(n)
		s = Source(name, n)
		self.e.sources[name] = s
		r = SymBytes([Ext(s, 0, n)])
		self._reg(name, "blob", r)
		return r.norm_out() if isinstance(n, int) else r

	def str(self, name, n, lo=32, hi=126, alphabet=None):
		els = []
		for i in range(n):
			if alphabet is not None:
				k = self.e
				x = self._raw("%s.%d" % (name, i), 0, 0x10FFFF if max(map(ord, alphabet)) > 127 else 127)
				self.e.add(bool_e(or_(*[x == ord(c) for c in alphabet])))
			else:
				x = self._raw("%s.%d" % (name, i), lo, hi)
			els.append(x)
		v = SymStr(els) if n else ""
		return self._reg(name, "str", v)

	def _raw(self, nm, lo, hi):
		w = T.bits_for(hi - lo)
		v = z3.BitVec(nm, w)
		x = mk_int(v, 0, hi - lo)
		if hi - lo != (1 << w) - 1:
			self.e.add(z3.ULE(v, z3.BitVecVal(hi - lo, w)))
		return x + lo

	def choose(self, name, options):
		options = list(options)
		i = self.e.choose(len(options))
		self._reg(name, "choice", i)
		return options[i]

	# logic
	def assume(self, c):
		self.e.assume(c)

	def all(self, *cs):
		return and_(*cs)

	def any(self, *cs):
		return or_(*cs)

	def no(self, c):
		return not_(c)

	def ite(self, c, a, b):
		return T.ite(c, a, b)

	def implies(self, a, b):
		return or_(not_(a), b)

	def _fail(self, msg, extra):
		inputs = self.model_inputs(extra)
		self.failures.append((msg, inputs))

	def check(self, c, msg):
		ok, m = self.e.prove(c)
		if ok is True:
			return
		if ok is None:
			self.e.note_cut("solver gave up on: " + msg)
			return
		self._fail(msg, not_(c) if is_sym(c) else None)
		if is_sym(c):
			self.e.assume(c)
		else:
			raise PathInfeasible("check failed: " + msg)

	def eq(self, a, b, msg):
		"""prove a == b (ints, strings, bytes of symbolic length, tuples, lists)"""
		if isinstance(a, SymByteArray) or isinstance(a, bytearray):
			a = as_bytes_like(a)
		if isinstance(b, SymByteArray) or isinstance(b, bytearray):
			b = as_bytes_like(b)
		if type(a) in (tuple, list) and type(b) in (tuple, list):
			self.check(len(a) == len(b), msg + " (length)")
			for i, (x, y) in enumerate(zip(a, b)):
				self.eq(x, y, "%s [%d]" % (msg, i))
			return
		if isinstance(a, SymBytes) or isinstance(b, SymBytes):
			if not isinstance(a, (SymBytes, bytes)) or not isinstance(b, (SymBytes, bytes)):
				self.check(False, msg + " (type)")
			return self.rope_eq(as_rope(a), as_rope(b), msg)
		self.check(a == b, msg)

	def rope_eq(self, a, b, msg):
		la, lb = a.length(), b.length()
		self.check(la == lb, msg + " (length)")
		if a.key() == b.key():
			self.e.stats.checks += 1
			self.e.stats.check_trivial += 1
			return
		from .builtins_hooks import canon
		if canon(a) == canon(b):
			self.e.stats.checks += 1
			self.e.stats.check_trivial += 1
			return
		n = la if isinstance(la, int) else lb
		if isinstance(n, int) and n <= 256:
			ae, be = a.elems(), b.elems()
			self.check(and_(*[x == y for x, y in zip(ae, be)]), msg)
			return
		conds = self._aligned(a, b)
		if conds is not None:
			self.check(and_(*conds), msg)
			return
		# exists an index with different bytes?
		k = self.e.fresh_int("cmpidx", 0, (1 << 48) - 1)
		same = or_(k >= n, a.at(k) == b.at(k))
		self.check(same, msg)

	def _sign(self, d):
		"""sign of d if the path condition determines it, else None"""
		if isinstance(d, int):
			return (d > 0) - (d < 0)
		lo, hi = T.rng(d)
		if lo > 0:
			return 1
		if hi < 0:
			return -1
		if lo == hi == 0:
			return 0
		must = self.e.must
		if must(d == 0):
			return 0
		if must(d < 0):
			return -1
		if must(d > 0):
			return 1
		return None

	def _aligned(self, a, b):
		"""conditions for a == b, segment by segment, if the path condition
		determines how the segments line up"""
		A, B = list(a.segs), list(b.segs)
		conds = []

		def drop(X):
			while X:
				n = X[0].len
				if not isinstance(n, int) and T.rng(n)[0] > 0 or isinstance(n, int) and n > 0:
					return True
				g = self._sign(n)
				if g == 0:
					X.pop(0)
				elif g is None:
					# possibly empty: both sides may still agree on it
					return True
				else:
					return True
			return True
		while True:
			drop(A)
			drop(B)
			if not A or not B:
				break
			x, y = A[0], B[0]
			g = self._sign(x.len - y.len)
			if g is None:
				return None
			if g == 0:
				A.pop(0)
				B.pop(0)
				if isinstance(y.len, int) and not isinstance(x.len, int):
					n = y.len
				else:
					n = x.len
			elif g < 0:
				if isinstance(y, Lit) and not isinstance(x.len, int):
					return None
				l, r = y.split(x.len)
				y, n = l, x.len
				A.pop(0)
				B[0] = r
			else:
				if isinstance(x, Lit) and not isinstance(y.len, int):
					return None
				l, r = x.split(y.len)
				x, n = l, y.len
				B.pop(0)
				A[0] = r
			if x.key() == y.key():
				continue
			if isinstance(x, Ext) and isinstance(y, Ext) and x.src is y.src:
				d = x.start - y.start
				if self._sign(d) == 0:
					continue
			if isinstance(n, int) and n <= 512:
				conds += [x.at(i) == y.at(i) for i in range(n)]
				continue
			if isinstance(x, Lit) or isinstance(y, Lit):
				return None
			k = self.e.fresh_int("cmpidx", 0, (1 << 48) - 1)
			conds.append(or_(k >= n, x.at(k) == y.at(k)))
		for s in A + B:
			conds.append(s.len == 0)
		return conds

	def observe(self, label, v):
		self.obs.append((label, v))

	def reach(self, label):
		self.reached.add(label)

	def fork_on(self, c):
		return bool(c)

	# environment
	def mod(self, name):
		return self.loader.load(name)

	def path(self, rel):
		return ROOT + "/" + rel

	def put(self, rel, content):
		self.e.vfs.put(self.path(rel), as_bytes_like(content) if not isinstance(content, bytes) else content)

	def mkdir(self, rel):
		self.e.vfs.mkdirs_(self.path(rel))

	def exists(self, rel):
		return self.path(rel) in self.e.vfs.files

	def isdir(self, rel):
		return self.path(rel) in self.e.vfs.dirs

	def get(self, rel):
		return self.e.vfs.files[self.path(rel)].content

	def ls(self):
		"""relative paths of all files under the scratch root (and absolute
		paths of anything outside it), in no particular order"""
		out = []
		for p in self.e.vfs.files.keys():
			if p.startswith(ROOT + "/"):
				out.append(p[len(ROOT) + 1:])
			else:
				out.append(p)
		return out

	def rm(self, rel):
		del self.e.vfs.files[self.path(rel)]

	def bytesio(self, content):
		from .vfs import SxBytesIO
		return SxBytesIO(content)

	def relpath(self, p):
		if p.startswith(ROOT + "/"):
			return p[len(ROOT) + 1:]
		return p

	def fault(self, k):
		"""k-th file-system operation from now on fails with an I/O error"""
		v = self.e.vfs
		v.op = 0
		v.fault_at = k

	def crash(self, k):
		v = self.e.vfs
		v.op = 0
		v.crash_at = k
		v.snapshot = None

	def end_fault(self):
		v = self.e.vfs
		v.fault_at = None
		n = v.op
		snap = v.snapshot
		v.crash_at = None
		if snap is not None:
			snap = {self.relpath(p): c for p, c in snap.items()}
		return n, snap

	def crc(self, data):
		from .builtins_hooks import crc32
		return crc32(self.e.rt, data, 0)

	def patch(self, modname, attr, fn):
		"""replace a module attribute for this path (undone afterwards)"""
		m = self.mod(modname)
		self._patches.append((m, attr, getattr(m, attr)))
		setattr(m, attr, fn)
	_patches = ()

	def call(self, f, *a, **k):
		return self.e.rt.call(f, *a, **k)

	# ---- models
	def model_inputs(self, extra=None):
		"""concrete inputs satisfying the path condition (and extra)"""
		E = self.e
		ex = [] if extra is None else [bool_e(extra)]
		m = None
		caps = [48, 600, 5000, 70000, 300000, MAX_NATIVE_BLOB] if self.lens else [None]
		sv = z3.Solver()
		sv.set("timeout", E.lim.query_ms)
		for p in E.pc:
			sv.add(p)
		for x in ex:
			sv.add(x)
		for cap in caps:
			sv.push()
			if cap is not None:
				for n in self.lens:
					sv.add(bool_e(n <= cap))
			r = sv.check()
			if r == z3.sat:
				m = sv.model()
				break
			sv.pop()
		if m is None:
			return None
		# make uninterpreted CRC values agree with the real function
		if E.crcs:
			m = self._fix_uf(sv, m)
			if m is None:
				return None
		return self.eval_inputs(m)

	def _fix_uf(self, sv, m):
		"""checksums are free values for the solver: find a model in which they are
		those of the contents"""
		r = self._pin_crcs(sv, m)
		if r is not None:
			return r
		# the free values contradict the contents: say when contents differ
		for n in self.lens:
			sv.add(bool_e(n == self.val(m, n)))
		crcs = list(self.e.crcs)
		both, one = [], []
		for i, (r1, v1) in enumerate(crcs):
			for r2, v2 in crcs[:i]:
				same, diff = self._rope_cmp(sv, m, r1, r2)
				if diff is None:
					continue
				if same is not None:
					both.append(bool_e(v1 == v2) == same)
					one.append(z3.Implies(same, bool_e(v1 == v2)))
				else:
					both.append(z3.Implies(z3.Not(bool_e(v1 == v2)), diff))
		for ax in (both, one):
			sv.push()
			for x in ax:
				sv.add(x)
			if sv.check() == z3.sat:
				r = self._pin_crcs(sv, sv.model())
				if r is not None:
					return r
			sv.pop()
		return None

	def _pin_crcs(self, sv, m):
		import zlib
		blobs = self.eval_blobs(m)
		if blobs is None:
			return None
		ev = lambda e: m.eval(e, model_completion=True)
		sv.push()
		for n in self.lens:
			sv.add(bool_e(n == self.val(m, n)))
		for s, i, e in E_sel(self.e):
			sv.add(i == ev(i))
			sv.add(e == ev(e))
		for rope, v in list(self.e.crcs):
			# pin every symbolic part of the rope
			for sg in rope.segs:
				if isinstance(sg, Lit):
					for b in sg.b:
						if is_sym(b):
							sv.add(bool_e(b == self.val(m, b)))
				else:
					for q in ([sg.start, sg.len] if isinstance(sg, Ext) else [sg.len]):
						if is_sym(q):
							sv.add(bool_e(q == self.val(m, q)))
			data = self.val(m, rope, blobs)
			sv.add(bool_e(v == zlib.crc32(data)))
		r = sv.check()
		if r != z3.sat:
			sv.pop()
			return None
		return sv.model()

	def _rope_cmp(self, sv, m, a, b):
		"""(formula: the same content, formula: other content) for the lengths of the
		model, which are pinned; None for what cannot be said"""
		def runs(rope):
			out = []
			for sg in rope.segs:
				if isinstance(sg, Lit):
					out.append(["L", sg.b, 0, len(sg.b)])
					continue
				for q in ([sg.start, sg.len] if isinstance(sg, Ext) else [sg.len]):
					if is_sym(q):
						sv.add(bool_e(q == self.val(m, q)))
				n = self.val(m, sg.len)
				if isinstance(sg, Ext):
					out.append(["E", sg.src, self.val(m, sg.start), n])
				else:
					out.append(["R", sg.v, 0, n])
			return [r for r in out if r[3]]

		def at(r, i):
			if r[0] == "L":
				return r[1][r[2] + i]
			return r[1].sel(r[2] + i) if r[0] == "E" else r[1]
		x, y = runs(a), runs(b)
		if sum(r[3] for r in x) != sum(r[3] for r in y):
			return z3.BoolVal(False), z3.BoolVal(True)
		conj, full, budget = [], True, 4000
		while x and y:
			p, q = x[0], y[0]
			n = min(p[3], q[3])
			if not (p[0] == q[0] == "E" and p[1] is q[1] and p[2] == q[2]):
				k = min(n, 600 if p[0] == q[0] == "L" else 40, budget)
				budget -= k
				full = full and (k == n or p[0] == q[0] == "R")
				for i in range(k):
					c, d = at(p, i), at(q, i)
					e = c == d
					if e is not True:
						conj.append(bool_e(e) if is_sym(e) else z3.BoolVal(bool(e)))
			for r, l in ((p, x), (q, y)):
				if r[3] == n:
					l.pop(0)
				else:
					r[2] += n
					r[3] -= n
		same = z3.And(*conj) if conj else z3.BoolVal(True)
		diff = z3.Not(same)
		return (same if full else None), diff

	def eval_blobs(self, m):
		blobs = {}
		for name, src in self.e.sources.items():
			n = self.val(m, src.len)
			if n > MAX_NATIVE_BLOB:
				return None
			blobs[name] = bytearray(blob_default(name, n))
		for s, i, e in E_sel(self.e):
			iv = m.eval(i, model_completion=True).as_long()
			if s.name in blobs and iv < len(blobs[s.name]):
				blobs[s.name][iv] = m.eval(e, model_completion=True).as_long()
		return blobs

	def val(self, m, v, blobs=None):
		"""concrete value of a symbolic value under model m"""
		if isinstance(v, SymInt):
			r = v.c
			for k, f in v.t.items():
				r += f * m.eval(self.e.atoms[k].e, model_completion=True).as_long()
			return r
		if isinstance(v, SymBool):
			return z3.is_true(m.eval(v.e, model_completion=True))
		if isinstance(v, SymBytes):
			out = bytearray()
			for s in v.segs:
				if isinstance(s, Lit):
					out += bytes(x if isinstance(x, int) else self.val(m, x) for x in s.b)
				elif isinstance(s, Ext):
					if blobs is None:
						blobs = self.eval_blobs(m)
						if blobs is None:
							raise EngineGap("blob too large")
					st, n = self.val(m, s.start), self.val(m, s.len)
					out += blobs[s.src.name][st:st + n]
				else:
					out += bytes([self.val(m, s.v)]) * self.val(m, s.len)
			return bytes(out)
		if isinstance(v, SymByteArray):
			return bytes(self.val(m, v.v, blobs))
		if isinstance(v, SymStr):
			return "".join(chr(x if isinstance(x, int) else self.val(m, x)) for x in v.elems())
		if isinstance(v, bytearray):
			return bytes(v)
		if type(v) in (list, tuple):
			return [self.val(m, x, blobs) for x in v]
		if isinstance(v, dict):
			return sorted(([self.val(m, k, blobs), self.val(m, x, blobs)] for k, x in v.items()), key=repr)
		return v

	def eval_inputs(self, m):
		blobs = self.eval_blobs(m)
		if blobs is None:
			return None
		out = {}
		for name, (kind, v) in self.e.inputs.items():
			if kind == "blob":
				out[name] = ("blob", bytes(blobs[name]))
			elif kind == "choice":
				out[name] = ("choice", v)
			else:
				x = self.val(m, v, blobs)
				out[name] = (kind, x)
		return out


def E_sel(e):
	return e.sel_log


# ------------------------------------------------------------------ native
class NativeH(object):
	symbolic = False

	def __init__(self, inputs, case, tier, scratch):
		self.inputs = inputs
		self.case = case
		self.tier = tier
		self.obs = []
		self.failures = []
		self.reached = set()
		self.root = scratch
		self._patches = []
		self._f = None

	def _get(self, name, default=None):
		if name in self.inputs:
			return self.inputs[name][1]
		# inputs the symbolic path never declared (native went further)
		raise KeyError(name)

	def int(self, name, lo, hi):
		return self.inputs[name][1] if name in self.inputs else lo

	def bool(self, name):
		return self.inputs[name][1] if name in self.inputs else False

	def bytes(self, name, n):
		return self.inputs[name][1] if name in self.inputs else b"\0" * n

	def blob(self, name, lo, hi):
		return self.inputs[name][1] if name in self.inputs else b"\0" * lo

	def str(self, name, n, lo=32, hi=126, alphabet=None):
		return self.inputs[name][1] if name in self.inputs else \
			(alphabet[0] if alphabet else chr(lo)) * n

	def choose(self, name, options):
		return list(options)[self.inputs[name][1] if name in self.inputs else 0]

	def assume(self, c):
		if not c:
			raise PathInfeasible("native assume")

	def all(self, *cs):
		return all(cs)

	def any(self, *cs):
		return any(cs)

	def no(self, c):
		return not c

	def ite(self, c, a, b):
		return a if c else b

	def implies(self, a, b):
		return (not a) or bool(b)

	def check(self, c, msg):
		if not c:
			self.failures.append(msg)
			raise CheckFailed(msg)

	def eq(self, a, b, msg):
		if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
			self.check(len(a) == len(b), msg + " (length)")
			for i, (x, y) in enumerate(zip(a, b)):
				self.eq(x, y, "%s [%d]" % (msg, i))
			return
		if not (a == b):
			d = "%s: %s != %s" % (msg, short(a), short(b))
			self.failures.append(d)
			raise CheckFailed(d)

	def observe(self, label, v):
		self.obs.append((label, v))

	def reach(self, label):
		self.reached.add(label)

	def fork_on(self, c):
		return bool(c)

	def mod(self, name):
		import importlib
		return importlib.import_module(name)

	def path(self, rel):
		return self.root + "/" + rel

	def put(self, rel, content):
		p = self.path(rel)
		os.makedirs(os.path.dirname(p), exist_ok=True)
		with open(p, "wb") as f:
			f.write(content)

	def mkdir(self, rel):
		os.makedirs(self.path(rel), exist_ok=True)

	def exists(self, rel):
		return os.path.isfile(self.path(rel))

	def isdir(self, rel):
		return os.path.isdir(self.path(rel))

	def get(self, rel):
		with open(self.path(rel), "rb") as f:
			return f.read()

	def ls(self):
		out = []
		for d, _, fs in os.walk(self.root):
			for f in fs:
				out.append(os.path.relpath(os.path.join(d, f), self.root))
		base = os.path.dirname(self.root)
		for d, ds, fs in os.walk(base):
			if d == base:
				ds[:] = [x for x in ds if x != os.path.basename(self.root)]
			for f in fs:
				out.append("/" + os.path.join(d, f))
		return sorted(out)

	def rm(self, rel):
		os.remove(self.path(rel))

	def bytesio(self, content):
		return io.BytesIO(content)

	def relpath(self, p):
		if p.startswith(self.root + "/"):
			return p[len(self.root) + 1:]
		return p

	def crc(self, data):
		import zlib
		return zlib.crc32(data)

	def fault(self, k):
		from . import faults
		self._f = faults.Faults(self.root, fault_at=k)
		self._f.install()

	def crash(self, k):
		from . import faults
		self._f = faults.Faults(self.root, crash_at=k)
		self._f.install()

	def end_fault(self):
		f, self._f = self._f, None
		if f is None:
			return 0, None
		f.remove()
		return f.op, f.snapshot

	def patch(self, modname, attr, fn):
		m = self.mod(modname)
		self._patches.append((m, attr, getattr(m, attr)))
		setattr(m, attr, fn)

	def call(self, f, *a, **k):
		return f(*a, **k)

	def cleanup(self):
		if self._f is not None:
			self._f.remove()
		for m, a, v in reversed(self._patches):
			setattr(m, a, v)
		self._patches = []


def short(x):
	r = repr(x)
	return r if len(r) < 160 else r[:100] + "...(%d)" % len(r)


def norm_obs(v, root):
	"""normalise a native observation for comparison"""
	if isinstance(v, str):
		return v.replace(root, ROOT)
	if isinstance(v, (bytes, bytearray)):
		return bytes(v)
	if isinstance(v, bool) or v is None:
		return v
	if isinstance(v, (list, tuple)):
		return [norm_obs(x, root) for x in v]
	if isinstance(v, dict):
		return sorted(([norm_obs(k, root), norm_obs(x, root)] for k, x in v.items()), key=repr)
	return v


def run_native(fn, inputs, case, tier, scratch):
	"""returns (outcome, failures, observations)"""
	h = NativeH(inputs, case, tier, scratch)
	cwd = os.getcwd()
	so, se = sys.stdout, sys.stderr
	sys.stdout = sys.stderr = io.StringIO()
	outcome = "ok"
	try:
		os.chdir(scratch)
		fn(h)
	except CheckFailed:
		outcome = "check"
	except PathInfeasible:
		outcome = "infeasible"
	except (KeyboardInterrupt, MemoryError):
		raise
	except BaseException as ex:
		outcome = "exception:" + type(ex).__name__
		h.failures.append("unexpected %s: %s" % (type(ex).__name__, short(str(ex))))
		h.trace = traceback.format_exc()
	finally:
		h.cleanup()
		sys.stdout, sys.stderr = so, se
		os.chdir(cwd)
	return outcome, h.failures, [(l, norm_obs(v, scratch)) for l, v in h.obs], getattr(h, "trace", None)
