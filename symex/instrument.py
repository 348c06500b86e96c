"""AST instrumentation and loading of the code under test."""
import ast
import builtins
import importlib
import importlib.util
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
PKGS = ("rescene", "resample", "rerar", "usenet", "bin", "props")
NOHOOK = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}

SX = "_sx_rt"


def name(n):
	return ast.Name(id=n, ctx=ast.Load())


def sxattr(a):
	return ast.Attribute(value=name(SX), attr=a, ctx=ast.Load())


class Tr(ast.NodeTransformer):
	def __init__(self, modname):
		self.mod = modname
		self.stack = []

	def visit_Call(self, n):
		self.generic_visit(n)
		if isinstance(n.func, ast.Name) and n.func.id in NOHOOK:
			return n
		return ast.copy_location(ast.Call(func=sxattr("call"), args=[n.func] + n.args,
		                                  keywords=n.keywords), n)

	def visit_Compare(self, n):
		self.generic_visit(n)
		if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
			f = "contains" if isinstance(n.ops[0], ast.In) else "not_contains"
			# keep evaluation order left, right
			return ast.copy_location(ast.Call(func=sxattr(f + "_rev"), args=[n.left, n.comparators[0]],
			                                  keywords=[]), n)
		return n

	def visit_BinOp(self, n):
		self.generic_visit(n)
		if isinstance(n.op, ast.Mod):
			return ast.copy_location(ast.Call(func=sxattr("mod"), args=[n.left, n.right], keywords=[]), n)
		return n

	def visit_AugAssign(self, n):
		self.generic_visit(n)
		if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
			return ast.copy_location(ast.Assign(targets=[n.target], value=ast.Call(
				func=sxattr("mod"), args=[name(n.target.id), n.value], keywords=[])), n)
		if isinstance(n.target, ast.Subscript):
			# o[i] op= v  ->  _sx.augitem(o, i, lambda old: ..)
			op = type(n.op).__name__
			call = ast.Call(func=sxattr("augitem"),
			                args=[n.target.value, self._slice(n.target.slice), ast.Constant(op), n.value],
			                keywords=[])
			return ast.copy_location(ast.Expr(value=call), n)
		return n

	def _slice(self, s):
		if isinstance(s, ast.Slice):
			return ast.Call(func=name("_sx_slice"), args=[
				s.lower or ast.Constant(None), s.upper or ast.Constant(None),
				s.step or ast.Constant(None)], keywords=[])
		return s

	def visit_Subscript(self, n):
		self.generic_visit(n)
		if isinstance(n.ctx, ast.Load):
			if isinstance(n.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.slice.elts):
				return n
			return ast.copy_location(ast.Call(func=sxattr("getitem"), args=[n.value, self._slice(n.slice)],
			                                  keywords=[]), n)
		return n

	def visit_Assign(self, n):
		self.generic_visit(n)
		if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
			t = n.targets[0]
			# evaluation order: value first, then container, index
			return ast.copy_location(ast.Expr(value=ast.Call(
				func=sxattr("setitem_rev"), args=[n.value, t.value, self._slice(t.slice)], keywords=[])), n)
		return n

	def visit_Delete(self, n):
		self.generic_visit(n)
		out = []
		for t in n.targets:
			if isinstance(t, ast.Subscript):
				out.append(ast.copy_location(ast.Expr(value=ast.Call(
					func=sxattr("delitem"), args=[t.value, self._slice(t.slice)], keywords=[])), n))
			else:
				out.append(ast.copy_location(ast.Delete(targets=[t]), n))
		return out

	def visit_Dict(self, n):
		self.generic_visit(n)
		return ast.copy_location(ast.Call(func=sxattr("mkdict"), args=[n], keywords=[]), n) \
			if all(k is not None and isinstance(k, ast.Constant) for k in n.keys) else \
			ast.copy_location(ast.Call(func=sxattr("mkdict_items"), args=[ast.List(
				elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) if k is not None else
				      ast.Tuple(elts=[ast.Constant(None), v, ast.Constant(1)], ctx=ast.Load())
				      for k, v in zip(n.keys, n.values)], ctx=ast.Load())], keywords=[]), n)

	def visit_DictComp(self, n):
		self.generic_visit(n)
		return ast.copy_location(ast.Call(func=sxattr("mkdict_items"), args=[ast.ListComp(
			elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)], keywords=[]), n)

	def visit_Set(self, n):
		self.generic_visit(n)
		return ast.copy_location(ast.Call(func=sxattr("mkset"), args=[ast.List(elts=n.elts, ctx=ast.Load())],
		                                  keywords=[]), n)

	def visit_SetComp(self, n):
		self.generic_visit(n)
		return ast.copy_location(ast.Call(func=sxattr("mkset"), args=[ast.ListComp(
			elt=n.elt, generators=n.generators)], keywords=[]), n)

	def visit_JoinedStr(self, n):
		parts = []
		for v in n.values:
			if isinstance(v, ast.Constant):
				parts.append(v)
			else:
				val = self.visit(v.value)
				conv = ast.Constant(chr(v.conversion) if v.conversion and v.conversion > 0 else None)
				spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
				parts.append(ast.Tuple(elts=[val, conv, spec], ctx=ast.Load()))
		return ast.copy_location(ast.Call(func=sxattr("fstring"), args=parts, keywords=[]), n)

	def visit_FunctionDef(self, n):
		self.stack.append(n.name)
		# decorators and defaults belong to the enclosing scope but are fine here
		self.generic_visit(n)
		q = ".".join(self.stack)
		mark = ast.Expr(value=ast.Call(func=sxattr("enter"), args=[ast.Constant(self.mod + ":" + q)], keywords=[]))
		body = n.body
		k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
			and isinstance(body[0].value.value, str) else 0
		n.body = body[:k] + [ast.copy_location(mark, n)] + body[k:]
		self.stack.pop()
		return n

	def visit_ClassDef(self, n):
		self.stack.append(n.name)
		self.generic_visit(n)
		self.stack.pop()
		return n

	def visit_While(self, n):
		self.generic_visit(n)
		mark = ast.copy_location(ast.Expr(value=ast.Call(func=sxattr("loop"), args=[], keywords=[])), n)
		n.body = [mark] + n.body
		return n

	def visit_ExceptHandler(self, n):
		self.generic_visit(n)
		if n.type is None or isinstance(n.type, ast.Name) and n.type.id == "BaseException":
			n.body = [ast.copy_location(ast.Expr(value=ast.Call(
				func=sxattr("reraise"), args=[], keywords=[])), n)] + n.body
		return n

	def visit_AnnAssign(self, n):
		self.generic_visit(n)
		return n


def transform(src, filename, modname):
	with warnings.catch_warnings():
		warnings.simplefilter("ignore")
		tree = ast.parse(src, filename)
		tree = Tr(modname).visit(tree)
		ast.fix_missing_locations(tree)
		return compile(tree, filename, "exec", dont_inherit=True)


class Loader(object):
	"""Loads instrumented copies of the repository's modules into a private
	module table; library modules are imported normally."""

	def __init__(self, rt):
		self.rt = rt
		self.mods = {}
		self.extra = {}
		self.files = {}
		rt_attrs(rt)
		self.roots = [REPO]

	def find(self, modname):
		rel = modname.replace(".", "/")
		for root in self.roots:
			for cand in (os.path.join(root, rel, "__init__.py"), os.path.join(root, rel + ".py")):
				if os.path.isfile(cand):
					return cand, cand.endswith("__init__.py")
		return None, False

	def load(self, modname):
		m = self.mods.get(modname)
		if m is not None:
			return m
		path, ispkg = self.find(modname)
		if path is None:
			for root in self.roots:
				d = os.path.join(root, modname.replace(".", "/"))
				if os.path.isdir(d):
					# a folder without an __init__
					m = self.mods[modname] = types.ModuleType(modname)
					m.__path__ = [d]
					m.__package__ = modname
					return m
			raise ImportError(modname)
		if "." in modname:
			parent = modname.rpartition(".")[0]
			self.load(parent)
			if modname in self.mods:  # loaded by its package
				return self.mods[modname]
		m = types.ModuleType(modname)
		m.__file__ = path
		if ispkg:
			m.__path__ = [os.path.dirname(path)]
			m.__package__ = modname
		else:
			m.__package__ = modname.rpartition(".")[0]
		self.mods[modname] = m
		self.exec_into(m, path, modname)
		if "." in modname:
			p, _, c = modname.rpartition(".")
			setattr(self.mods[p], c, m)
		return m

	def exec_into(self, m, path, modname):
		with open(path, "rb") as f:
			src = f.read()
		self.files[path] = modname
		code = transform(src, path, modname)
		b = dict(vars(builtins))
		b["__import__"] = self._import
		m.__dict__["__builtins__"] = b
		m.__dict__[SX] = self.rt
		m.__dict__["_sx_slice"] = slice
		exec(code, m.__dict__)

	def is_ours(self, nm):
		top = nm.split(".")[0]
		if top in ("symex", "z3"):
			return False
		return top in PKGS or (self.find(top)[0] is not None and top not in sys.stdlib_module_names)

	def _import(self, nm, globals=None, locals=None, fromlist=(), level=0):
		if level:
			pkg = (globals or {}).get("__package__") or ""
			base = pkg
			for _ in range(level - 1):
				base = base.rpartition(".")[0]
			nm = base + ("." + nm if nm else "")
		if nm and self.is_ours(nm):
			path, _ = self.find(nm)
			if path is not None:
				m = self.load(nm)
				if fromlist:
					for f in fromlist:
						if f != "*" and not hasattr(m, f) and self.find(nm + "." + f)[0]:
							self.load(nm + "." + f)
					return m
				return self.load(nm.split(".")[0])
		return builtins.__import__(nm, globals, locals, fromlist, 0)


def rt_attrs(rt):
	from . import terms as T
	from . import rt as R
	import operator
	rt.contains_rev = lambda x, y: rt.contains(y, x)
	rt.not_contains_rev = lambda x, y: rt.not_contains(y, x)
	rt.setitem_rev = lambda v, o, i: rt.setitem(o, i, v)
	OPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior,
	       "BitAnd": operator.iand, "BitXor": operator.ixor, "LShift": operator.ilshift,
	       "RShift": operator.irshift, "FloorDiv": operator.ifloordiv, "Div": operator.itruediv,
	       "Mod": rt.mod, "Pow": operator.ipow}

	def augitem(o, i, op, v):
		rt.setitem(o, i, OPS[op](rt.getitem(o, i), v))
	rt.augitem = augitem
	rt.mkdict = lambda d: R.SxDict(d)

	def mkdict_items(items):
		d = R.SxDict()
		for it in items:
			if len(it) == 3:
				d.update(it[1])
			else:
				d[it[0]] = it[1]
		return d
	rt.mkdict_items = mkdict_items
	rt.mkset = lambda l: R.SxSet(l)
	rt.loop_count = 0

	def reraise():
		e = sys.exc_info()[1]
		if isinstance(e, T.Abort):
			raise e
	rt.reraise = reraise

	def enter(q):
		e = T.ENG
		if e is not None:
			e.functions.add(q)
	rt.enter = enter

	def loop():
		e = T.ENG
		if e is not None:
			e.loops += 1
			if e.loops > e.lim.max_loop:
				raise T.PathCut("loop iterations %d" % e.lim.max_loop)
	rt.loop = loop


def load_stdlib_posixpath(rt):
	import posixpath
	rt_attrs(rt)
	path = posixpath.__file__
	if path.endswith(".pyc"):
		path = importlib.util.source_from_cache(path)
	with open(path) as f:
		src = f.read()
	# force the pure Python implementations
	src = src.replace("from posix import _path_normpath", "raise ImportError").replace(
		"from posix import _path_splitroot_ex", "raise ImportError")
	code = transform(src, path, "posixpath")
	m = types.ModuleType("sx_posixpath")
	m.__dict__[SX] = rt
	m.__dict__["_sx_slice"] = slice
	m.__file__ = path
	exec(code, m.__dict__)
	m.splitext = _splitext(rt, m)
	m.commonprefix = posixpath.commonprefix
	return m


def _splitext(rt, m):
	import genericpath
	with open(genericpath.__file__) as f:
		src = f.read()
	g = types.ModuleType("sx_genericpath")
	g.__dict__[SX] = rt
	g.__dict__["_sx_slice"] = slice
	exec(transform(src, genericpath.__file__, "genericpath"), g.__dict__)
	return lambda p: g._splitext(p, "/", None, ".")
