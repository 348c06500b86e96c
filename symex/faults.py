"""Native counterpart of the virtual file system's fault and crash points."""
import builtins
import errno
import io
import os
import shutil
import sys
import tempfile


class FFile(object):
	def __init__(self, f, ctl, name):
		self.__dict__.update(_f=f, _c=ctl, _n=name)

	def write(self, d):
		self._c.event("write", self._n)
		if len(d):
			self._c.dirty(self._f)
		return self._f.write(d)

	def _out(self, kind):
		if self._f.closed or not self._c.isdirty(self._f):
			return
		try:
			self._c.event(kind, self._n)
		except OSError:
			self._c.lose(self._f)
			raise
		finally:
			self._c.clean(self._f)

	def flush(self):
		self._out("flush")
		self._f.flush()

	def close(self):
		try:
			self._out("close")
		finally:
			self._f.close()

	def __getattr__(self, a):
		return getattr(self._f, a)

	def __enter__(self):
		self._f.__enter__()
		return self

	def __exit__(self, *a):
		self.close()

	def __iter__(self):
		return iter(self._f)


class Faults(object):
	def __init__(self, root, fault_at=None, crash_at=None):
		self.root = root
		self.fault_at = fault_at
		self.crash_at = crash_at
		self.op = 0
		self.snapshot = None
		self.saved = []
		self.busy = False
		self.live = []
		self.disk = {}       # inode: contents before the buffered writes

	def dirty(self, f):
		ino = os.fstat(f.fileno()).st_ino
		if ino not in self.disk:
			f.flush()
			with self.o_open("/proc/self/fd/%d" % f.fileno(), "rb") as g:
				self.disk[ino] = g.read()

	def isdirty(self, f):
		return os.fstat(f.fileno()).st_ino in self.disk

	def lose(self, f):
		"""the buffered writes never reach the disk"""
		f.flush()
		fd = f.fileno()
		os.ftruncate(fd, 0)
		os.pwrite(fd, self.disk[os.fstat(fd).st_ino], 0)

	def clean(self, f):
		if not f.closed:
			self.disk.pop(os.fstat(f.fileno()).st_ino, None)

	def done(self, kind):
		"""a crash point behind an operation"""
		fault, self.fault_at = self.fault_at, None
		try:
			self.event("after " + kind, None)
		finally:
			self.fault_at = fault

	def event(self, kind, path):
		if self.busy:
			return
		k = self.op
		self.op += 1
		if self.crash_at is not None and k == self.crash_at and self.snapshot is None:
			self.busy = True
			try:
				for f in self.live:
					try:
						f.flush()
					except Exception:
						pass
				self.snapshot = {}
				for d, _, fs in os.walk(self.root):
					for x in fs:
						p = os.path.join(d, x)
						with self.o_open(p, "rb") as fh:
							was = self.disk.get(os.fstat(fh.fileno()).st_ino)
							self.snapshot[os.path.relpath(p, self.root)] = fh.read() if was is None else was
			finally:
				self.busy = False
		if self.fault_at is not None and k == self.fault_at:
			raise OSError(errno.EIO, "injected I/O error (%s)" % kind)

	def install(self):
		self.o_open = builtins.open
		C = self

		def f_open(p, mode="r", *a, **k):
			wr = any(c in mode for c in "wax+")
			C.event("open-w" if wr else "open-r", p)
			f = C.o_open(p, mode, *a, **k)
			if wr:
				C.live.append(f)
				return FFile(f, C, p)
			return f

		def f_fdopen(fd, mode="r", *a, **k):
			f = o_fdopen(fd, mode, *a, **k)
			C.live.append(f)
			return FFile(f, C, None)

		def simple(kind, orig):
			def f(*a, **k):
				C.event(kind, a)
				C.busy, old = True, C.busy
				try:
					r = orig(*a, **k)
				finally:
					C.busy = old
				if kind in ("rename", "remove"):
					C.done(kind)
				return r
			return f

		def f_makedirs(name, mode=0o777, exist_ok=False):
			if os.path.exists(name):
				return o_makedirs(name, mode, exist_ok)
			head = os.path.dirname(os.path.abspath(name))
			if not os.path.exists(head):
				f_makedirs(head, exist_ok=True)
			C.event("mkdir", name)
			return os.mkdir.__wrapped__(name) if hasattr(os.mkdir, "__wrapped__") else o_mkdir(name)
		o_fdopen, o_makedirs, o_mkdir = os.fdopen, os.makedirs, os.mkdir
		repl = [(builtins, "open", f_open), (os, "fdopen", f_fdopen),
		        (os, "remove", simple("remove", os.remove)), (os, "unlink", simple("remove", os.unlink)),
		        (os, "rename", simple("rename", os.rename)), (os, "replace", simple("rename", os.replace)),
		        (shutil, "move", simple("rename", shutil.move)),
		        (os, "mkdir", simple("mkdir", os.mkdir)), (os, "makedirs", f_makedirs),
		        (os, "rmdir", simple("rmdir", os.rmdir)),
		        (tempfile, "mkstemp", simple("mkstemp", tempfile.mkstemp))]
		for mod, name, fn in repl:
			orig = getattr(mod, name)
			self.saved.append((mod, name, orig))
			setattr(mod, name, fn)
			for m in list(sys.modules.values()):
				f = getattr(m, "__file__", None) or ""
				if not f.startswith("/repo"):
					continue
				for k, v in list(vars(m).items()):
					if v is orig:
						self.saved.append((m, k, orig))
						setattr(m, k, fn)

	def remove(self):
		for mod, name, orig in reversed(self.saved):
			setattr(mod, name, orig)
		self.saved = []
