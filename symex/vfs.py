"""Virtual file system with symbolic contents, names and I/O faults."""
import errno
import fnmatch
import glob
import io
import os
import posixpath
import shutil
import sys
import tempfile
from . import terms as T
from .terms import Sym, SymInt, SymBool, EngineGap, PathCut, and_, or_, not_, is_sym
from .seqs import SymBytes, SymStr, SymByteArray, SeqBase, Lit, Rep, Ext, as_rope, as_bytes_like, norm

ROOT = "/v"


class Node(object):
	__slots__ = ("content", "mode", "disk")

	def __init__(self, content=b""):
		self.content = content
		self.disk = None      # what a crash leaves while writes are buffered
		self.mode = 0o644

	@property
	def size(self):
		c = self.content
		return len(c) if isinstance(c, bytes) else c.length()


def ioerr(code, path=None, cls=None):
	e = OSError(code, os.strerror(code), None)
	return e


class VFS(object):
	def __init__(self):
		from . import rt as R
		self.files = R.SxDict()
		self.dirs = R.SxDict({"/": 1, ROOT: 1, "/tmp": 1})
		self.cwd = ROOT
		self.ntmp = 0
		self.fds = {}
		self.nfd = 1000
		self.op = 0
		self.fault_at = None
		self.crash_at = None
		self.snapshot = None
		self.oplog = []
		self.open_files = []

	# ---- faults
	def event(self, kind, path):
		k = self.op
		self.op += 1
		self.oplog.append(kind)
		if self.crash_at is not None and self.snapshot is None and self.crash_at == k:
			self.snapshot = self.dump()
		if self.fault_at is not None and self.fault_at == k:
			raise OSError(errno.EIO, "injected I/O error (%s)" % kind)

	def dump(self):
		"""what a crash now leaves behind: buffered writes are lost"""
		return dict((p, n.content if n.disk is None else n.disk) for p, n in self.files.items())

	def done(self, kind):
		"""a crash point behind an operation (nothing fails here)"""
		k = self.op
		self.op += 1
		self.oplog.append("after " + kind)
		if self.crash_at is not None and self.snapshot is None and self.crash_at == k:
			self.snapshot = self.dump()

	# ---- paths
	def resolve(self, p):
		if isinstance(p, (bytes,)):
			p = os.fsdecode(p)
		if hasattr(p, "__fspath__"):
			p = p.__fspath__()
		if not isinstance(p, (str, SymStr)):
			raise TypeError("expected str, bytes or os.PathLike object, not " + type(p).__name__)
		if isinstance(p, str):
			if "\x00" in p:
				raise ValueError("embedded null byte")
			p.encode(sys.getfilesystemencoding(), "surrogateescape")
		else:
			for c in p.elems():
				if c == 0:
					raise ValueError("embedded null byte")
				if is_sym(c) and T.rng(c)[1] >= 0xD800 and and_(c >= 0xD800, c <= 0xDFFF):
					raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
		if not p:
			raise OSError(errno.ENOENT, os.strerror(errno.ENOENT))
		comps = p.split("/")
		if comps[0] == "" and len(comps) > 1:
			cur = ""
		else:
			cur = self.cwd
		for c in comps:
			if c == "" or c == ".":
				continue
			if c == "..":
				if not self.isdir_(cur or "/"):
					raise OSError(errno.ENOENT, os.strerror(errno.ENOENT))
				cur = cur.rpartition("/")[0]
				continue
			if cur != "" and cur in self.files:
				raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
			cur = cur + "/" + c
		return cur or "/"

	def isdir_(self, p):
		return p in self.dirs

	def isfile_(self, p):
		return p in self.files

	def parent(self, p):
		return p.rpartition("/")[0] or "/"

	def mkdirs_(self, p):
		while p and p != "/" and p not in self.dirs:
			self.dirs[p] = 1
			p = self.parent(p)

	def put(self, p, content):
		p = self.resolve(p)
		self.mkdirs_(self.parent(p))
		self.files[p] = Node(content)

	def children(self, d):
		out = []
		pre = d if d == "/" else d + "/"
		for p in list(self.files.keys()) + list(self.dirs.keys()):
			if p == d or p == "/":
				continue
			if p.startswith(pre):
				rest = p[len(pre):]
				if "/" not in rest if isinstance(rest, str) else not rest.contains("/"):
					if not (rest == ""):
						out.append(rest)
		return out

	# ---- os level operations
	def exists(self, p):
		try:
			p = self.resolve(p)
		except (OSError, ValueError):
			return False
		return p in self.files or p in self.dirs

	def isfile(self, p):
		try:
			p = self.resolve(p)
		except (OSError, ValueError):
			return False
		return p in self.files

	def isdir(self, p):
		try:
			p = self.resolve(p)
		except (OSError, ValueError):
			return False
		return p in self.dirs

	def getsize(self, p):
		p = self.resolve(p)
		if p in self.files:
			return self.files[p].size
		if p in self.dirs:
			return 4096
		raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))

	def remove(self, p):
		p = self.resolve(p)
		self.event("remove", p)
		if p in self.dirs:
			raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR))
		if p not in self.files:
			raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
		del self.files[p]
		self.done("remove")

	def rename(self, a, b, replace=True):
		a, b = self.resolve(a), self.resolve(b)
		self.event("rename", b)
		if a in self.files:
			if b in self.dirs:
				raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR))
			if self.parent(b) not in self.dirs:
				raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
			n = self.files[a]
			if a == b:
				self.done("rename")
				return
			del self.files[a]
			self.files[b] = n
			self.done("rename")
			return
		if a in self.dirs:
			if b in self.files:
				raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
			for p in list(self.files.keys()):
				if p.startswith(a + "/"):
					n = self.files[p]
					del self.files[p]
					self.files[b + p[len(a):]] = n
			for p in list(self.dirs.keys()):
				if p == a or p.startswith(a + "/"):
					del self.dirs[p]
					self.dirs[b + p[len(a):]] = 1
			self.done("rename")
			return
		raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))

	def mkdir(self, p, *a, **k):
		p = self.resolve(p)
		self.event("mkdir", p)
		if p in self.files or p in self.dirs:
			raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST))
		if self.parent(p) not in self.dirs:
			raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
		self.dirs[p] = 1

	def makedirs(self, p, mode=0o777, exist_ok=False):
		p = self.resolve(p)
		if p in self.files or p in self.dirs:
			if exist_ok and p in self.dirs:
				return
			raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST))
		par = self.parent(p)
		if par not in self.dirs:
			if par in self.files:
				raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
			self.makedirs(par, exist_ok=True)
		self.event("mkdir", p)
		self.dirs[p] = 1

	def rmdir(self, p):
		p = self.resolve(p)
		self.event("rmdir", p)
		if p not in self.dirs:
			raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
		if self.children(p):
			raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY))
		del self.dirs[p]

	def removedirs(self, p):
		self.rmdir(p)
		p = self.parent(self.resolve(p))
		while p != "/":
			try:
				self.rmdir(p)
			except OSError:
				break
			p = self.parent(p)

	def renames(self, a, b):
		par = self.parent(self.resolve(b))
		if par not in self.dirs:
			self.makedirs(par)
		self.rename(a, b)

	def rmtree(self, p, ignore_errors=False, onerror=None):
		p = self.resolve(p)
		for q in list(self.files.keys()):
			if q.startswith(p + "/"):
				del self.files[q]
		for q in list(self.dirs.keys()):
			if q == p or q.startswith(p + "/"):
				del self.dirs[q]

	def listdir(self, p="."):
		p = self.resolve(p)
		if p in self.files:
			raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
		if p not in self.dirs:
			raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
		return self.children(p)

	def walk(self, top, topdown=True, onerror=None, followlinks=False):
		try:
			names = self.listdir(top)
		except OSError:
			return
		dirs, files = [], []
		rt = T.ENG.rt
		for n in names:
			full = rt.call(os.path.join, top, n)
			(dirs if self.isdir(full) else files).append(n)
		if topdown:
			yield top, dirs, files
		for d in dirs:
			for x in self.walk(rt.call(os.path.join, top, d), topdown):
				yield x
		if not topdown:
			yield top, dirs, files

	def open(self, p, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
		if isinstance(p, int):
			f = self.fds.get(p)
			if f is None:
				raise OSError(errno.EBADF, os.strerror(errno.EBADF))
			return VFile(self, f.node, mode, f.name, encoding, errors, newline)
		name = p
		p = self.resolve(p)
		wr = any(c in mode for c in "wax+")
		self.event("open-w" if wr else "open-r", p)
		if p in self.dirs:
			raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR))
		ex = p in self.files
		if "r" in mode and not ex:
			raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
		if "x" in mode and ex:
			raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST))
		if not ex:
			if self.parent(p) not in self.dirs:
				if self.parent(p) in self.files:
					raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
				raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
			node = Node()
			self.files[p] = node
		else:
			node = self.files[p]
			if "w" in mode:
				node.content = b""
		return VFile(self, node, mode, name, encoding, errors, newline)

	def mkstemp(self, suffix="", prefix="tmp", dir=None, text=False):
		d = dir if dir is not None and dir != "" else ("/tmp" if dir is None else self.cwd)
		d = self.resolve(d)
		self.event("mkstemp", d)
		if d not in self.dirs:
			raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
		self.ntmp += 1
		p = self.resolve(d + "/" + (prefix or "tmp") + "sxtmp%d" % self.ntmp + (suffix or ""))
		if self.parent(p) not in self.dirs:
			raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
		node = Node()
		self.files[p] = node
		self.nfd += 1
		self.fds[self.nfd] = VFile(self, node, "w+b", p)
		return self.nfd, p

	def mkdtemp(self, suffix=None, prefix=None, dir=None):
		d = self.resolve(dir) if dir else "/tmp"
		self.ntmp += 1
		p = d + "/" + (prefix or "tmp") + "sxtmp%d" % self.ntmp + (suffix or "")
		self.dirs[p] = 1
		return p


class VFile(object):
	_sx_type = io.BufferedRandom

	def __init__(self, vfs, node, mode="rb", name=None, encoding=None, errors=None, newline=None):
		self.vfs = vfs
		self.node = node
		self.mode = mode
		self.name = name
		self.pos = 0
		self.closed = False
		self.text = "b" not in mode
		self.encoding = encoding or "utf-8"
		self.errors = errors or "strict"
		self.newline = newline
		self.can_r = "r" in mode or "+" in mode
		self.can_w = any(c in mode for c in "wax+")
		if "a" in mode:
			self.pos = node.size

	def _chk(self, w=False):
		if self.closed:
			raise ValueError("I/O operation on closed file.")
		if w and not self.can_w:
			raise io.UnsupportedOperation("write")
		if not w and not self.can_r:
			raise io.UnsupportedOperation("read")

	def readable(self):
		return self.can_r

	def writable(self):
		return self.can_w

	def seekable(self):
		return True

	def fileno(self):
		raise io.UnsupportedOperation("fileno")

	def isatty(self):
		return False

	def _get(self, a, b):
		c = self.node.content
		return T.ENG.rt.getitem(c, slice(a, b))

	def read(self, n=-1):
		self._chk()
		if isinstance(n, SymBool):
			n = n.toint()
		size = self.node.size
		if n is None or n < 0:
			n = size - self.pos
		if self.pos >= size or n == 0:
			return "" if self.text else b""
		end = self.pos + n
		if end > size:
			end = size
		d = self._get(self.pos, end)
		self.pos = end
		if self.text:
			d = self._dec(d)
		return d
	read1 = read

	def _dec(self, d):
		rt = T.ENG.rt
		if isinstance(d, bytes):
			s = d.decode(self.encoding, self.errors)
		else:
			s = rt.decode(d, self.encoding, self.errors)
		if self.newline is None:
			s = s.replace("\r\n", "\n").replace("\r", "\n")
		return s

	def readinto(self, b):
		d = self.read(T.ENG.rt.call(len, b))
		n = T.ENG.rt.call(len, d)
		b[0:n] = d
		return n

	def readall(self):
		return self.read()

	def readline(self, limit=-1):
		self._chk()
		size = self.node.size
		rope = as_rope(self.node.content)
		out = []
		start = self.pos
		while self.pos < size:
			if limit >= 0 and self.pos - start >= limit:
				break
			c = rope.byte(self.pos)
			self.pos = self.pos + 1
			if c == 10:
				break
		d = self._get(start, self.pos)
		return self._dec(d) if self.text else d

	def readlines(self, hint=-1):
		return list(self)

	def __iter__(self):
		while True:
			l = self.readline()
			if not l:
				return
			yield l

	def __next__(self):
		l = self.readline()
		if not l:
			raise StopIteration
		return l
	next = __next__

	def seek(self, off, whence=0):
		if self.closed:
			raise ValueError("seek of closed file")
		if whence == 0:
			p = off
		elif whence == 1:
			p = self.pos + off
		elif whence == 2:
			p = self.node.size + off
		else:
			raise ValueError("invalid whence")
		if p < 0:
			raise self._neg()
		self.pos = p
		return p

	def _neg(self):
		return OSError(errno.EINVAL, os.strerror(errno.EINVAL))

	def tell(self):
		if self.closed:
			raise ValueError("tell of closed file")
		return self.pos

	def write(self, d):
		self._chk(True)
		if self.vfs is not None:
			self.vfs.event("write", self.name)
		if self.text:
			if isinstance(d, SymStr):
				d = d.encode(self.encoding)
			else:
				d = d.encode(self.encoding)
		elif not isinstance(d, (bytes, bytearray, SymBytes, SymByteArray)):
			raise TypeError("a bytes-like object is required, not '%s'" % type(d).__name__)
		d = as_bytes_like(d)
		n = len(d) if isinstance(d, bytes) else d.length()
		if isinstance(n, int) and n == 0:
			return 0
		c = self.node.content
		if self.node.disk is None:
			self.node.disk = c
		size = self.node.size
		if "a" in self.mode:
			self.pos = size
		gap = self.pos - size
		if isinstance(gap, int) and gap == 0 or T.ENG.must(gap == 0):
			self.node.content = c + d if len_(c) else d
		elif gap > 0:
			self.node.content = c + SymBytes([Rep(0, gap)]) + d if not isinstance(gap, int) else \
				c + b"\x00" * gap + d
		else:
			r = as_rope(c)
			head = r.sub(0, self.pos)
			end = self.pos + n
			tail = r.sub(end, size) if end < size else b""
			self.node.content = head + d + tail
		if isinstance(self.node.content, SymBytes):
			self.node.content = self.node.content.norm_out()
		self.pos = self.pos + n
		return n

	def writelines(self, ls):
		for l in ls:
			self.write(l)

	def truncate(self, n=None):
		self._chk(True)
		if n is None:
			n = self.pos
		size = self.node.size
		if n < size:
			self.node.content = as_rope(self.node.content).sub(0, n)
		elif n > size:
			gap = n - size
			self.node.content = self.node.content + (
				b"\x00" * gap if isinstance(gap, int) else SymBytes([Rep(0, gap)]))
		return n

	def _out(self, kind):
		"""the buffered writes reach the disk, or are lost"""
		n = self.node
		if n.disk is None:
			return
		if self.vfs is not None:
			try:
				self.vfs.event(kind, self.name)
			except OSError:
				n.content, n.disk = n.disk, None
				raise
		n.disk = None

	def flush(self):
		self._out("flush")

	def close(self):
		if not self.closed:
			self.closed = True
			self._out("close")

	def detach(self):
		return self

	def __enter__(self):
		if self.closed:
			raise ValueError("I/O operation on closed file.")
		return self

	def __exit__(self, *a):
		self.close()

	def getvalue(self):
		return self.node.content

	def getbuffer(self):
		return self.node.content


def len_(c):
	return len(c) if isinstance(c, bytes) else c.length()


class SxBytesIO(VFile):
	_sx_type = io.BytesIO

	def __init__(self, data=b""):
		VFile.__init__(self, None, Node(as_bytes_like(data)), "r+b", None)

	def _neg(self):
		return ValueError("negative seek value")


class StdStream(object):
	"""stand-in for sys.stdout / sys.stderr (output is not observed)"""
	encoding = "utf-8"
	errors = "strict"

	def write(self, *a):
		return 0

	def flush(self):
		pass

	def isatty(self):
		return False


def install(rt):
	from . import rt as R
	H = rt.hooks

	def vfs():
		return T.ENG.vfs

	def b(name):
		return lambda *a, **k: getattr(vfs(), name)(*a, **k)

	H[open] = b("open")
	H[io.open] = b("open")
	H[io.BytesIO] = SxBytesIO
	H[os.remove] = b("remove")
	H[os.unlink] = b("remove")
	H[os.rename] = b("rename")
	H[os.replace] = b("rename")
	H[os.renames] = b("renames")
	H[os.mkdir] = b("mkdir")
	H[os.makedirs] = b("makedirs")
	H[os.rmdir] = b("rmdir")
	H[os.removedirs] = b("removedirs")
	H[os.listdir] = b("listdir")
	H[os.walk] = b("walk")
	H[os.getcwd] = lambda: vfs().cwd
	H[os.path.exists] = b("exists")
	H[os.path.lexists] = b("exists")
	H[os.path.isfile] = b("isfile")
	H[os.path.isdir] = b("isdir")
	H[os.path.islink] = lambda p: False
	H[os.path.getsize] = b("getsize")
	H[os.path.realpath] = lambda p, **k: rt.call(os.path.abspath, p)
	H[os.path.getmtime] = lambda p: 1.0e9
	H[os.fdopen] = lambda fd, mode="r", *a, **k: vfs().open(fd, mode)
	H[os.close] = lambda fd: None
	H[os.chmod] = lambda *a: None
	H[os.utime] = lambda *a, **k: None
	H[os.access] = lambda p, m: vfs().exists(p)
	H[os.fspath] = lambda p: p if isinstance(p, SymStr) else os.fspath(p)
	H[os.fsdecode] = lambda p: p if isinstance(p, SymStr) else os.fsdecode(p)
	H[tempfile.mkstemp] = b("mkstemp")
	H[tempfile.mkdtemp] = b("mkdtemp")

	def mktemp(suffix="", prefix="tmp", dir=None):
		d = "/tmp" if dir is None else dir
		return "%s%smk%s" % (d + "/" if d else "", prefix, suffix)
	H[tempfile.mktemp] = mktemp
	H[tempfile.TemporaryFile] = lambda *a, **k: SxBytesIO()
	H[tempfile.SpooledTemporaryFile] = lambda *a, **k: SxBytesIO()
	H[tempfile.gettempdir] = lambda: "/tmp"
	H[shutil.rmtree] = b("rmtree")
	H[shutil.move] = b("rename")

	def copyfile(a, bb, **k):
		v = vfs()
		src = v.open(a, "rb")
		if v.isdir(bb):
			bb = rt.call(os.path.join, bb, rt.call(os.path.basename, a))
		dst = v.open(bb, "wb")
		dst.write(src.read())
		return bb
	for n in ("copyfile", "copy", "copy2"):
		H[getattr(shutil, n)] = copyfile

	def copyfileobj(fs, fd, length=65536):
		while True:
			d = fs.read(length)
			if not d:
				break
			fd.write(d)
	H[shutil.copyfileobj] = copyfileobj

	# pure path functions: instrumented copy of the stdlib source for symbolic
	# arguments
	from . import instrument
	pp = instrument.load_stdlib_posixpath(rt)
	for nm in ("join", "basename", "dirname", "split", "splitext", "normpath", "normcase",
	           "isabs", "relpath", "abspath", "commonprefix", "splitdrive"):
		nat = getattr(posixpath, nm)
		ins = getattr(pp, nm)

		def f(*a, nat=nat, ins=ins, nm=nm, **k):
			if R.has_sym(a):
				return ins(*a, **k)
			if nm in ("abspath", "relpath"):
				return ins(*a, **k)
			return nat(*a, **k)
		H[nat] = f

	def fnm(name, pat):
		if is_sym(name):
			import re
			from .sre import compile_
			return compile_(fnmatch.translate(pat)).match(name) is not None
		return fnmatch.fnmatchcase(name, pat)
	H[fnmatch.fnmatch] = fnm
	H[fnmatch.fnmatchcase] = fnm
	H[fnmatch.filter] = lambda names, pat: [n for n in names if fnm(n, pat)]

	def vglob(pattern, **k):
		d, base = posixpath.split(pattern)
		out = []
		if not glob.has_magic(base):
			return [pattern] if vfs().exists(pattern) else []
		if glob.has_magic(d):
			dirs = vglob(d)
		else:
			dirs = [d]
		for dd in dirs:
			try:
				for n in vfs().listdir(dd or "."):
					if not n.startswith(".") and fnm(n, base):
						out.append(rt.call(os.path.join, dd, n))
			except OSError:
				pass
		return out
	H[glob.glob] = vglob
	H[glob.iglob] = lambda p, **k: iter(vglob(p, **k))
