"""Symbolic RAR volume sets for the create / rebuild properties.

A set is described by a list of volumes, each a list of items:
  "fN"   a piece of file N          "d"  a directory entry
  "c"    a comment (NewSub CMT)     "a"  an old authenticity block (0x79)
  "e"    an archive end block       "p"  bytes behind the end block
  "0"    the end block some groups blanked (all zero but its size)
"""
from props import common as C


class Vol(object):
	pass


def nice(i):
	return ["a.avi", "b.nfo", "Sub\\c.idx", "Sub\\a.avi", "a.avi.nfo", "A.avi"][i]


def disk(i):
	return nice(i).replace("\\", "/")


def build(h, spec, base="x", naming="old", maxlen=1 << 20, large=(), real_crc=True, wrongsize=False):
	vols = []
	files = {}
	count = {}
	for v in spec:
		for it in v:
			if it[0] == "f":
				n = int(it[1:])
				count[n] = count.get(n, 0) + 1
	for n in count:
		d = h.blob("D%d" % n, 0, maxlen)
		files[n] = d
	seen = {}
	cuts = {}
	for n in count:
		pos = [0]
		for k in range(count[n] - 1):
			c = h.int("cut%d_%d" % (n, k), 0, maxlen)
			h.assume(h.all(c >= pos[-1], c <= len(files[n])))
			pos.append(c)
		pos.append(len(files[n]))
		cuts[n] = pos
	for vi, v in enumerate(spec):
		fl = 1 | (0 if naming == "old" else 0x10) | (0x100 if vi == 0 else 0)
		if len(spec) == 1:
			fl = fl & ~1
		raw = C.RAR_MARKER + C.volhdr(fl, crc=h.int("vc%d" % vi, 0, 0xFFFF))
		head = raw
		for ii, it in enumerate(v):
			t = "%d_%d" % (vi, ii)
			if it[0] == "f":
				n = int(it[1:])
				k = seen.get(n, 0)
				seen[n] = k + 1
				a, b = cuts[n][k], cuts[n][k + 1]
				piece = files[n][a:b]
				last = seen[n] == count[n]
				flags = C.LONG | (1 if k else 0) | (0 if last else 2)
				crc = h.crc(files[n] if last else piece) if real_crc else h.int("fc" + t, 0, 0xFFFFFFFF)
				us = len(files[n])
				hd = C.filehdr(nice(n).encode("ascii"), b - a, us, flags, crc, hcrc=h.int("hc" + t, 0, 0xFFFF),
				               high=(0, 0) if n in large else None, dt=h.int("dt" + t, 0, 0xFFFFFFFF),
				               os=h.int("os" + t, 0, 5), attr=h.int("at" + t, 0, 0xFFFFFFFF))
				raw = raw + hd + piece
				head = head + hd
			elif it == "d":
				x = C.filehdr(b"Sub", 0, 0, C.LONG | 0xE0, 0, attr=0x10)
				raw, head = raw + x, head + x
			elif it == "c":
				x = C.newsub(b"CMT", h.blob("cm" + t, 0, 3000))
				raw, head = raw + x, head + x
			elif it == "a":
				x = C.block(0x5555, 0x79, C.LONG, h.bytes("al" + t, 0) + _le4(h, t))
				raw, head = raw + x, head + x
			elif it == "e":
				x = C.endblock(0x4000 | (1 if vi + 1 < len(spec) else 0) | 2, h.bytes("eb" + t, 4))
				raw, head = raw + x, head + x
			elif it == "0":
				x = C.block(0, 0, 0, b"\0" * 13)
				raw, head = raw + x, head + x
			elif it == "p":
				p = h.blob("pd" + t, 1, 3000)
				raw = raw + p
				head = head + C.srr_padding(p)
			else:
				raise KeyError(it)
		o = Vol()
		o.name = volname(base, vi, naming)
		o.raw, o.head = raw, head
		vols.append(o)
	return vols, files


def _le4(h, t):
	return b"\0\0\0\0" + b"auth"


def volname(base, i, naming):
	if naming == "old":
		return base + (".rar" if i == 0 else ".r%02d" % (i - 1))
	if naming == "num":
		return base + ".%03d" % (i + 1)
	return base + ".part%d.rar" % (i + 1)


def put(h, d, vols):
	for v in vols:
		h.put(d + v.name, v.raw)


def sfv(h, vols, crcs=None):
	return "".join("%s %s\r\n" % (v.name, "0badf00d" if crcs is None else crcs[i])
	               for i, v in enumerate(vols)).encode("ascii")
