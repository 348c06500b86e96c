"""Symbolic SRR files as lists of parts, for the editing properties."""
from props import common as C


class Part(object):
	def __init__(self, kind, raw, name=None, data=None):
		self.kind, self.raw, self.name, self.data = kind, raw, name, data


NAME = "abcxyzABCXYZ09_-"


def name(h, label, n):
	"""a stored path, one directory separator in the middle of longer ones;
	the characters stay symbolic"""
	if n <= 1:
		return h.str(label, n, alphabet=NAME)
	a = h.str(label + "a", 1, 0x61, 0x7A)
	return a + "/" + h.str(label + "b", n - 2, alphabet=NAME)


def stored(h, i, names, lo=0, hi=1 << 20):
	d = h.blob("d%d" % i, lo, hi)
	return Part("s", C.srr_stored(names[i].encode("ascii"), d), names[i], d)


def rarset(h, i, full):
	"""an SRR RAR block followed by the headers of that volume; full: 1 with
	the other kinds of block, 2 with recovery data that was not removed"""
	fc = h.int("fc%d" % i, 0, 0xFFFFFFFF)
	ps = h.int("ps%d" % i, 0, 0xFFFFFFFF)
	out = [Part("r", C.srr_rarfile(b"v%d.rar" % i, 0 if full == 2 else 1), "v%d.rar" % i), Part("x", C.RAR_MARKER), Part("x", C.volhdr()),
	       Part("x", C.filehdr(b"f.avi", ps, ps, crc=fc))]
	if full:
		cm = h.blob("cm%d" % i, 0, 5000)
		out.append(Part("x", C.newsub(b"CMT", cm)))
		if full == 2:
			rr = h.blob("rr%d" % i, 1, 5000)
			out.append(Part("x", C.rr_newsub(b"", 7, 99, packed=len(rr)) + rr))
			out.append(Part("x", C.rr_old(rr, 7, 99)))
		else:
			rrn = h.int("rrn%d" % i, 0, 1 << 30)
			out.append(Part("x", C.rr_newsub(b"", 7, 99, packed=rrn)))
		out.append(Part("x", C.endblock()))
		pd = h.blob("pd%d" % i, 1, 5000)
		out.append(Part("x", C.srr_padding(pd)))
	return out


def build(h, layout, names, full=False):
	"""layout: string of s (stored), r (rar set), o (oso hash)"""
	parts = [Part("h", C.srr_header(b"0123456789ab"))]
	k = 0
	for i, c in enumerate(layout):
		if c == "s":
			parts.append(stored(h, k, names))
			k += 1
		elif c == "r":
			parts += rarset(h, i, full)
		elif c == "o":
			parts.append(Part("o", C.srr_oso(b"f.avi", h.int("os%d" % i, 0, (1 << 64) - 1),
			                                 h.int("oh%d" % i, 0, (1 << 64) - 1)), "f.avi"))
	return parts


def raw(parts):
	b = b""
	for p in parts:
		b = b + p.raw
	return b
