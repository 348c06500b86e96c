"""yEnc articles decode to the bytes they were made from."""
import zlib
from symex.run import Harness

PRELOAD = ("usenet.yenc",)
BOUNDS = ("articles of 0-5 bytes of any content, on lines of 1-3 characters, with the escapes yEnc demands (NUL, LF, CR, =) and any of the optional ones "
          "(TAB, space, ., 0x09 and 0x1B) on any byte; single and multipart; part numbers and offsets of up to 10 digits; names of 1-3 characters; "
          "up to 9 empty and other lines around the article; any other checksum")
OUTSIDE = "longer data; more than 9 lines before =ybegin; names that hold ' part=' or ' total='; the C implementation of the decoder (not built here); uuencoded posts"
NAME = "abcXYZ019-_.[]()= "


def enc(h, d, width, opt):
	"""reference encoder: lines of width bytes of data (an escape counts as one)"""
	lines, cur, n = [], b"", 0
	for i in range(len(d)):
		e = (d[i] + 42) % 256
		must = h.any(e == 0, e == 10, e == 13, e == 61)
		may = h.any(e == 9, e == 32, e == 46, e == 27)
		if must:
			cur = cur + b"=" + bytes([e + 64])
		elif opt and may:
			cur = cur + b"=" + bytes([e + 64])
		else:
			cur = cur + bytes([e])
		n += 1
		if n == width:
			lines.append(cur)
			cur, n = b"", 0
	if n:
		lines.append(cur)
	return lines


def _num(h, nm, digits):
	"""a number of so many digits"""
	n = 0
	for i in range(digits):
		n = n * 10 + h.int("%s%d" % (nm, i), 0 if i else 1, 9)
	return n


def head(h, c, size):
	if c.get("heads"):
		name = h.str("name", c["heads"], alphabet=NAME)
		for x in (name[0], name[len(name) - 1]):
			h.assume(x != " ")
	else:
		name = "-=a file=- [1].r00"
	nm = name.encode("ascii")
	if c["multi"]:
		part, begin, total, fsize = 3, 640001, 12, 9000000
		if c.get("heads"):
			part, begin, fsize = (_num(h, k, n) for k, n in (("part", 2), ("begin", 3), ("fsize", 4)))
		l = [b"=ybegin part=" + ("%d" % part).encode() + (b" total=" + ("%d" % total).encode() if c["multi"] == 2 else b"") + b" line=128 size=" +
		     ("%d" % fsize).encode() + b" name=" + nm,
		     b"=ypart begin=" + ("%d" % begin).encode() + b" end=" + ("%d" % (begin + size - 1)).encode()]
		return l, name, part, begin, begin + size - 1, fsize
	return [b"=ybegin line=128 size=" + ("%d" % size).encode() + b" name=" + nm], name, 1, 1, size, size


def _around(h, nm, kinds):
	"""lines before or after an article: empty ones and others"""
	out = []
	for i, k in enumerate(kinds):
		x = b""
		if k == "t":
			x = h.bytes("%s%d" % (nm, i), 2)
			h.assume(x[0] != 61)
		out.append(x)
	return out


def article(h, crc, n):
	c = h.case
	d = h.bytes("d", n)
	l, name, part, begin, end, fsize = head(h, c, n)
	l = l + enc(h, d, c["width"], c.get("opt"))
	t = b"=yend size=" + ("%d" % n).encode()
	if c["multi"]:
		t = t + b" part=" + ("%d" % part).encode() + b" pcrc32=" + crc
	else:
		t = t + b" crc32=" + crc
	l = _around(h, "before", c.get("before", "")) + l + [t] + _around(h, "after", c.get("after", ""))
	return d, l, (name, part, begin, end, fsize)


def good(h):
	"""a complete article: the data, and the place it has in the file"""
	y = h.mod("usenet.yenc")
	c = h.case
	crc = h.str("crc", 8, alphabet="0123456789abcdefABCDEF")
	d, l, (name, part, begin, end, fsize) = article(h, crc.encode("ascii"), c["n"])
	right = int(crc, 16) == h.crc(d)
	try:
		r = y.decode(list(l))
	except y.CrcError as e:
		h.check(h.no(right), "only a wrong checksum is refused")
		h.eq(bytes(e.data), d, "what was read")
		h.check(e.needcrc == int(crc, 16), "the checksum asked for")
		h.reach("refused")
		return
	h.check(right, "a wrong checksum is refused")
	_same(h, r, d, name, part, begin, end, fsize)
	h.reach("decoded")


def header(h):
	"""the name and the numbers of an article"""
	y = h.mod("usenet.yenc")
	h.patch("usenet.yenc", "crc32", lambda d: 0x12345678)
	d, l, (name, part, begin, end, fsize) = article(h, b"12345678", 1)
	_same(h, y.decode(l), d, name, part, begin, end, fsize)
	h.reach("end")


def _same(h, r, d, name, part, begin, end, fsize):
	h.eq(bytes(r["data"]), d, "the data")
	h.eq(r["file_name"], name.encode("ascii"), "the name")
	h.check(r["part_number"] == part, "the part number")
	h.check(r["part_begin"] == begin, "where the part begins")
	h.check(r["part_end"] == end, "where the part ends")
	h.check(r["part_size"] == end - begin + 1, "the size of the part")
	h.check(r["file_size"] == fsize, "the size of the file")


def partial(h):
	"""the first lines of an article: the first bytes of its data"""
	y = h.mod("usenet.yenc")
	c = h.case
	d, l, (name, part, begin, end, fsize) = article(h, b"00000000", c["n"])
	k = (2 if c["multi"] else 1) + c["keep"]
	try:
		r = y.decode(list(l[:k]), seg_part=c["seg"])
	except y.YencException:
		h.check(not c["seg"], "only if the whole article was asked for")
		h.reach("refused")
		return
	h.check(c["seg"], "an article without an end is refused")
	_same(h, r, d[:c["width"] * c["keep"]], name, part, begin, end, fsize)
	h.reach("decoded")


def ignore(h):
	"""a wrong checksum can be ignored"""
	y = h.mod("usenet.yenc")
	d, l, (name, part, begin, end, fsize) = article(h, h.case["crc"].encode("ascii"), h.case["n"])
	r = y.decode(list(l), ignore_crc=True)
	_same(h, r, d, name, part, begin, end, fsize)
	h.reach("end")


_A = [{"n": n, "width": w, "multi": m, "opt": o} for n, w, m, o in (
	(0, 1, 0, 0), (1, 1, 0, 0), (1, 1, 1, 1), (2, 2, 0, 1), (2, 1, 2, 0))]
_B = [{"n": n, "width": w, "multi": m, "opt": o} for n, w, m, o in ((3, 2, 0, 0), (3, 3, 1, 0), (3, 3, 0, 1), (4, 2, 2, 0), (4, 4, 0, 0), (5, 2, 0, 0))]

HARNESSES = [
	Harness("good", "good", _A + [{"n": 1, "width": 1, "multi": 0, "before": x, "after": y} for x, y in (("ee", "ee"), ("tt", ""), ("ete", "etetttett"))], None, expect=("refused", "decoded")),
	Harness("header", "header", [{"n": 1, "width": 1, "multi": m, "heads": k} for m in (0, 1, 2) for k in (1, 2)],
	        [{"n": 1, "width": 1, "multi": m, "heads": 3} for m in (0, 1, 2)], expect=("end",)),
	Harness("partial", "partial", [{"n": 3, "width": 1, "multi": m, "keep": k, "seg": s} for m in (0, 2) for k in (1, 2) for s in (True, False)],
	        expect=("refused", "decoded")),
	Harness("ignore", "ignore", [dict(c, crc=x) for c, x in zip(_B, ("0", "12345678", "", "q", "deadbeef", "FFFFFFFF"))], expect=("end",)),
]
