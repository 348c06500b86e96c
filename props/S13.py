"""SFV files: every line is accounted for, volumes come in order, once."""
from symex.run import Harness
from props import common as C, rarset as R

PRELOAD = ("rescene.utility", "rescene.main")
QUICK_S = 120
BOUNDS = ("SFV files of 1-3 lines with names of 1-3 arbitrary Latin-1 characters, 1-8 hexadecimal digits, any line ends, blank "
          "lines and comments; arbitrary files of up to 5 bytes; sorted sets of up to 4 entries in any order with repetitions")
OUTSIDE = ("longer lines; duplicates that differ in capitals only; sets whose volumes (other than the first) differ in capitals")

HEX = "0123456789abcdefABCDEF"


def _blank(h, c):
	"""what bytes.strip() or str.strip() takes away in Latin-1"""
	o = ord(c)
	return h.any(o == 0x20, h.all(o >= 9, o <= 13), h.all(o >= 0x1C, o <= 0x1F), o == 0x85, o == 0xA0)


def line(h):
	"""one entry between other lines"""
	u = h.mod("rescene.utility")
	nm = h.str("nm", h.case["n"], 0x21, 0xFF)
	for c in (nm[0], nm[-1]):
		h.assume(h.no(_blank(h, c)))
		h.assume(h.no(ord(c) == 0x22))
	for c in nm:
		h.assume(h.no(h.all(ord(c) >= 0x7F, ord(c) <= 0xA0)))
	h.assume(h.no(nm[0] == ";"))
	crc = h.str("crc", h.case["d"], alphabet=HEX)
	q = h.case.get("q", "")
	raw = (h.case["pre"] + q + nm + q + h.case["gap"] + crc + h.case["post"]).encode("latin-1")
	e, c, r = u.parse_sfv_data(raw)
	h.check(len(e) == 1, "one entry")
	h.eq(e[0].file_name, nm, "file name")
	h.eq(e[0].crc32, "0" * (8 - h.case["d"]) + crc, "checksum of eight digits")
	h.eq(c, h.case["com"], "the comments")
	h.eq(r, h.case.get("err", []), "no errors")
	h.reach("end")


def bad(h):
	"""a line without a proper checksum is an error, not an entry"""
	u = h.mod("rescene.utility")
	crc = h.str("crc", h.case["d"], 0x21, 0x7E)
	ok = True
	for c in crc:
		o = ord(c)
		if not h.any(h.all(o >= 0x30, o <= 0x39), h.all(o >= 0x41, o <= 0x46), h.all(o >= 0x61, o <= 0x66)):
			ok = False
	raw = "a.rar " + crc + "\r\n" + "b.rar 0000000a"
	e, c, r = u.parse_sfv_data(raw.encode("latin-1"))
	h.check(c == [], "no comment")
	if ok and h.case["d"] <= 8:
		h.eq([x.file_name for x in e], ["a.rar", "b.rar"], "entries")
		h.eq(r, [], "no errors")
		h.reach("good")
	else:
		h.eq([x.file_name for x in e], ["b.rar"], "only the good line is an entry")
		h.eq(r, ["a.rar " + crc], "the other one is reported")
		h.reach("bad")


def account(h):
	"""any bytes: each line that is not blank is an entry, comment or error"""
	u = h.mod("rescene.utility")
	n = h.case["n"]
	b = h.bytes("b", n) + h.case.get("tail", b"")
	e, c, r = u.parse_sfv_data(b)
	lines = [[]]
	for x in b:
		if x == 10 or x == 13:
			lines.append([])
		else:
			lines[-1].append(x)
	want = 0
	com = 0
	for l in lines:
		first = None
		for x in l:
			if first is None and not h.any(h.all(x >= 9, x <= 13), x == 32):
				first = x
		if first is not None:
			want += 1
			if first == 0x3B:
				com += 1
	h.check(len(e) + len(c) + len(r) == want, "every line is accounted for once")
	h.check(len(c) == com, "comments are the lines starting with ;")
	for x in e:
		h.check(len(x.crc32) == 8, "entries have checksums")
	h.reach("end")


def order(h):
	"""volumes in any order and repeated: the sorted list has each once, in
	the order of the volumes"""
	u = h.mod("rescene.utility")
	names = h.case["names"]
	crcs = [h.str("c%d" % i, 8, 0x30, 0x39) for i in range(len(names))]
	ent = [u.SfvEntry(names[k], crcs[k]) for k in h.case["perm"]]
	got = u.filter_sfv_duplicates(ent)
	h.eq([e.file_name for e in got], names, "each once, in order")
	h.eq([e.crc32 for e in got], crcs, "with its checksum")
	h.reach("end")


def dup(h):
	"""what is dropped is a duplicate: same name and same checksum"""
	u = h.mod("rescene.utility")
	a = h.str("a", 1, 0x61, 0x7A) + h.case["ext"][0]
	b = h.str("b", 1, 0x61, 0x7A) + h.case["ext"][1]
	ca, cb = h.str("ca", 2, alphabet="01aA"), h.str("cb", 2, alphabet="01aA")
	got = u.filter_sfv_duplicates([u.SfvEntry(a, ca), u.SfvEntry(b, cb)])
	same = h.all(a == b, ca.lower() == cb.lower())
	h.check(h.implies(len(got) == 1, same), "only duplicates are dropped")
	h.check(h.implies(same, len(got) == 1), "duplicates are dropped")
	h.reach("one" if len(got) == 1 else "two")


def compare(h):
	"""two SFV files are the same if they list the same, whatever the order,
	comments and spacing"""
	u = h.mod("rescene.utility")
	names = h.case["names"]
	c1 = [h.str("x%d" % i, 8, alphabet="0aA") for i in range(len(names))]
	c2 = [h.str("y%d" % i, 8, alphabet="0aA") for i in range(len(names))]
	one = "\r\n".join("%s %s" % x for x in zip(names, c1)).encode("ascii")
	two = (";c\n" + "\n\n".join("%s  %s" % (names[i], c2[i]) for i in h.case["perm"]) + "\n").encode("ascii")
	h.put("1.sfv", one)
	h.put("2.sfv", two)
	same = h.all(*[x.lower() == y.lower() for x, y in zip(c1, c2)])
	r = u.same_sfv(h.path("1.sfv"), h.path("2.sfv"))
	if r:
		h.check(same, "same only if every checksum is")
		h.reach("same")
	else:
		h.check(h.no(same), "different only if a checksum is")
		h.reach("differ")


def listed(h):
	"""the volumes to read are the RAR files of the SFV, in order, once"""
	m = h.mod("rescene.main")
	L = h.case["lines"]
	b = h.str("b", 2, 0x61, 0x7A)
	h.put("d/x.sfv", "".join(x.replace("@", b) + " 0000000" + str(i) + "\r\n" for i, x in enumerate(L)).encode("ascii"))
	got = list(m._handle_sfv(h.path("d/x.sfv")))
	h.eq([h.relpath(g) for g in got], ["d/" + x.replace("@", b) for x in h.case["want"]], "volumes in order")
	h.reach("end")


_OLD = ["a.rar", "a.r00", "a.r01", "a.s00"]
_NEW = ["a.part1.rar", "a.part2.rar", "a.part3.rar"]
_NUM = ["a.000", "a.001", "a.002"]
_TWO = ["a.rar", "a.r00", "b.rar", "b.r00"]
_MIX = ["b.rar", "B.r00", "B.r01"]
_MIX2 = ["A.RAR", "A.R00", "A.R01"]
_MIX3 = ["b.RAR", "b.r00", "b.s00"]


def _perms(n):
	import itertools
	ps = [list(p) for p in itertools.permutations(range(n))]
	return ps


def _some(n):
	ps = _perms(n)
	return ps[::5] if n > 3 else ps


HARNESSES = [
	Harness("line", "line", [{"n": n, "d": d, "pre": pre, "gap": gap, "post": post, "com": com} for n, d, pre, gap, post, com in (
		(1, 8, "", " ", "", []), (2, 8, "", "\t", "\r\n", []), (3, 8, "; c\r\n", "   ", "\n", ["; c"]), (2, 1, "\n\n", " ", "  \r\n\r\n", []),
		(2, 7, "  ; x y\r", " ", "\r", ["  ; x y"]), (3, 8, "  ", " ", "\t\n", []))] +
	        [{"n": 2, "d": 8, "pre": "", "gap": " ", "post": "", "com": [], "q": '"'}], expect=("end",)),
	Harness("bad", "bad", [{"d": d} for d in (1, 2, 9)], [{"d": 3}], expect=("good", "bad")),
	Harness("account", "account", [{"n": n} for n in (0, 1, 2, 3)] + [{"n": 2, "tail": b" 0a"}], [{"n": 4}, {"n": 3, "tail": b" 0a"}], expect=("end",)),
	Harness("order", "order", [{"names": s, "perm": p} for s in (_OLD, _NEW, _NUM, _TWO, _MIX, _MIX2, _MIX3) for p in _some(len(s))] +
	        [{"names": s[:3], "perm": p} for s in (_OLD, _NEW) for p in ([0, 1, 2, 0], [2, 0, 2, 1], [1, 2, 0, 1, 2])],
	        [{"names": s, "perm": p} for s in (_OLD, _TWO) for p in _perms(4)], expect=("end",)),
	Harness("dup", "dup", [{"ext": e} for e in ((".rar", ".rar"), (".rar", ".r00"), (".r00", ".r00"), (".nfo", ".r01"))], expect=("one", "two")),
	Harness("compare", "compare", [{"names": _OLD[:2], "perm": [1, 0]}, {"names": _OLD[:1], "perm": [0]}], expect=("same", "differ")),
	Harness("listed", "listed", [{"lines": l, "want": w} for l, w in (
		(["@.r00", "@.rar", "@.r01"], ["@.rar", "@.r00", "@.r01"]), (["@.nfo", "@.rar"], ["@.rar"]),
		(["@.part2.rar", "@.part1.rar", "@.sub"], ["@.part1.rar", "@.part2.rar"]), (["@.001", "@.000"], ["@.000", "@.001"]),
		(["@X.r00", "@X.r01", "@x.rar"], ["@x.rar", "@X.r00", "@X.r01"]))],
	        expect=("end",)),
]
