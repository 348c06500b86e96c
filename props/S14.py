"""Names of RAR volumes: what is one, which is the first, which is the next."""
from symex.run import Harness

PRELOAD = ("rescene.utility",)
BOUNDS = ("base names of 1-3 arbitrary printable characters; .partN.rar with 1-4 digits, .rar/.r00-.z99, .000-.998 in any "
          "capitals; any extension of 3-5 characters for recognition; up to 5 files in any order")
OUTSIDE = "behind the last number of a scheme (.part9 to .part10, .z99, .999), documented as undefined"


def _digits(h, name, n):
	return h.str(name, n, 0x30, 0x39)


def _val(h, s):
	v = 0
	for c in s:
		v = v * 10 + (ord(c) - 0x30)
	return v


def _is_next(h, a, b, msg):
	"""digit strings of equal length, b = a + 1"""
	h.check(len(a) == len(b), msg + " (width)")
	for c in b:
		h.check(h.all(ord(c) >= 0x30, ord(c) <= 0x39), msg + " (digits)")
	h.check(_val(h, b) == _val(h, a) + 1, msg)


def part(h):
	u = h.mod("rescene.utility")
	base = h.str("base", h.case["b"], 0x20, 0x7E)
	d = _digits(h, "d", h.case["d"])
	h.assume(h.no(h.all(*[c == "9" for c in d])))
	mid, ext = h.case["mid"], h.case["ext"]
	n = base + mid + d + ext
	r = u.next_archive(n)
	k = len(base) + len(mid)
	h.eq(r[:k], base + mid, "same name")
	h.eq(r[k + len(d):], ext, "same extension")
	_is_next(h, d, r[k:k + len(d)], "next number")
	h.eq(u.next_archive(n, True), n[:-4] + ".r00", "old style volumes follow with .r00")
	h.check(u.is_rar(n), "is a volume")
	h.reach("end")


def old(h):
	u = h.mod("rescene.utility")
	base = h.str("base", h.case["b"], 0x20, 0x7E)
	for isold in (False, True):
		h.eq(u.next_archive(base + "q" + h.case["rar"], isold), base + "q.r00", ".rar is followed by .r00")
	c = h.str("c", 1, *((0x72, 0x7A) if h.case["low"] else (0x52, 0x5A)))
	d = _digits(h, "d", 2)
	h.assume(h.no(h.all(c.lower() == "z", d == "99")))
	n = base + "." + c + d
	r = u.next_archive(n, h.case["old"])
	h.eq(r[:len(base) + 1], base + ".", "same name")
	rc, rd = r[-3], r[-2:]
	h.check(ord(rc) * 100 + _val(h, rd) == ord(c) * 100 + _val(h, d) + 1, "next volume")
	h.check(h.all(*[h.all(ord(x) >= 0x30, ord(x) <= 0x39) for x in rd]), "two digits")
	h.check(u.is_rar(n), "is a volume")
	h.reach("end")


def num(h):
	u = h.mod("rescene.utility")
	base = h.str("base", h.case["b"], 0x20, 0x7E)
	d = _digits(h, "d", 3)
	h.assume(h.no(d == "999"))
	r = u.next_archive(base + "." + d, h.case["old"])
	h.eq(r[:-3], base + ".", "same name")
	_is_next(h, d, r[-3:], "next number")
	h.check(u.is_rar(base + "." + d), "is a volume")
	h.reach("end")


def recognise(h):
	"""exactly .rar, .r00-.z99 and .000-.999 are volumes"""
	u = h.mod("rescene.utility")
	n = h.str("n", h.case["n"], 0x20, 0x7E)
	def dig(c):
		return h.all(ord(c) >= 0x30, ord(c) <= 0x39)
	good = False
	if h.case["n"] >= 4:
		e = n[-3:]
		l = ord(e[0])
		good = h.all(n[-4] == ".", h.any(
			e.lower() == "rar", h.all(dig(e[0]), dig(e[1]), dig(e[2])),
			h.all(h.any(h.all(l >= 0x72, l <= 0x7A), h.all(l >= 0x52, l <= 0x5A)), dig(e[1]), dig(e[2]))))
	r = u.is_rar(n)
	h.check(h.all(h.implies(r, good), h.implies(good, r)), "recognised exactly by the extension")
	h.reach("yes" if r else "no")
	try:
		u.next_archive(n)
	except AttributeError:
		h.check(h.no(good), "only other files are refused")
	except IndexError:
		h.check(False, "no such error")


def first(h):
	"""of the volumes of a set, in any order, the first one is found"""
	u = h.mod("rescene.utility")
	base = h.str("base", h.case["b"], 0x61, 0x7A)
	names = [base + x for x in h.case["ext"]]
	got = u.first_rars([names[i] for i in h.case["perm"]])
	h.eq(sorted(got), sorted([base + x for x in h.case["first"]]), "the first volume of each set")
	h.reach("end")


def chain(h):
	"""from the first volume on, all volumes follow each other"""
	u = h.mod("rescene.utility")
	base = h.str("base", h.case["b"], 0x61, 0x7A)
	names = [base + x for x in h.case["ext"]]
	n = names[0]
	for w in names[1:]:
		n = u.next_archive(n, h.case["old"])
		h.eq(n, w, "the next volume")
	h.reach("end")


_SETS = [
	([".rar", ".r00", ".r01", ".r02"], [".rar"], 1), ([".part1.rar", ".part2.rar", ".part3.rar"], [".part1.rar"], 0),
	([".part01.rar", ".part02.rar", ".part10.rar"], [".part01.rar"], 0), ([".part001.rar", ".part002.rar"], [".part001.rar"], 0),
	([".000", ".001", ".002"], [".000"], 0), ([".001", ".002", ".003"], [".001"], 0), ([".rar"], [".rar"], 0),
	(["1.rar", "1.r00"], ["1.rar"], 1), ([".part02.rar", ".part02.r00", ".part02.r01"], [".part02.rar"], 1),
	(["-a.rar", "-a.r00", "-b.rar", "-b.r00"], ["-a.rar", "-b.rar"], None), ([".cd1.rar", ".cd1.r00", ".cd2.rar", ".cd2.r00"], [".cd1.rar", ".cd2.rar"], None),
	([".part3.rar"], [".part3.rar"], None), ([".part2.rar", ".part3.rar"], [], None),
]


def _perms(n):
	r = list(range(n))
	out = [r, r[::-1]]
	if n > 2:
		out += [r[1:] + r[:1], [r[1], r[0]] + r[2:]]
	return [p for i, p in enumerate(out) if p not in out[:i]]


_CH = [([".rar", ".r00", ".r01", ".r02"], 1), ([".rar", ".r00"], 0), (["1.rar", "1.r00"], 1), ([".part1.rar", ".part2.rar", ".part3.rar"], 0),
       ([".part09.rar", ".part10.rar", ".part11.rar"], 0), ([".r98", ".r99", ".s00", ".s01"], 1), ([".000", ".001"], 0), ([".part02.rar", ".part02.r00", ".part02.r01"], 1),
       ([".t99", ".u00"], 1), ([".099", ".100"], 0), ([".part099.rar", ".part100.rar"], 0)]
HARNESSES = [
	Harness("part", "part", [{"b": b, "d": d, "mid": m, "ext": e} for b, d, m, e in (
		(1, 1, ".part", ".rar"), (2, 2, ".part", ".rar"), (1, 3, ".PART", ".RAR"), (1, 4, ".Part", ".rar"))], expect=("end",)),
	Harness("old", "old", [{"b": b, "low": l, "old": o, "rar": r} for b, l, o, r in (
		(1, 1, True, ".rar"), (2, 1, False, ".RAR"), (1, 0, True, ".Rar"))], expect=("end",)),
	Harness("num", "num", [{"b": b, "old": o} for b in (1, 2) for o in (False, True)], expect=("end",)),
	Harness("recognise", "recognise", [{"n": n} for n in (3, 4, 5)], [{"n": 6}], expect=("yes", "no")),
	Harness("first", "first", [{"b": b, "ext": e, "first": f, "perm": p} for e, f, _ in _SETS for b in (1, 2) for p in _perms(len(e))], expect=("end",)),
	Harness("chain", "chain", [{"b": b, "ext": e, "old": bool(o)} for e, o in _CH for b in (1, 3)], expect=("end",)),
]
