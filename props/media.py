"""The life of an SRS: sample -> SRS -> sample, driven through the srs tool."""
import struct

SIG = 256


def setup(h):
	for mod in ("resample.main", "resample.srs"):
		h.patch(mod, "sep", lambda n, loc="": "n")
	h.patch("resample.main", "show_spinner", lambda n: None)


def srs(h, *argv):
	"""True when the tool reports success"""
	m = h.mod("resample.srs")
	try:
		m.main(list(argv), no_exit=True)
	except ValueError:
		return False
	return True


def frame(h, name, lo=0, hi=1 << 20, lits=2):
	"""data of a frame: its first bytes apart"""
	if lo < lits:
		lo = lits
	n = h.int(name + ".n", lo, hi)
	b = h.bytes(name + ".h", lits)
	r = h.blob(name + ".b", 0, hi)
	h.assume(len(r) == n - lits)
	return b + r


def create(h, sample, srsf, main=None, big=False, big_opt=()):
	a = [h.path(sample), "-y", "-o", h.path(srsf)]
	if main:
		a += ["-c", h.path(main)]
	if big:
		a.append("-b")
	return srs(h, *a)


def rebuild(h, srsf, main, out, *opt):
	return srs(h, h.path(srsf), h.path(main), "-y", "-o", h.path(out), *opt)


def place(h, main, ext):
	"""puts the movie on the disk, inside RAR volumes when asked for; its path"""
	n = h.case.get("rar")
	if not n:
		h.put("m/main." + ext, main)
		return "m/main." + ext
	from props import common as C
	nfo = b"some text"
	name = b"Main." + ext.encode()
	first = C.RAR_MARKER + C.volhdr(0x101 if n > 1 else 0) + C.filehdr(b"a.nfo", len(nfo), len(nfo), C.LONG) + nfo
	if n == 1:
		vol = first + C.filehdr(name, len(main), len(main), C.LONG) + main + C.endblock()
		untagged(h, ext, vol)
		h.put("m/x.rar", vol)
		return "m/x.rar"
	k = h.int("rarcut", h.case.get("rarmin", 20), h.case.get("rarmax", 1 << 24))
	h.assume(k <= len(main))
	one, two = main[:k], main[k:]
	vol = first + C.filehdr(name, len(one), len(main), C.LONG | C.SPLIT_AFTER) + one + C.endblock()
	untagged(h, ext, vol)
	h.put("m/x.rar", vol)
	h.put("m/x.r00", C.RAR_MARKER + C.volhdr(0x001) + C.filehdr(name, len(two), len(main), C.LONG | C.SPLIT_BEFORE) + two + C.endblock())
	return "m/x.rar"


def untagged(h, ext, vol):
	"""what has no format of its own is not taken for music by an ID3v1 tag"""
	if ext in ("vob", "ts", "m2ts"):
		h.assume(h.no(vol[len(vol) - 128:len(vol) - 125] == b"TAG"))


def life(h, ext, prepare, mksample, mkmain, setup=setup):
	setup(h)
	data = prepare(h)
	sample = mksample(h, data)
	main = place(h, mkmain(h, data), ext)
	s = "s/x." + ext
	h.put(s, sample)
	had = {f: h.get(f) for f in h.ls()}
	h.check(create(h, s, "x.srs", main if h.case.get("check") else None, big=h.case.get("big")), "the SRS is made")
	h.mkdir("out")
	h.check(rebuild(h, "x.srs", main, "out", *h.case.get("opt", ())), "the sample is rebuilt")
	h.check(h.exists("out/x." + ext), "the sample has its name")
	h.eq(h.get("out/x." + ext), sample, "the sample, byte for byte")
	for f in had:
		h.eq(h.get(f), had[f], "the other files are left alone")
	h.check(sorted(h.ls()) == sorted(list(had) + ["x.srs", "out/x." + ext]), "nothing else is left behind")
	h.reach("end")


def wrong(h, ext, prepare, mksample, mkmain, setup=setup, tail=b"", fit=None):
	"""a movie with other data never gives a sample that passes for the original"""
	setup(h)
	data = prepare(h)
	sample = mksample(h, data)
	s = "s/x." + ext
	h.put(s, sample)
	h.check(create(h, s, "x.srs"), "the SRS is made")
	other = dict(data)
	sw = h.case["swap"]
	if sw:
		d = data[sw]
		h.assume(len(d) > SIG)
		b = h.blob("other", 1, 1 << 20)
		if h.case.get("same", True):
			h.assume(len(b) == len(d) - SIG - len(tail))
		other[sw] = d[:SIG] + b + tail
	movie = mkmain(h, other)
	if h.case.get("cut"):
		k = h.int("moviecut", h.case["cut"], 1 << 24)
		h.assume(k < len(movie))
		movie = movie[:k]
		untagged(h, ext, movie)
	if fit:
		fit(h, movie)
	main = place(h, movie, ext)
	movie = h.get(main)
	h.mkdir("out")
	ok = rebuild(h, "x.srs", main, "out", *h.case.get("opt", ()))
	if ok:
		h.check(h.crc(h.get("out/x." + ext)) == h.crc(sample), "what passes has the checksum of the sample")
		h.reach("collision")
	else:
		left = [f for f in h.ls() if f not in (s, "x.srs", main, "m/x.r00")]
		if "-k" in h.case.get("opt", ()):
			left = [f for f in left if f != "out/x." + ext]
		h.check(left == [], "nothing of it is kept")
		h.reach("refused")
	h.eq(h.get(main), movie, "the movie is left alone")
	h.eq(h.get(s), sample, "the sample is left alone")
