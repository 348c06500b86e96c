"""Reference encoders shared by the harnesses (written from the format
descriptions, independent of the code under test)."""
import struct

RAR_MARKER = b"Rar!\x1a\x07\x00"

LONG = 0x8000
SPLIT_BEFORE, SPLIT_AFTER, PASSWORD, LARGE, UTF8, SALT, EXTTIME = 1, 2, 4, 0x100, 0x200, 0x400, 0x1000


def block(crc, btype, flags, body):
	return struct.pack("<HBHH", crc, btype, flags, 7 + len(body)) + body


def volhdr(flags=0x0001, r1=0, r2=0, crc=0x1111):
	return block(crc, 0x73, flags, struct.pack("<HL", r1, r2))


def filehdr(name, packed, unpacked, flags=LONG, crc=0, os=2, dt=0x3A21_6B2C, ver=20, method=0x30,
            attr=0x20, hcrc=0x2222, high=None, salt=b"", ext=b"", btype=0x74):
	body = struct.pack("<IIBIIBBHI", packed, unpacked, os, crc, dt, ver, method, len(name), attr)
	if high is not None:
		flags = flags | LARGE
		body = body + struct.pack("<II", high[0], high[1])
	body = body + name
	if salt:
		flags = flags | SALT
		body = body + salt
	if ext:
		flags = flags | EXTTIME
		body = body + ext
	return block(hcrc, btype, flags, body)


def newsub(name, data, flags=LONG, extra=b"", packed=None, crc=0, ver=29, attr=0):
	n = len(data) if packed is None else packed
	body = struct.pack("<IIBIIBBHI", n, n, 2, crc, 0, ver, 0x30, len(name), attr) + name + extra
	return block(0x3333, 0x7A, flags, body) + data


def rr_newsub(data, sectors, dsectors, flags=LONG, packed=None, crc=0):
	"""new style recovery record"""
	return newsub(b"RR", data, flags, b"Protect+" + struct.pack("<IQ", sectors, dsectors), packed, crc)


def rr_old(data, sectors, dsectors, packed=None, ver=20):
	n = len(data) if packed is None else packed
	return block(0x4444, 0x78, LONG, struct.pack("<IBHI", n, ver, sectors, dsectors) + b"Protect!") + data


def endblock(flags=0x4000, body=b"", crc=0x3DC4):
	return block(crc, 0x7B, flags, body)


def srr_header(app=b"app"):
	if not app:
		return block(0x6969, 0x69, 0, b"")
	return block(0x6969, 0x69, 1, struct.pack("<H", len(app)) + app)


def srr_stored(name, content):
	return block(0x6A6A, 0x6A, LONG, struct.pack("<IH", len(content), len(name)) + name) + content


def srr_rarfile(name, flags=1):
	return block(0x7171, 0x71, flags, struct.pack("<H", len(name)) + name)


def srr_oso(name, size, oso):
	return block(0x6B6B, 0x6B, 0, struct.pack("<QQH", size, oso, len(name)) + name)


def srr_padding(data):
	return block(0x6C6C, 0x6C, LONG, struct.pack("<I", len(data))) + data


def must_raise(h, exc, f, *a):
	try:
		f(*a)
	except exc:
		return True
	return False


def utf8len(h, name):
	n = 0
	for c in name:
		o = ord(c)
		n = n + 1 + h.ite(o > 0x7F, 1, 0) + h.ite(o > 0x7FF, 1, 0) + h.ite(o > 0xFFFF, 1, 0)
	return n


def surrogate(h, name):
	return h.any(*[h.all(ord(c) >= 0xD800, ord(c) <= 0xDFFF) for c in name])


def bad_chars(h, name):
	"""characters that are not allowed in a stored path"""
	return h.any(*[h.any(*[ord(c) == ord(x) for x in '\\:*?"<>|']) for c in name])


class Pre(object):
	"""the harness, with a prefix for the names of its inputs"""
	def __init__(self, h, p):
		self._h, self._p = h, p

	def str(self, n, *a, **k):
		return self._h.str(self._p + n, *a, **k)

	def int(self, n, *a):
		return self._h.int(self._p + n, *a)

	def blob(self, n, *a):
		return self._h.blob(self._p + n, *a)

	def bytes(self, n, *a):
		return self._h.bytes(self._p + n, *a)

	def __getattr__(self, n):
		return getattr(self._h, n)
