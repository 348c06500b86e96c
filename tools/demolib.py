import os, shutil, struct, sys, tempfile, zlib

MARK = b"Rar!\x1a\x07\x00"


def blk(t, flags, body=b"", data=b""):
    h = struct.pack("<BHH", t, flags, 7 + len(body)) + body
    return struct.pack("<H", zlib.crc32(h) & 0xFFFF) + h + data


def volhdr(flags=0):
    return blk(0x73, flags, b"\0" * 6)


def filehdr(name, packed, size, crc, flags=0, method=0x30, data=b""):
    body = struct.pack("<IIBIIBBHI", packed & 0xFFFFFFFF, size & 0xFFFFFFFF, 0, crc & 0xFFFFFFFF, 0, 29, method, len(name), 0x20)
    return blk(0x74, 0x8000 | flags, body + name, data)


def endblk(flags=0, body=b""):
    return blk(0x7B, 0x4000 | flags, body)


def srrhdr(app=b"demo"):
    return struct.pack("<HBHH", 0x6969, 0x69, 1, 7 + 2 + len(app)) + struct.pack("<H", len(app)) + app


def srrstored(name, data):
    return struct.pack("<HBHHIH", 0x6A6A, 0x6A, 0x8000, 7 + 4 + 2 + len(name), len(data), len(name)) + name + data


def srrrar(name, flags=0):
    return struct.pack("<HBHHH", 0x7171, 0x71, flags, 7 + 2 + len(name), len(name)) + name


def volumes(name, data, cuts, tail=None, vflags=1):
    """one packed file over several volumes: list of raw volumes"""
    out = []
    cuts = [0] + list(cuts) + [len(data)]
    n = len(cuts) - 1
    for i in range(n):
        p = data[cuts[i]:cuts[i + 1]]
        fl = (1 if i else 0) | (2 if i + 1 < n else 0)
        crc = zlib.crc32(data if i + 1 == n else p)
        t = tail if tail is not None else endblk()
        out.append(MARK + volhdr(vflags) + filehdr(name, len(p), len(data), crc, fl, data=p) + t)
    return out


def write(path, data):
    d = os.path.dirname(path)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    with open(path, "wb") as f:
        f.write(data)


def read(path):
    with open(path, "rb") as f:
        return f.read()


T = tempfile.mkdtemp(prefix="demo_")
import atexit
atexit.register(shutil.rmtree, T, True)


def p(*a):
    return os.path.join(T, *a)
