"""Reads the named arrays the harnesses write (harness/vtmain.hh)."""
import struct
import numpy as np


def read(path):
    with open(path, "rb") as f:
        b = f.read()
    out, pos = {}, 0
    while pos < len(b):
        name, typ = b[pos:pos + 23].rstrip(b"\0").decode(), chr(b[pos + 23])
        n, = struct.unpack("<Q", b[pos + 24:pos + 32])
        pos += 32
        out[name] = np.frombuffer(b, "<f8" if typ == "d" else "<i8", n, pos)
        pos += 8 * n
    return out
