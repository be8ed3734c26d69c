"""Executes the Python decoder of the working tree on messages that arrive on stdin; answers on stdout (see harness/c26.cpp)."""
import contextlib
import io
import os
import struct
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.environ["VERIF_PY_DIR"]]
import wasmtime  # noqa: E402
from cloudini_decoder import CloudiniDecoder  # noqa: E402

inp, out = sys.stdin.buffer, sys.stdout.buffer
sys.stdout = io.StringIO()
module = tempfile.NamedTemporaryFile(suffix=".wasm")
module.write(b"\0asm\1\0\0\0")
module.flush()
decoder = None
kept = []


def describe(points):
    """everything about a result as bytes"""
    b = io.BytesIO()
    d = points.dtype
    b.write(b"array %d %d %s\n" % (d.itemsize, points.ndim, "x".join(map(str, points.shape)).encode()))
    if d.names is None:
        b.write(b"plain %s %d\n" % (d.str.encode(), points.nbytes))
        b.write(points.tobytes())
        return b.getvalue()
    for n in d.names:
        f, off = d.fields[n][:2]
        raw = points[n].tobytes()
        b.write(b"field %s %s %d %d\n" % (n.encode("utf-8", "surrogateescape").hex().encode() or b"-", f.str.encode(), off, len(raw)))
        b.write(raw)
    b.write(b"end\n")
    return b.getvalue()


def header_text(h):
    b = io.BytesIO()
    for k in sorted(k for k in h if k != "fields"):
        b.write(b"h %s %s %s\n" % (k.encode(), type(h[k]).__name__.encode(), str(h[k]).encode()))
    for f in h.get("fields", []):
        n = f.get("name")
        r = f.get("resolution", "missing")
        b.write(b"f %s %s %s %s %s\n" % ((n.encode().hex() if isinstance(n, str) else type(n).__name__).encode() or b"-", str(f.get("offset")).encode(), str(f.get("type")).encode(), type(r).__name__.encode(),
                                      repr(r).encode()))
    return b.getvalue()


def answer(b):
    out.write(struct.pack("<I", len(b)) + b)
    out.flush()


while True:
    cmd = inp.read(1)
    if not cmd:
        break
    n = struct.unpack("<I", inp.read(4))[0]
    data = inp.read(n)
    sys.stdout.seek(0)
    sys.stdout.truncate()
    err = b""
    body = b""
    if cmd == b"N":  # a new decoder; data: limit of the memory in bytes (0: none) and the allocation that fails (-1: none)
        wasmtime.heap.__init__()
        wasmtime.heap.limit = int(data.split()[0]) or wasmtime.SIZE
        wasmtime.heap.fail_in = int(data.split()[1])
        decoder = None
        kept = []
        try:
            decoder = CloudiniDecoder(module.name)
        except Exception as e:
            err = ("%s: %s" % (type(e).__name__, e)).encode()
    elif cmd in (b"D", b"H"):
        # D: decode_message, H: get_header_info
        try:
            if cmd == b"D":
                points, header = decoder.decode_message(data, False)
                kept.append((points, describe(points)))
                body = header_text(header) + kept[-1][1]
            else:
                body = header_text(decoder.get_header_info(data))
        except Exception as e:
            err = ("%s: %s" % (type(e).__name__, e)).encode()
    elif cmd == b"F":  # an allocation from now on fails
        wasmtime.heap.fail_in = int(data)
    elif cmd == b"K":  # are the arrays of all earlier calls unchanged?
        if any(describe(p) != d for p, d in kept):
            err = b"changed"
    wasmtime.heap.check()
    mem = ("; ".join(wasmtime.heap.errors) or "-").encode()
    wasmtime.heap.errors = []
    live = len(wasmtime.heap.blocks)
    answer(b"status %s\nmemory %s\nlive %d\n" % ((err or b"ok").replace(b"\n", b" "), mem, live) + body)
