"""Stand-in for wasmtime: the "module" is the natively compiled library (environment variable VERIF_WASM_SO), its linear memory a
mapped region. Blocks of malloc lie between canaries, so that writing beyond them is noticed; freed memory is overwritten."""
import ctypes
import mmap
import os

_so = ctypes.CDLL(os.environ["VERIF_WASM_SO"])
SIZE = 1 << 29
GUARD = 4096
_region = mmap.mmap(-1, SIZE)
_base = ctypes.addressof(ctypes.c_char.from_buffer(_region))


class Trap(RuntimeError):
    pass


class Heap:
    """first fit, for any number of instances one after the other"""

    def __init__(self):
        self.blocks = {}  # offset -> size
        self.errors = []
        self.limit = SIZE
        self.fail_in = -1  # the number of allocations that succeed before one fails
        self.top = 1 << 20

    def malloc(self, size):
        self.fail_in -= 1
        if self.fail_in == -1:
            return 0
        at = self.top
        for off in sorted(self.blocks):
            at = max(at, off + self.blocks[off] + GUARD)
        at = (at + GUARD + 15) // 16 * 16
        if at + size + GUARD > self.limit:
            return 0
        self.blocks[at] = size
        _region[at - GUARD:at] = b"\xa5" * GUARD
        _region[at + size:at + size + GUARD] = b"\xa5" * GUARD
        fill = min(size, 65536)
        _region[at:at + fill] = b"\xee" * fill
        return at

    def free(self, ptr):
        if ptr == 0:
            return
        if ptr not in self.blocks:
            self.errors.append("free of %d, which is no block" % ptr)
            return
        self.check()
        size = min(self.blocks.pop(ptr), 65536)
        _region[ptr:ptr + size] = b"\xdd" * size

    def inside(self, ptr, size, what):
        """a region that the decoder uses has to belong to a block"""
        if not any(off <= ptr and ptr + size <= off + n for off, n in self.blocks.items()):
            self.errors.append("%s: %d bytes at %d belong to no block" % (what, size, ptr))

    def check(self):
        for off, size in self.blocks.items():
            if _region[off - GUARD:off] != b"\xa5" * GUARD or _region[off + size:off + size + GUARD] != b"\xa5" * GUARD:
                self.errors.append("memory beyond a block of %d bytes was written" % size)
                _region[off - GUARD:off] = b"\xa5" * GUARD
                _region[off + size:off + size + GUARD] = b"\xa5" * GUARD


heap = Heap()


class Engine:
    def __init__(self, config=None):
        pass


class Config:
    pass


class WasiConfig:
    def inherit_env(self): pass
    def inherit_stdin(self): pass
    def inherit_stdout(self): pass
    def inherit_stderr(self): pass


class Store:
    def __init__(self, engine=None):
        self.wasi = None

    def set_wasi(self, wasi):
        self.wasi = wasi


class Func:
    def __init__(self, store, ty, fn):
        self.fn = fn


class _Type:
    params = []
    results = ["i32"]


class _Import:
    def __init__(self, module, name):
        self.module, self.name, self.type = module, name, _Type()


class Module:
    def __init__(self, engine, wasm_bytes):
        if bytes(wasm_bytes[:4]) != b"\0asm":
            raise RuntimeError("not a module")
        self.imports = [_Import("wasi_snapshot_preview1", "fd_write"), _Import("env", "__cxa_throw"), _Import("env", "invoke_vi")]


class Memory:
    def data_len(self, store):
        return SIZE

    def read(self, store, start=None, stop=None):
        start, stop = start or 0, SIZE if stop is None else stop
        if not 0 <= start <= SIZE or stop > SIZE:
            raise IndexError("out of bounds")
        return bytearray(_region[start:stop]) if stop > start else bytearray()

    def write(self, store, value, start=None):
        start = start or 0
        if start < 0 or start + len(value) > SIZE:
            raise IndexError("out of bounds")
        heap.inside(start, len(value), "write")
        _region[start:start + len(value)] = bytes(value)
        heap.check()
        return len(value)

    def data_ptr(self, store):
        return (ctypes.c_ubyte * SIZE).from_buffer(_region)


class _Export:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, store, *args):
        return self.fn(*args)


def _native(name, signature):
    f = getattr(_so, name)
    f.restype = ctypes.c_uint32
    f.argtypes = [{"p": ctypes.c_void_p, "n": ctypes.c_uint32, "f": ctypes.c_float}[c] for c in signature]

    def call(*args):
        if len(args) != len(signature):
            raise TypeError("%s takes %d arguments" % (name, len(signature)))
        a = []
        for c, v in zip(signature, args):
            if c == "p":
                if not 0 <= v < SIZE:
                    raise Trap("out of bounds memory access")
                heap.inside(v, 0, name)
                v += _base
            a.append(v)
        r = f(*a)
        heap.check()
        return r
    return _Export(call)


class Exports(dict):
    pass


class Instance:
    def exports(self, store):
        e = Exports()
        e["memory"] = Memory()
        e["malloc"] = _Export(heap.malloc)
        e["free"] = _Export(heap.free)
        e["__wasm_call_ctors"] = _Export(lambda: None)
        for name, sig in (("cldn_GetHeaderAsYAML", "pnp"), ("cldn_GetHeaderAsYAMLFromDDS", "pnp"), ("cldn_ComputeCompressedSize", "pnf"), ("cldn_GetDecompressedSize", "pn"),
                          ("cldn_ConvertCompressedMsgToPointCloud2Msg", "pnp"), ("cldn_DecodeCompressedMessage", "pnp"), ("cldn_DecodeCompressedData", "pnp")):
            e[name] = _native(name, sig)
        return e


class Linker:
    def __init__(self, engine):
        self.d = set()

    def define_wasi(self):
        self.d.add("wasi_snapshot_preview1")

    def define(self, store, module, name, item):
        self.d.add((module, name))

    def instantiate(self, store, module):
        for i in module.imports:
            if i.module not in self.d and (i.module, i.name) not in self.d:
                raise RuntimeError("unknown import %s.%s" % (i.module, i.name))
        return Instance()
