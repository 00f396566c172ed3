"""A numpy Generator whose raw bits are decided by the explorer.

The bit-generator structure of a PCG64 is patched so that every request for random bits is
answered from a script of quantiles in [0, 1).  Both numpy and numba-compiled code draw
through these function pointers, so the random choices made by compiled code are
enumerated rather than sampled.
"""
import ctypes

import numpy as np

_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _BitGen(ctypes.Structure):
    _fields_ = [
        ("state", ctypes.c_void_p),
        ("next_uint64", ctypes.c_void_p),
        ("next_uint32", ctypes.c_void_p),
        ("next_double", ctypes.c_void_p),
        ("next_raw", ctypes.c_void_p),
    ]


_get = ctypes.pythonapi.PyCapsule_GetPointer
_get.restype = ctypes.c_void_p
_get.argtypes = [ctypes.py_object, ctypes.c_char_p]
_KEEP = []


class Script:
    """answers handed out one after another; `tail` (cycled) once they are used up

    An answer is a quantile in [0, 1) or a raw 64-bit word (int).  With `real(seed)` the
    answers come from an ordinary PCG64 stream instead (used while a finder is set up).
    """

    LIMIT = 4000

    def __init__(self, quantiles=(), tail=(0.4987,)):
        self.reset(quantiles, tail)

    def reset(self, quantiles=(), tail=(0.4987,)):
        self.q = list(quantiles)
        self.tail = list(tail)
        self.n = 0
        self.src = None
        self.fallback = np.random.PCG64(99)
        return self

    def real(self, seed=0):
        self.src = np.random.PCG64(seed)
        self.n = 0
        return self

    def word(self):
        i = self.n
        self.n += 1
        if self.src is not None:
            return int(self.src.random_raw())
        if i >= len(self.q) + self.LIMIT:  # never starve rejection loops
            return int(self.fallback.random_raw())
        v = self.q[i] if i < len(self.q) else self.tail[(i - len(self.q)) % len(self.tail)]
        if isinstance(v, int):
            return v
        return min(int(v * 2.0**64), 2**64 - 1)


def scripted(script):
    """numpy Generator driven by `script`"""
    bg = np.random.PCG64(0)
    st = _BitGen.from_address(_get(bg.capsule, b"BitGenerator"))
    u64 = _U64(lambda _: script.word())
    u32 = _U32(lambda _: script.word() >> 32)
    dbl = _DBL(lambda _: (script.word() >> 11) * 2.0**-53)
    for name, f in (("next_uint64", u64), ("next_uint32", u32), ("next_double", dbl), ("next_raw", u64)):
        setattr(st, name, ctypes.cast(f, ctypes.c_void_p).value)
    gen = np.random.Generator(bg)
    _KEEP.append((bg, st, u64, u32, dbl, gen, script))
    return gen
