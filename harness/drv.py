"""Helpers for drivers (run under /opt/venv python next to the real code)."""
import struct, hashlib
import numpy as np


def F(x):
    """A double as <<hi, lo>> (signed 32-bit halves), the encoding of spec/Floats.tla."""
    return list(struct.unpack(">ii", struct.pack(">d", float(x))))


def FV(v):
    a = np.ascontiguousarray(np.asarray(v, dtype=">f8").ravel())
    return a.view(">i4").reshape(-1, 2).tolist()


def FM(m):
    return [FV(r) for r in np.asarray(m, dtype=float)]


def IV(v):
    return [int(i) for i in np.asarray(v).ravel()]


def digest(*arrs):
    h = hashlib.sha1()
    for a in arrs:
        a = np.asarray(a)
        if a.dtype == object or a.dtype.names:
            h.update(repr(a.tolist()).encode())
        else:
            h.update(str(a.shape).encode())
            h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:16]
