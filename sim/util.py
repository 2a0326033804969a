import hashlib
import json

import numpy as np


def rnd(rng, lo, hi, nd=3):
    return round(rng.uniform(lo, hi), nd)


class Log:
    """Event log of one run; its hash is the run's identity."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.n = 0

    def add(self, *a):
        self.n += 1
        for x in a:
            if isinstance(x, np.ndarray):
                self.h.update(str(x.shape).encode() + np.ascontiguousarray(x).tobytes())
            elif isinstance(x, bytes):
                self.h.update(x)
            else:
                self.h.update(repr(x).encode())
        self.h.update(b"|")

    def digest(self):
        return self.h.hexdigest()[:20]


def sig(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:16]


def viol(cls, msg, **kw):
    return dict({"class": cls, "msg": str(msg)[:1500]}, **kw)


class Bad(Exception):
    """A violation found while executing an operation."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.v = viol(cls, msg)


def drop_each(seq, lo=0):
    """Candidates with chunks of a list removed, big chunks first."""
    n = len(seq)
    k = n // 2
    while k >= 1:
        for i in range(lo, n, k):
            c = seq[:i] + seq[i + k :]
            if len(c) >= lo:
                yield c
        k //= 2


def exc_name(e):
    return type(e).__name__
