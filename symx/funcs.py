"""Concrete stand-ins for opaque functions (used by replay and by the numeric evaluator)."""
import math
import random
import numpy as np

_C = {}


def coeffs(name, seed):
    k = (name, seed)
    if k not in _C:
        r = random.Random('%s/%s' % (name, seed))
        _C[k] = [(r.uniform(0.2, 1.0) * r.choice((-1, 1)), r.uniform(0.3, 1.7), r.uniform(0, 6.28),
                  [r.uniform(0.5, 1.5) for _ in range(12)]) for _ in range(4)]
    return _C[k]


def smooth(name, seed, *args):
    """a fixed smooth pseudo-random function of one to four real arguments"""
    out = 0.0
    for a, b, c, w in coeffs(name, seed):
        s = 0.0
        for i, x in enumerate(args):
            s = s + w[i] * x
        out = out + a * np.sin(b * s + c)
    return out
