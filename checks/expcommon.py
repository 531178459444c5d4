"""Shared helpers for the experimental-data harnesses."""
from fractions import Fraction as Fr
VU = dict(uV=Fr(1, 10 ** 6), mV=Fr(1, 1000), V=Fr(1))
ZERO = 3     # index of the sample at zero bias
IU = dict(uA=Fr(1, 10 ** 6), mA=Fr(1, 1000), A=Fr(1))


class DC(object):
    """stand-in for the dc metadata (arbitrary gap values and offsets)"""

    def __init__(self, c, vint=False):
        self.offset = (c.real('dc.vo', lo=-2e-5, hi=2e-5), c.real('dc.io', lo=-1e-5, hi=1e-5))
        self.vgap = c.real('dc.vgap', lo=2.6e-3, hi=2.9e-3)
        self.igap = c.real('dc.igap', lo=1e-4, hi=3e-4)
        self.rn = self.vgap / self.igap
        if vint:
            self.vint = c.real('dc.vint', lo=1e-4, hi=5e-4)


def rows(c, v, i, order, nan, dup):
    """table in the requested measuring order; returns it with the samples that count, in ascending order"""
    np = c.np
    n = len(v)
    r = [(a, b) for a, b in zip(v, i)]
    if order == 'down':
        r = r[::-1]
    elif order in ('updown', 'downup'):
        # starts at zero, sweeps to one end, back through zero to the other end, and back: the outward samples count
        # (on the way back the currents differ: hysteresis)
        z = ZERO
        up, dn = r[z:], r[:z + 1][::-1]
        upback = [(a, b + 3) for a, b in r[z + 1:-1][::-1]]
        dnback = [(a, b - 3) for a, b in r[1:z]]
        r = up + upback + dn + dnback if order == 'updown' else dn + dnback + up + upback
    out = []
    for k, (a, b) in enumerate(r):
        out.append([a, b])
        if k in dup:
            out.append([a, b])
    for k, w in nan:
        out.insert(k, [c.nan if 'v' in w else c.k(1), c.nan if 'i' in w else c.k(1)])
    return np.array(out), list(v), list(i)


def fit_line(c, x, y, lo, hi):
    """least-squares line through the samples strictly inside (lo, hi), from the normal equations"""
    pts = [(a, b) for a, b in zip(x, y) if c.truth(c.and_(lo < a, a < hi))]
    n = len(pts)
    sx = sum(a for a, _ in pts)
    sy = sum(b for _, b in pts)
    sxx = sum(a * a for a, _ in pts)
    sxy = sum(a * b for a, b in pts)
    d = sxx * n - sx * sx
    s = (sxy * n - sx * sy) / d
    return s, (sy - s * sx) / n


def keep(c, t):
    return c.copy(t)


def unchanged(c, t, t0):
    """the caller's table still has the same entries (NaN in the same places)"""
    a, b = t.tolist(), t0.tolist()
    for p, q in zip(a, b):
        for x, y in zip(p, q):
            if isinstance(y, float) and y != y:
                c.check('data unchanged', isinstance(x, float) and x != x)
            else:
                c.check_eq('data unchanged', x, y, observe=False)
