"""Shared helpers for the IF-power harnesses (C20-C22)."""
from fractions import Fraction as Fr
from checks.expcommon import VU


class DCx(object):
    """stand-in for the dc metadata: arbitrary gap, offset, intercept; optional raw dc curve for the series resistance"""

    def __init__(self, c, rs=False, fixed=False):
        self.vgap = c.k(Fr('2.8e-3')) if fixed else c.real('vgap', lo=2.7e-3, hi=2.9e-3)
        self.offset = (c.k(Fr('1.5e-5')), c.k(Fr('2e-6'))) if fixed else (c.real('vo', lo=-2e-5, hi=2e-5), c.real('io', lo=-1e-5, hi=1e-5))
        self.vint = c.real('vint', lo=1e-4, hi=5e-4)
        if rs:
            self.vraw = c.np.array([c.k(Fr(k, 1000)) for k in (-3, 0, 2, 3, 9)])
            self.iraw = c.np.array([c.real('dci%d' % k, lo=a, hi=b) for k, (a, b) in enumerate(((-2e-4, -1e-4), (-1e-6, 1e-6), (2e-5, 5e-5), (2e-4, 2.4e-4), (6e-4, 7e-4)))])


def sweep(c, pos, p, v_fmt, order='up', nan=(), dup=()):
    """measured table of the samples (pos in mV), in the given order"""
    u = c.k(Fr(1, 1000) / VU[v_fmt or 'mV'])
    r = [[(c.k(a) if isinstance(a, (int, float)) else a) * u, b] for a, b in zip(pos, p)]
    if order == 'down':
        r = r[::-1]
    elif order == 'mixed':
        r = r[1::2] + r[0::2]
    for k in sorted(dup, reverse=True):
        r.insert(k, list(r[k]))
    for k in nan:
        r.insert(k, [c.nan if k % 2 else c.k(1), c.k(3) if k % 3 == 1 else c.nan])
    return c.np.array(r)


def axis(c, pos, vm, dc, rs):
    """true junction voltages of the samples, V"""
    V = [(c.k(a) if isinstance(a, (int, float)) else a) * c.k(Fr(1, 1000)) * vm - dc.offset[0] for a in pos]
    if rs is not None:
        V = [v - c.np.interp(v, dc.vraw, dc.iraw) * rs for v in V]
    return V


def grid(c, vmax, npts):
    return [c.k(vmax) * k / (npts - 1) for k in range(npts)]


def resampled(c, V, P, g):
    return c.np.interp(c.np.array(g), c.np.array(V), c.np.array(P), left=0, right=0)
