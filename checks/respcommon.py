"""Shared helpers for the response-function harnesses."""
from fractions import Fraction


def small_grid(c, m, npts=36, vmax=35, keep=None, scaled=False):
    """replace the module's 7001-point grid by a coarse one and the choice of interpolation points by a fixed subset"""
    np = c.np
    step = Fraction(vmax, npts - 1)
    v = c.array([c.k(step * j) if c.symbolic else float(step * j) for j in range(npts)])
    c.patch_if(m, 'VINIT', v)
    c.patch_if(m, 'VSTEP', c.k(step) if c.symbolic else float(step))
    c.patch_if(m, 'VNPTS', npts)
    c.patch_if(m, 'VRANGE', vmax)
    if keep:
        c.patch_if(m, '_sample_curve', lambda voltage, current, *a, **k: keep(voltage))
    return v


def all_points(v):
    return list(range(len(v)))


def some_points(v):
    n = len(v)
    h = n // 2
    return sorted(set([0, 1, 2, n - 3, n - 2, n - 1, h - 1, h, h + 1] + list(range(0, n, 3))))


def check_views(c, r, q, deriv=True, tol=1e-4):
    np = c.np
    i, k = r.idc(q), r.ikk(q)
    c.check_eq('resp', r.resp(q), k + 1j * i)
    c.check_eq('calling the object', r(q), k + 1j * i)
    c.check_eq('resp_conj', r.resp_conj(q), k - 1j * i)
    c.check_eq('resp_swap', r.resp_swap(q), i + 1j * k)
    if deriv:
        c.check_eq('didc', r.didc(q), c.deriv(r.idc, q), atol=tol)
        c.check_eq('dikk', r.dikk(q), c.deriv(r.ikk, q), atol=tol)


def check_table(c, r, kk_n, near=True):
    """oddness, KK transform on the same grid, interpolation through points that are always sampled"""
    np = c.np
    kkt = c.mod('qmix.mathfn.kktrans').kk_trans
    v, i = r.voltage, r.current
    c.check_eq('voltage grid is symmetric', v, -v[::-1])
    c.check_eq('current is odd', i, -i[::-1])
    c.check_shape('same length', i, np.shape(v))
    c.check_eq('voltage_kk', r.voltage_kk, v)
    c.check_eq('current_kk', r.current_kk, kkt(v, i, kk_n), atol=1e-7)
    if near:
        n = len(v)
        for j in [0, 1, 2, n // 2, n - 3, n - 2, n - 1]:
            c.check_eq('idc through the table', r.idc(v[j]), i[j], atol=1e-7)
            c.check_eq('ikk through the table', r.ikk(v[j]), r.current_kk[j], atol=1e-7)
