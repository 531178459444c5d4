"""C12: response-function views agree and keep I-V/KK symmetry."""
from checks.respcommon import small_grid, some_points, all_points, check_views, check_table
EXPLANATION = ('RespFn and its model subclasses constructed symbolically (spline = opaque function through its knots, Hilbert transform = its matrix); '
               'views and tables compared as identities.')
BOUNDS = ('supplied tables of 8-26 points with every current symbolic; built-in models on grids of 36-201 points; every query voltage symbolic (scalar and array); '
          'symbolic model parameters; spline orders 1-3; smear off/on; kk_n 1-50')
OUTSIDE = ('the interpolation-point selection of the 7001-point grid is replaced by a fixed subset where currents are symbolic (run as is for scaled curves); '
           'FITPACK itself (contract: interpolates its knots, derivative() is its derivative)')
OPTS = dict(max_paths=600, huge=4)
BUDGET = dict(quick=100, thorough=500)


def cases(tier):
    out = []
    for n, kw in ((8, {}), (12, dict(spline_order=1)), (15, dict(kk_n=3)), (15, dict(v_smear=1.0, kk_n=2)), (26, dict(v_smear=0.5, spline_order=2)),
                  (12, dict(check_error=True, max_interp_error=0.05, kk_n=1))):
        tag = '_'.join('%s%s' % (k[:4], v) for k, v in kw.items())
        out.append(('table_%d_%s' % (n, tag), dict(what='table', n=n, kw=kw)))
    out.append(('scaled', dict(what='scaled', n=201, kw={})))
    out.append(('refused', dict(what='refused', n=8, kw={})))
    for kw in ({}, dict(v_smear=1.0, kk_n=4)):
        t = '_smear' if kw else ''
        for cl in ('poly', 'polydef', 'exp', 'expdef', 'perfect') if not kw else ('poly', 'polydef', 'perfect') + (('expdef',) if tier == 'thorough' else ()):
            out.append((cl + t, dict(what=cl, n=36, kw=kw)))
    out.append(('perfect_full', dict(what='perfect_full', n=7001, kw={})))
    return out


def run(c, what, n, kw):
    np = c.np
    m = c.mod('qmix.respfn')
    iv = c.mod('qmix.mathfn.ivcurve_models')
    g = c.mod('qmix.mathfn.filters').gauss_conv
    kw = dict(kw, verbose=False)
    sm = kw.get('v_smear')
    lim = 9 if what == 'scaled' or sm else 5
    q = c.reals('q', 2, lo=-lim, hi=lim)
    if what == 'refused':
        i = c.reals('i', n, lo=-10, hi=10)
        s = c.real('s', lo=0.01, hi=3)
        hi = c.real('hi', lo=1, hi=5)
        small_grid(c, m, 36, keep=some_points)
        bad = np.array([s + k for k in range(n)])
        c.check_raises('table not starting at zero', lambda: m.RespFn(bad, i, **kw))
        short = np.array([hi * k / (n - 1) for k in range(n)])
        c.check_raises('table ending below 5', lambda: m.RespFn(short, i, **kw))
        return
    if what == 'table':
        top = c.real('top', lo=6, hi=40)
        if sm:
            top = c.k(10)
        small_grid(c, m, 36, keep=some_points)
        v = np.array([top * k / (n - 1) for k in range(n)])
        i = c.reals('i', n, lo=-10, hi=10)
        i[0] = 0
        bv, bi = c.copy(v), c.copy(i)
        if kw.get('check_error'):
            ok = True
            try:
                r = m.RespFn(v, i, **kw)
            except AssertionError:
                return
            e = r.current - r.idc(r.voltage)
            ek = r.current_kk - r.ikk(r.voltage)
            for k in range(2 * n - 1):
                if c.truth(c.and_(r.voltage[k] > -33.5, r.voltage[k] < 33.5)):
                    c.check('accepted curve follows the table', c.and_(c.le(abs(e[k]), 0.05, 10), c.le(abs(ek[k]), 0.05, 10)))
            return
        r = m.RespFn(v, i, **kw)
        full = np.r_[-i[::-1][:-1], i]
        vf = np.r_[-v[::-1][:-1], v]
        c.check_eq('grid', r.voltage, vf)
        if sm:
            full = g(full - vf, sm / (vf[1] - vf[0])) + vf
        c.check_eq('table', r.current, full)
        check_table(c, r, kw.get('kk_n', 50))
        check_views(c, r, q)
        check_views(c, r, q[0])
        c.check_eq('voltage unchanged', v, bv)
        c.check_eq('current unchanged', i, bi)
        return
    if what == 'scaled':
        # one-parameter family of curves: every decision of the sampling routine is scale-free
        a = c.real('a', lo=0.2, hi=5)
        small_grid(c, m, n, 10)
        v = c.array([c.k(k) / 20 for k in range(n)])
        shape = 2 * [0.0] + [0.001 * k for k in range(1, 10)] + [0.01, 0.02, 0.03, 0.05, 0.07, 0.11, 0.2, 0.45, 0.8] + [1 + 0.05 * k for k in range(1, n - 19)]
        i = a * c.array([c.k(x) for x in shape])
        r = m.RespFn(v, i, **kw)
        if not sm:
            c.check_eq('table', r.current[n - 1:], i)
        check_table(c, r, kw.get('kk_n', 50), near=True)
        for j in (n - 1, n + 19, n + 20, n - 21):
            c.check_eq('through points near zero and the gap', r.idc(r.voltage[j]), r.current[j], atol=1e-7)
            c.check_eq('through points near zero and the gap (kk)', r.ikk(r.voltage[j]), r.current_kk[j], atol=1e-7)
        check_views(c, r, q)
        return
    if what == 'perfect_full':
        r = m.RespFnPerfect(verbose=False)
        v = r.voltage
        c.check_shape('full grid', v, (14001,))
        for j in list(range(0, 14001, 700)) + list(range(6780, 7220, 20)):
            c.check_eq('perfect table', r.current[j], iv.perfect(float(v[j]) if not c.symbolic else v[j]))
            c.check_eq('perfect kk table', r.current_kk[j], iv.perfect_kk(float(v[j]) if not c.symbolic else v[j]))
        return
    small_grid(c, m, n, keep=some_points)
    V = c.array([c.k(k - n + 1) for k in range(2 * n - 1)])
    if what == 'perfect':
        r = m.RespFnPerfect(**kw)
        if not sm:
            c.check_eq('grid', r.voltage, V)
            c.check_eq('table', r.current, iv.perfect(V))
            c.check_eq('kk table', r.current_kk, iv.perfect_kk(V))
            c.check_eq('voltage_kk', r.voltage_kk, V)
            x = q[0]
            c.check_eq('idc is the model', r.idc(x), iv.perfect(x))
            c.check_eq('ikk is the model', r.ikk(x), iv.perfect_kk(x))
            check_views(c, r, x, deriv=False)
            check_views(c, r, q[1:], deriv=False)
            return
        base = iv.perfect(V)
    elif what in ('poly', 'polydef'):
        order = 3 if what == 'poly' else 50
        r = m.RespFnPolynomial(order, **kw) if what == 'poly' else m.RespFnPolynomial(**kw)
        base = iv.polynomial(V, order)
    else:
        if what == 'exp':
            p = [c.real('vgap', lo=1e-3, hi=4e-3), c.real('rn', lo=5, hi=50), c.real('rsg', lo=100, hi=1000), c.real('agap', lo=1e3, hi=6e4)]
            r = m.RespFnExponential(*p, **kw)
        else:
            p = [2.8e-3, 14, 1000, 4e4]
            r = m.RespFnExponential(**kw)
        base = iv.exponential(V, *p)
    c.check_eq('grid', r.voltage, V)
    if sm:
        base = g(base - V, sm) + V
    c.check_eq('table', r.current, base, atol=1e-8)
    check_table(c, r, kw.get('kk_n', 50))
    check_views(c, r, q)
