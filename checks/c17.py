"""C17: numerical slopes are exact secants on any grid."""
EXPLANATION = 'slope and slope_span_n executed symbolically on symbolic strictly increasing grids; each output compared with its secant.'
BOUNDS = 'slope: 2-12 samples; slope_span_n: spans 3, 5, 7, 11, 21 with up to 40 samples; every x and y symbolic; range claim on symbolic uniform grids'
OUTSIDE = 'arrays shorter than 3/2 of the span; floating-point rounding'
OPTS = dict(max_paths=4000)


def cases(tier):
    out = [('slope_%d' % n, dict(what='slope', n=n)) for n in (2, 3, 4, 7, 12)]
    for w, ns in ((3, (5, 6, 9)), (5, (8, 9, 12)), (7, (11, 14)), (11, (17, 20)), (21, (32, 40))):
        for n in ns:
            out.append(('span%d_%d' % (w, n), dict(what='span', n=n, w=w)))
    out += [('nozeros_%d' % w, dict(what='zeros', n=n, w=w)) for w, n in ((3, 5), (5, 8))]
    out.append(('rejected', dict(what='rejected', n=14)))
    return out


def window(k, N, w):
    """samples whose secant is the result at sample k"""
    h = (w - 1) // 2
    if h + 1 <= k <= N - h - 1:
        return k - h - 1, k + h
    if k == 0:
        return window(1, N, w)
    if k == N - 1:
        return window(N - 2, N, w) if N - 2 > h else (N - 4, N - 1)
    if k <= h:
        return k, 3 * k + 1
    m = N - k
    return N - 3 * m - 1, N - m


def run(c, what, n, w=None):
    np = c.np
    m = c.mod('qmix.mathfn.misc')
    if what == 'rejected':
        x, y = c.reals('x', n, lo=-1e3, hi=1e3), c.reals('y', n, lo=-1e3, hi=1e3)
        for k in (2, 4, 6, 10):
            c.check_raises('even span', lambda: m.slope_span_n(x, y, k))
        c.check_raises('even span', lambda: m.slope_span_n(x, y, n=4, nozeros=False))
        return
    x0 = c.real('x0', lo=-10, hi=10)
    dx = c.reals('dx', n - 1, lo=1e-3, hi=5)
    x = [x0]
    for d in dx:
        x.append(x[-1] + d)
    x = np.array(x)
    y = c.reals('y', n, lo=-1e3, hi=1e3)
    if what == 'zeros':
        # quantised currents so that flat windows are reachable
        y = np.array([c.k(0)] + [v * c.choice('step%d' % j, 2) for j, v in enumerate(y[1:4])] + [y[j] for j in range(4, n)])
        a, b = m.slope_span_n(x, y, w), m.slope_span_n(x, y, w, False)
        for p, q in zip(a, b):
            c.check('never zero', c.not_(p == 0) if c.symbolic else bool(p != 0))
            if c.truth(q == 0):
                c.check('tiny instead of zero', c.and_(c.le(abs(p), 1e-6), c.not_(p == 0)))
            else:
                c.check_eq('other values unchanged', p, q)
        return
    bx, by = c.copy(x), c.copy(y)
    if what == 'slope':
        f = m.slope
        win = [(max(k - 1, 0), min(k + 1, n - 1)) for k in range(n)]
        fl = f
    else:
        f = lambda a, b: m.slope_span_n(a, b, n=w, nozeros=False)
        win = [window(k, n, w) for k in range(n)]
    out = f(x, y)
    c.check_shape('one value per sample', out, (n,))
    c.check_eq('secant', out, np.array([(y[b] - y[a]) / (x[b] - x[a]) for a, b in win]))
    s, t = c.real('s', lo=-5, hi=5), c.real('t', lo=-5, hi=5)
    c.check_eq('exact on straight lines', f(x, s * x + t), s * np.ones(n))
    c.check_eq('flat data', f(x, t * np.ones(n)), np.zeros(n))
    g = c.real('g', lo=1e-2, hi=3)
    u = np.array([x0 + g * k for k in range(n)])
    lo, hi = c.real('lo', lo=-100, hi=100), c.real('hi', lo=-100, hi=100)
    r = c.reals('r', n - 1, lo=-100, hi=100)              # secants of the data
    z = [c.real('z0', lo=-5, hi=5)]
    for k in range(n - 1):
        z.append(z[-1] + r[k] * g)
    o2 = f(u, np.array(z))
    c.check_eq('x unchanged', x, bx)
    c.check_eq('y unchanged', y, by)
    if what == 'span':
        nz = m.slope_span_n(x, s * x + t, w)
        if not c.truth(s == 0):
            c.check_eq('nozeros keeps slopes', nz, s * np.ones(n))
        if w == 11:
            c.check_eq('default span', m.slope_span_n(x, s * x + t), nz)
    c.assume(r >= lo)
    c.assume(r <= hi)
    for v in o2:
        c.check('between the smallest and largest secant', c.and_(c.le(lo, v, 100), c.le(v, hi, 100)))
