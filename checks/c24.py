"""C24: impedance recovery scores the true least-squares residual."""
import inspect
from fractions import Fraction as Fr
EXPLANATION = ('the Tucker sums, error function, source voltage, drive-level search and the whole recovery (PumpedData) executed symbolically: arbitrary response function, drive levels, junction impedances and voltages '
               'for the formulas; data generated by an embedding circuit, with symbolic amplitude, for the complete search over the real 101 x 201 impedance grid.')
BOUNDS = ('sums: 1-3 bias points, num_b 0-4 and 20, arbitrary resp and drive level; residual: 1-4 complex junction impedances, arbitrary embedding impedance; recovery: 3-4 bias points, several generating circuits, '
          'amplitude 0.2-2; drive level: true values in windows of 2e-4 width over 0-1.4, linear, quadratic and kinked pumped currents')
OUTSIDE = 'drive levels farther than alpha_max/2 from the first guess; pumped currents that are not monotonic in the drive level; embedding impedances exactly opposite to the junction impedance'
OPTS = dict(max_paths=400, samples=1, max_samples=4, nl_ms=8000, float_roots=True)
BUDGET = dict(quick=600, thorough=850)
# generating circuit, junction impedances at the bias points
CIRC = {
    'a': (Fr(30, 100) - 40j / 100, [0.6 - 0.1j, 0.7 + 0.05j, 0.9 + 0.2j, 1.1 + 0.25j]),
    'b': (Fr(75, 100) + 33j / 100, [0.5 + 0.3j, 0.8 + 0.1j, 1.0 - 0.2j, 1.3 - 0.3j]),
    'edge': (1.0 - 1j, [0.4 + 0.1j, 0.6 + 0.3j, 0.9 + 0.2j, 1.2 - 0.1j]),
    'zero': (0.0 + 0.07j, [0.4 + 0.2j, 0.5 - 0.1j, 0.8 - 0.3j, 1.0 + 0.4j]),
}


def cases(tier):
    out = []
    add = lambda name, **k: out.append((name, k))
    for nb in (0, 1, 2, 4) + ((7,) if tier == 'thorough' else ()):
        add('sums_%d' % nb, what='sums', nb=nb, n=2)
    add('sums_default', what='sums', nb=None, n=1)
    add('sums_array3', what='sums', nb=1, n=3)
    for n in (1, 2, 3, 4):
        add('residual_%d' % n, what='residual', n=n)
    for k in (0.0001, 0.31, 0.7499, 1.13, 1.4) + ((0.05, 0.11, 0.2, 0.42, 0.55, 0.66, 0.8, 0.93, 1.01, 1.2, 1.3) if tier == 'thorough' else ()):
        add('alpha_quad_%s' % k, what='alpha', k=k, shape='quad')
        add('alpha_kink_%s' % k, what='alpha', k=k, shape='kink')
    add('alpha_lin', what='alpha', k=0.6, shape='lin')
    add('alpha_down', what='alpha', k=0.6, shape='below')
    add('alpha_max', what='alpha', k=1.9, shape='quad', amax=2.5)
    for z in ('a',) + (('b', 'edge', 'zero') if tier == 'thorough' else ()):
        add('recover_' + z, what='recover', z=z)
    add('recover_ranges', what='recover', z='a', remb=(0.1, 0.6), xemb=(-0.8, 0.0))
    add('recover_forced', what='recover', z='b', forced=(0.5, 0.2))
    add('recover_fit_range', what='recover', z='b', fit=(0.1, 0.95))
    add('recover_fit_none', what='recover', z='a', fit='none')
    return out


def run(c, what, **k):
    m = c.mod('qmix.exp.exp_data')
    globals()[what](c, m, c.np, **k)


NARG = dict(_find_pumped_iv_curve=4, _find_ac_current=4, _error_function=3, _find_source_voltage=3, _find_alpha=4)


def have(m, name):
    """a helper with the expected number of required arguments (private: it may be renamed or changed)"""
    f = getattr(m, name, None)
    if f is None or name not in NARG or not inspect.isfunction(f):
        return f
    p = inspect.signature(f).parameters.values()
    return f if sum(x.default is x.empty and x.kind == x.POSITIONAL_OR_KEYWORD for x in p) == NARG[name] else None


def sums(c, m, np, nb, n):
    pump, ac = have(m, '_find_pumped_iv_curve'), have(m, '_find_ac_current')
    resp = c.resp('R')
    vb, al = c.reals('vb', n, lo=-3, hi=3), c.reals('al', n, lo=0, hi=5)
    vph = c.real('vph', lo=1e-3, hi=2)
    kw = {} if nb is None else dict(num_b=nb)
    b = 20 if nb is None else nb
    v0, a0 = c.copy(vb), c.copy(al)
    J = lambda k, a: c.bessel(k, a)
    if pump:
        got = pump(resp, vb, vph, al, **kw)
        c.check_shape('pumped current points', got, (n,))
        for i in range(n):
            c.check_eq('pumped dc current', got[i], sum(J(k, al[i]) ** 2 * resp.idc(vb[i] + k * vph) for k in range(-b, b + 1)))
        a = c.real('a', lo=0.01, hi=3)
        got = pump(resp, vb, vph, a, **kw)
        for i in range(n):
            c.check_eq('pumped dc current, one drive level', got[i], sum(J(k, a) ** 2 * resp.idc(vb[i] + k * vph) for k in range(-b, b + 1)))
    if ac:
        got = ac(resp, vb, vph, al, **kw)
        c.check_shape('ac current points', got, (n,))
        for i in range(n):
            re = sum(J(k, al[i]) * (J(k - 1, al[i]) + J(k + 1, al[i])) * resp.idc(vb[i] + k * vph) for k in range(-b, b + 1))
            im = sum(J(k, al[i]) * (J(k - 1, al[i]) - J(k + 1, al[i])) * resp.ikk(vb[i] + k * vph) for k in range(-b, b + 1))
            c.check_eq('ac current', got[i], re + 1j * im)
    c.check_eq('bias points unchanged', vb, v0)
    c.check_eq('drive levels unchanged', al, a0)


def residual(c, m, np, n):
    err, src = have(m, '_error_function'), have(m, '_find_source_voltage')
    v = c.reals('v', n, lo=1e-6, hi=3)
    z = np.array([c.real('r%d' % i, lo=1e-3, hi=9) + 1j * c.real('x%d' % i, lo=-9, hi=9) for i in range(n)])
    Z = c.real('R', lo=0, hi=9) + 1j * c.real('X', lo=-9, hi=9)
    v0, z0 = c.copy(v), c.copy(z)
    t = [abs(z[i] / (Z + z[i])) for i in range(n)]
    tt, vt, vv = sum(a * a for a in t), sum(a * b for a, b in zip(v, t)), sum(a * a for a in v)
    if src:
        s = src(v, z, Z)
        c.check_eq('source voltage is the least-squares one', s * tt, vt)
    if err:
        e = err(v, z, Z)
        # the least-squares residual: sum (v - w t)^2 at w = sum v t / sum t^2
        c.check_eq('error is the mean squared residual', e * n, vv - vt * vt / tt)
    c.check_eq('voltages unchanged', v, v0)
    c.check_eq('impedances unchanged', z, z0)


class O(object):
    pass


def alpha(c, m, np, k, shape, amax=1.5):
    find = have(m, '_find_alpha')
    if not find or not have(m, '_find_pumped_iv_curve'):
        return
    n = 2 if shape in ('lin', 'below') else 1
    a = [c.real('a%d' % i, lo=k + 0.1 * i, hi=k + 0.1 * i + 2e-4) for i in range(n)]
    v = np.array([c.k(Fr(80 + 5 * i, 100)) for i in range(n)])
    d = c.copy(v) * Fr(1, 20) if c.symbolic else v * 0.05
    vph = c.real('vph', lo=0.1, hi=0.5)

    def f(x):
        if shape == 'quad':
            return x * (Fr(2) if c.symbolic else 2.) + x * x * (Fr(7, 10) if c.symbolic else .7)
        if shape == 'kink':
            return c.ite(x < Fr(8, 10), x, Fr(8, 10) + (x - Fr(8, 10)) * Fr(3, 2)) if c.symbolic else (x if x < 0.8 else 0.8 + (x - 0.8) * 1.5)
        return x * 1
    args = []

    def pumped(resp, vb, vp, al, **kw):
        args.append((resp, vp, kw))
        al = al if isinstance(al, np.ndarray) else [al] * len(vb)
        return np.array([d[i] + f(al[i]) for i in range(len(vb))])
    c.patch(m, '_find_pumped_iv_curve', pumped)
    dc = O()
    dc.resp = O()
    dc.resp.idc = lambda x: d.copy()
    i = np.array([d[j] + (f(a[j]) if shape != 'below' else -a[j]) for j in range(n)])
    i0, v0 = c.copy(i), c.copy(v)
    kw = {} if amax == 1.5 else dict(alpha_max=amax)
    got = find(dc, v, i, vph, num_b=7, **kw)
    c.check('response and photon step are used', all(x[0] is dc.resp for x in args) and len(args) > 0)
    for x in args:
        c.check_eq('photon voltage', x[1], vph, observe=False)
        c.check('num_b', x[2].get('num_b') == 7)
    for j in range(n):
        if shape == 'below':
            c.check('drive level is not negative', got[j] >= 0)
            c.check('no drive level below the dc curve', got[j] <= 2e-3)
        else:
            e = got[j] - a[j]
            c.check('drive level found', c.and_(e <= 2e-4, e >= -2e-4))
    c.check_eq('current unchanged', i, i0)
    c.check_eq('voltage unchanged', v, v0)


def recover(c, m, np, z, remb=(0, 1), xemb=(-1, 1), forced=None, fit=None):
    Z, zj = CIRC[z]
    Z = complex(Z)
    vph = 0.3
    low, high = (0.25, 0.8) if fit in (None, 'none') else fit
    grid = [0.01 + 0.05 * i for i in range(25)]
    inside = [i for i, a in enumerate(grid) if 1 - vph + vph * low <= a <= 1 - vph * (1 - high)]
    zs = [zj[i % 4] * (1 + 0.01 * (i // 4)) for i in range(len(inside))]
    k = c.real('k', lo=0.2, hi=2)
    al = [k * (abs((Z + w) / w) ** -1) for w in zs]
    dc = O()
    dc.dc = O()
    dc.dc.vgap, dc.dc.igap, dc.dc.fgap = 2.8e-3, 2e-4, 7e11
    dc.rn, dc.offset, dc.vint, dc.dcif = 14., (0., 0.), 1e-4, None
    dc.vgap, dc.igap, dc.fgap = 2.8e-3, 2e-4, 7e11
    dc.voltage, dc.current = np.array(grid), np.array(grid)
    dc.resp = O()
    cur = np.array([c.real('i%d' % i, lo=0.1, hi=1) for i in range(25)])
    if not all(have(m, x) for x in ('_find_alpha', '_find_ac_current', 'iv_curve', 'slope_span_n')):
        return
    seen = []

    def find_alpha(d, v, i, vp, **kw):
        seen.append(('alpha', d, v, i, vp, kw))
        return np.array(al)

    def ac(resp, v, vp, a, **kw):
        seen.append(('ac', resp, v, vp, a, kw))
        return np.array([x * vp / w for x, w in zip(al, zs)])
    c.patch(m, 'iv_curve', lambda *a, **kw: (np.array(grid), cur))
    c.patch(m, 'slope_span_n', lambda x, *a, **kw: x * 0)
    c.patch(m, '_find_alpha', find_alpha)
    c.patch(m, '_find_ac_current', ac)
    kw = dict(freq=210., analyze_if=False, verbose=False, num_b=9, alpha_max=1.7)
    if forced is not None:
        kw['zemb'] = forced = complex(*forced)
    if remb != (0, 1):
        kw.update(remb_range=remb, xemb_range=xemb)
    if fit is not None:
        kw['fit_range'] = None if fit == 'none' else fit
    p = m.PumpedData(np.zeros((3, 2)), dc, **kw)
    A = [s for s in seen if s[0] == 'alpha']
    B = [s for s in seen if s[0] == 'ac']
    c.check('one drive-level search', len(A) == 1 and len(B) == 1)
    c.check_shape('points on the photon step', A[0][2], (len(inside),))
    c.check_eq('bias points used', A[0][2], np.array([grid[i] for i in inside]))
    c.check_eq('currents used', A[0][3], np.array([cur[i] for i in inside]))
    c.check_eq('photon voltage used', A[0][4], c.k(Fr(3, 10)))
    c.check('dc data used', A[0][1] is dc and B[0][1] is dc.resp)
    c.check('search options', A[0][5].get('num_b') == 9 and A[0][5].get('alpha_max') == 1.7 and B[0][5].get('num_b') == 9)
    c.check_eq('bias points of the ac current', B[0][2], np.array([grid[i] for i in inside]))
    c.check_eq('photon voltage of the ac current', B[0][3], c.k(Fr(3, 10)))
    c.check_eq('drive level of the ac current', B[0][4], np.array(al))
    mid = min(range(len(inside)), key=lambda i: abs(grid[inside[i]] - (1 - vph / 2)))
    c.check_eq('junction impedance in the middle of the step', p.zw, c.k(1) * zs[mid])
    c.check_eq('drive level in the middle of the step', p.alpha, al[mid])
    want = Z if forced is None else forced
    c.check_eq('embedding impedance', p.zt, c.k(1) * want)
    v = [x * vph for x in al]
    t = [abs(w / (want + w)) for w in zs]
    c.check_eq('embedding voltage', p.vt, sum(a * b for a, b in zip(v, t)) / sum(a * a for a in t))
    if forced is None:
        c.check('perfect data are a good fit', p.fit_good)
    c.check_shape('error surface', p.err_surf, (101, 201))
    for i, j in ((0, 0), (100, 200), (37, 11), (64, 150)):
        zz = remb[0] + (remb[1] - remb[0]) * i / 100. + 1j * (xemb[0] + (xemb[1] - xemb[0]) * j / 200.)
        t = [abs(w / (zz + w)) for w in zs]
        tt, vt, vv = sum(a * a for a in t), sum(a * b for a, b in zip(v, t)), sum(a * a for a in v)
        c.check_eq('error surface value', p.err_surf[i, j] * 1000, (vv - vt * vt / tt) / len(v) * 1000)
