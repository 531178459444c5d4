"""C20: noise temperature and gain are the Y-factor values of the data."""
from fractions import Fraction as Fr
from checks.ifcommon import DCx, sweep, axis, grid, resampled
from checks.expcommon import fit_line, keep, unchanged
EXPLANATION = ('if_data executed symbolically on hot and cold IF sweeps with symbolic powers, load temperatures, frequency and calibration; gain, noise temperature and equivalent load temperatures compared '
               'with the Y-factor formulas at every bias point.')
BOUNDS = ('5-8 samples, 7-13 bias points, arbitrary powers in [0.2, 12] (hot above, below or equal to cold at any point), calibration given or from the shot noise, loads 0.1-2000 K at least 0.5 K apart, 1-9000 GHz (50-2000 GHz where hot may be below cold)')
OUTSIDE = 'tanh is an uninterpreted function between 0 and 1; hot/cold ratios within 1e-9 of the clamp'
OPTS = dict(max_paths=400, samples=1, max_samples=4, nl_ms=8000)
BUDGET = dict(quick=250, thorough=850)
POS = [-0.5, 0.7, 1.8, 2.9, 4.1]
WIDE = [-0.5, 1.55, 3.1, 4.6, 5.3, 6.6, 7.4, 8.2]


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, dict(dict(what='given', npts=5, vmax=4e-3, freq='sym', temps='sym', hot='above', order='up', v_fmt='mV'), **k)))
    add('given')
    add('clamp', hot='any', npts=5)
    add('clamp_zero', hot='any', npts=4, vmax=6e-3)
    add('order', order='down', v_fmt='uV')
    add('order2', order='mixed', v_fmt='V')
    add('beyond', vmax=6e-3, npts=7)
    add('default_loads', temps='default', freq='num')
    add('default_load_hot', temps='hot')
    add('default_load_cold', temps='cold')
    add('self', what='self', npts=17, vmax=8e-3)
    add('scale', what='scale', npts=17, vmax=8e-3)
    add('same_loads', what='mono')
    add('mismatch', what='mismatch')
    add('smooth', what='smooth', npts=9)
    add('many', npts=13)
    if tier == 'thorough':
        add('clamp7', hot='any', npts=7)
        add('many41', npts=41)
    return out


def temp(c, f, t):
    """Callen-Welton: (hf/2k) coth(hf/2kT), f in GHz"""
    h, k = c.k(Fr('6.62607015e-34')) * c.k(10 ** 9), c.k(Fr('1.380649e-23'))
    a = h * f / (2 * k)
    return a / c.np.tanh(a / t)


def run(c, what, npts, vmax, freq, temps, hot, order, v_fmt):
    np = c.np
    m = c.mod('qmix.exp.if_data')
    par = c.mod('qmix.exp.parameters').params
    dc = DCx(c, fixed=True)
    P0 = WIDE if what in ('self', 'scale') else POS
    f = (c.real('f', lo=50, hi=2000) if hot == 'any' else c.real('f', lo=1, hi=9000)) if freq == 'sym' else 230
    kw = dict(freq=f, vmax=vmax, ifdata_npts=npts, ifdata_sigma=None, v_fmt=v_fmt, verbose=False)
    th, tc = c.k(par['t_hot']), c.k(par['t_cold'])
    if temps in ('sym', 'cold'):
        tc = kw['t_cold'] = c.real('tc', lo=2 if hot == 'any' else 0.1, hi=120 if hot == 'any' else 200)
    if temps in ('sym', 'hot'):
        th = kw['t_hot'] = c.real('th', lo=200.5, hi=500 if hot == 'any' else 2000)
    W = temp(c, f, th), temp(c, f, tc)
    c.assume(W[0] - W[1] >= 1)
    if hot == 'above':
        C = [c.real('c%d' % k, lo=0.2, hi=3) for k in range(len(P0))]
        H = [a + c.real('d%d' % k, lo=0.05, hi=3) for k, a in enumerate(C)]
        if what in ('self', 'scale'):
            C = [a + max(x, 0) for a, x in zip(C, P0)]
            H = [a + c.real('d%d' % k, lo=0.05, hi=1) + max(x, 0) / 4 for k, (a, x) in enumerate(zip(C, P0))]
    else:
        C = [c.real('c%d' % k, lo=0.2, hi=12) for k in range(len(P0))]
        H = [c.real('h%d' % k, lo=0.2, hi=12) for k in range(len(P0))]
    t_h, t_c = sweep(c, P0, H, v_fmt, order), sweep(c, P0, C, v_fmt)
    k_h, k_c = keep(c, t_h), keep(c, t_c)
    if what == 'mismatch':
        # different sweeps of the same junction are compared on the same bias axis
        P1 = [-0.2, 0.9, 2.1, 4.5]
        t_c = sweep(c, P1, C[:4], v_fmt)
    g = grid(c, vmax, npts)
    V = axis(c, P0, 1, dc, None)
    if what in ('self', 'scale'):
        kw['vshot'] = ((3e-3, 4.7e-3), (5e-3, 7.2e-3))
    else:
        corr = c.real('corr', lo=0.3, hi=3)
        kw['dcif'] = m.DCIFData(if_noise=c.k(10), corr=corr, if_fit=True, shot_slope=None, vmax=vmax)
    if what == 'smooth':
        kw['ifdata_sigma'] = 6e-4
    kw['vbest'] = 2e-3
    opts = dict(kw)
    x, idx, d = m.if_data(t_h, t_c, dc, **kw)
    c.check('options unchanged', sorted(opts) == sorted(kw))
    c.check_shape('result', x, (npts, 5))
    ph, pc = resampled(c, V, H, g), resampled(c, axis(c, P1, 1, dc, None) if what == 'mismatch' else V, C[:4] if what == 'mismatch' else C, g)
    if what == 'smooth':
        fl = c.mod('qmix.mathfn.filters')
        s = 6e-4 / (vmax / (npts - 1))
        ph, pc = fl.gauss_conv(ph, s), fl.gauss_conv(pc, s)
    if what in ('self', 'scale'):
        n = [k for k in range(npts) if 3e-3 < float(g[k]) < 4.7e-3 or 5e-3 < float(g[k]) < 7.2e-3]
        s, _ = fit_line(c, [g[k] for k in n], [(ph[k] + pc[k]) / 2 for k in n], -1, 1)
        c.assume(s >= 50)
        corr = c.k(5800) / s
    c.check_eq('bias axis', x[:, 0] * dc.vgap * 1e3, np.array(g) * 1e3)
    c.check_eq('hot power', x[:, 1], ph * corr)
    c.check_eq('cold power', x[:, 2], pc * corr)
    if what == 'scale':
        q = c.real('q', lo=0.2, hi=5)
        y, i2, d2 = m.if_data(sweep(c, P0, [a * q for a in H], v_fmt, order), sweep(c, P0, [a * q for a in C], v_fmt), dc, **kw)
        c.check_eq('rescaled powers: same gain', y[:, 4], x[:, 4])
        return
    for k in range(npts):
        inside = c.truth(c.and_(V[0] < g[k], g[k] < V[-1]))
        if not inside:
            c.check_eq('no gain outside the data', x[k, 4], c.k(0))
            continue
        c.check_eq('gain', x[k, 4] * (W[0] - W[1]), (ph[k] - pc[k]) * corr)
        if hot == 'above':
            if what == 'mismatch':
                c.assume(ph[k] > pc[k] * (1 + 1e-6))
            c.check_eq('noise temperature', x[k, 3] * (ph[k] - pc[k]), W[0] * pc[k] - W[1] * ph[k])
        else:
            c.assume(c.or_(ph[k] >= pc[k] * (1 + 1e-8), ph[k] <= pc[k]))
            if c.truth(ph[k] > pc[k]):
                c.check_eq('noise temperature', x[k, 3] * (ph[k] - pc[k]), W[0] * pc[k] - W[1] * ph[k])
            else:
                y = c.k(Fr(10 ** 10 + 1, 10 ** 10))
                c.check_eq('clamped noise temperature', x[k, 3] / 10 ** 10, W[0] - W[1] * y, tol=1e-4)
    if what == 'mono':
        # only the equivalent load temperatures matter: the pair (th, tc) enters through W alone
        kw2 = dict(kw, freq=c.real('f2', lo=50, hi=2000), t_hot=c.real('th2', lo=200, hi=500), t_cold=c.real('tc2', lo=2, hi=120))
        y, _, _ = m.if_data(t_h, t_c, dc, **kw2)
        W2 = temp(c, kw2['freq'], kw2['t_hot']), temp(c, kw2['freq'], kw2['t_cold'])
        c.assume(W2[0] - W2[1] >= 1)
        for k in range(npts):
            c.check_eq('gain with other loads', y[k, 4] * (W2[0] - W2[1]), x[k, 4] * (W[0] - W[1]))
    unchanged(c, t_h, k_h)
    if what != 'mismatch':
        unchanged(c, t_c, k_c)
