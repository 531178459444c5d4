"""C22: IF noise is calibrated from the shot-noise line."""
from fractions import Fraction as Fr
from checks.ifcommon import DCx, sweep, axis, grid, resampled
from checks.expcommon import fit_line, keep, unchanged
EXPLANATION = ('dcif_data and if_data executed symbolically on measured IF sweeps with symbolic powers, gap voltage, offset, multiplier, series resistance and dc curve; the calibrated power, bias axis, '
               'correction factor, shot-noise line, IF noise and fit flag compared with independent formulas.')
BOUNDS = ('8-12 samples at fixed voltages with arbitrary powers in a band, resampled on 13-17 points; all voltage units, orders, NaN and repeated rows, one to three shot-noise ranges (tuples and lists) and the fall-back '
          'range above twice the gap; gap 2.7-2.9 mV, offset up to 0.02 mV, multiplier 0.99-1.01, series resistance 0-1 ohm')
OUTSIDE = 'the automatic shot-noise range beyond one curve shape of symbolic scale, shot-noise lines of slope close to zero, Gaussian smoothing other than the stated windows'
OPTS = dict(max_paths=200, samples=1, max_samples=4, nl_ms=8000)
BUDGET = dict(quick=250, thorough=850)
POS = [-0.5, 0.7, 1.55, 2.55, 3.1, 3.8, 4.6, 5.3, 6.6, 7.4, 8.2]
SHORT = [0.4, 1.3, 2.2, 3.3, 4.15, 5.1, 6.2, 7.3]
LONG = [-0.5, 9.2]
RANGE = {'one': (3.7e-3, 6.7e-3), 'list': [3.7e-3, 6.7e-3], 'two': ((3.2e-3, 4.7e-3), (5.2e-3, 6.7e-3)), 'lists': [[3.2e-3, 4.7e-3], [5.2e-3, 7.2e-3]],
         'overlap': ((3.2e-3, 5.2e-3), (4.2e-3, 6.2e-3)), 'three': ((3.2e-3, 3.7e-3), (4.2e-3, 5.2e-3), (5.7e-3, 7.7e-3)), 'few': (3.2e-3, 4.7e-3), 'none_in': ((0.1e-3, 0.2e-3),)}


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, dict(dict(what='dcif', pos='std', v_fmt='mV', order='up', shot='one', mult=False, rs=False, nan=[], dup=[], npts=17, vmax=8e-3, sigma=None, fixed=False), **k)))
    for s in RANGE:
        add('range_' + s, shot=s)
    for f in ('uV', 'V', None):
        add('unit_%s' % f, v_fmt=f, npts=17)
    add('down', order='down')
    add('mixed', order='mixed')
    add('dup', dup=[0, 5, 10])
    add('nan', nan=[0, 3, 13])
    add('mult', mult=True)
    add('rs', rs=True, fixed=True)
    add('mult_rs', mult=True, rs=True, fixed=True)
    add('short', pos='short', order='down')
    add('short_low', pos='short', vmax=9e-3, npts=19, shot='two')
    add('flag', what='flag')
    add('smooth_v', sigma=4e-4)
    add('smooth_steps', sigma=0.8)
    add('pumped', what='pumped')
    add('pumped_cross', what='pumped_cross')
    add('pumped_rs', what='pumped', rs=True, fixed=True, order='down')
    add('pumped_two', what='pumped', shot='two', mult=True)
    add('pumped_given', what='given')
    add('pumped_given_none', what='given_none')
    add('chain', what='chain')
    add('scale', what='scale')
    add('defaults', what='defaults', fixed=True)
    add('reject', what='reject')
    add('auto', what='auto')
    add('auto_sharp', what='auto', sigma=2.1)
    if tier == 'thorough':
        for k in range(11):
            add('nan_%d' % k, nan=[k])
            add('dup_%d' % k, dup=[k], order='down')
        add('mult_rs_free', mult=True, rs=True)
        add('fine', npts=33)
    return out


def powers(c, tag, pos, base=2.0):
    return [c.real('%sp%d' % (tag, k), lo=round(base * (1 + abs(a)) - 0.3, 6), hi=round(base * (1 + abs(a)) + 0.3, 6)) for k, a in enumerate(pos)]


def line(c, g, p, shot, vgap):
    """least-squares line (per V) through the resampled points in the shot-noise ranges"""
    r = RANGE[shot]
    r = (r,) if not isinstance(r[0], (tuple, list)) else r
    inside = lambda v: any(a < float(v) < b for a, b in r)
    n = [k for k in range(len(g)) if inside(g[k])]
    if len(n) < 5:
        n = [k for k in range(len(g)) if c.truth(g[k] > 2 * vgap)]
    return fit_line(c, [g[k] for k in n], [p[k] for k in n], -1, 1)


def run(c, what, pos, v_fmt, order, shot, mult, rs, nan, dup, npts, vmax, sigma, fixed):
    np = c.np
    m = c.mod('qmix.exp.if_data')
    P0 = dict(std=POS, short=SHORT)[pos]
    if what == 'reject':
        dc = DCx(c)
        t = np.array([[float(k), float(k + 1)] for k in range(12)])
        for bad in (t[:, 0], t.tolist(), np.zeros((10, 3))):
            c.check_raises('malformed data rejected', lambda: m.dcif_data(bad, dc, vshot=(3e-3, 8e-3), vmax=8e-3))
        c.check_raises('unknown voltage unit rejected', lambda: m.dcif_data(t, dc, v_fmt='kV', vshot=(3e-3, 8e-3)))
        c.check_raises('bad shot-noise range rejected', lambda: m.dcif_data(t, dc, vshot=3e-3, vmax=8e-3, ifdata_npts=11))
        return
    if what == 'auto':
        return auto(c, np, m, sigma)
    dc = DCx(c, rs=rs, fixed=fixed)
    kw = dict(vmax=vmax, ifdata_npts=npts, ifdata_sigma=sigma, vshot=RANGE[shot])
    if v_fmt:
        kw['v_fmt'] = v_fmt
    vm = 1
    if mult:
        vm = kw['v_multiplier'] = c.real('vm', lo=0.99, hi=1.01)
    r = None
    if rs:
        r = kw['rseries'] = c.real('rs', lo=0, hi=1)
    g = grid(c, vmax, npts)
    V = axis(c, P0, vm, dc, r)
    if what in ('pumped', 'pumped_cross', 'given', 'given_none', 'chain'):
        return pumped(c, np, m, what, P0, V, g, dc, kw, v_fmt, order, shot)
    P = powers(c, '', P0) if what != 'defaults' else [c.k(0)] * len(P0)
    if what == 'defaults':
        # a linear power of symbolic slope and intercept: any shot-noise range gives the same line
        s, b = c.real('s', lo=1, hi=3), c.real('b', lo=0, hi=2)
        t = np.array([[c.k(a), b + s * a] for a in (-0.5, 9.5)])
        kw.pop('ifdata_sigma')
        kw['ifdata_npts'] = 301
        y, d = m.dcif_data(t, dc, **kw)
        t2 = np.array([[c.k(a) * 1000, b + s * a] for a in (-0.5, 9.5)])
        par = c.mod('qmix.exp.parameters').params
        y2, d2 = m.dcif_data(t2, dc, v_fmt='uV', vmax=vmax, ifdata_npts=301, vshot=RANGE['one'], ifdata_sigma=par['ifdata_sigma'])
        c.check_eq('default smoothing', y, y2)
        c.check_eq('default unit', d.corr, d2.corr)
        c.check_eq('calibration of a straight line', d.corr * s, c.k(Fr('5.8')))
        return
    t = sweep(c, P0, P, v_fmt, order, nan, dup)
    t0 = keep(c, t)
    p = resampled(c, V, P, g)
    if sigma is not None:
        f = c.mod('qmix.mathfn.filters')
        step = vmax / (npts - 1)
        p = f.gauss_conv(p, sigma / step if sigma <= 0.5 else sigma)
    s, b = line(c, g, p, shot, dc.vgap)
    c.assume(s >= 50)          # power per volt
    y, d = m.dcif_data(t, dc, **kw)
    c.check_shape('points', y, (npts, 2))
    c.check_eq('bias axis', y[:, 0] * dc.vgap * 1e3, np.array(g) * 1e3)
    c.check_eq('correction factor', d.corr * s, c.k(5800))
    c.check_eq('calibrated power', y[:, 1], p * d.corr)
    c.check_shape('shot line points', d.shot_slope, (npts, 2))
    c.check_eq('shot line axis', d.shot_slope[:, 0], y[:, 0])
    c.check_eq('shot line', d.shot_slope[:, 1], (np.array(g) * s + b) * d.corr)
    c.check_eq('IF noise', d.if_noise, (dc.vint * s + b) * d.corr)
    c.check_eq('maximum voltage', d.vmax * 1e3, c.k(vmax * 1e3))
    if what == 'flag':
        T = (dc.vint + b / s) * 5800
        c.assume(c.or_(T <= -1e-6, T >= 1e-6))
        c.assume(c.or_(T <= 50 - 1e-6, T >= 50 + 1e-6))
        good = c.truth(c.and_(T > 0, T < 50))
        c.check('fit flag', bool(c.truth(d.if_fit)) == bool(good))
    if what == 'scale':
        k = c.real('k', lo=0.2, hi=5)
        y2, d2 = m.dcif_data(sweep(c, P0, [x * k for x in P], v_fmt), dc, **kw)
        c.check_eq('rescaled power, same result', y2[:, 1], y[:, 1])
        c.check_eq('rescaled power, same noise', d2.if_noise, d.if_noise)
        c.check_eq('rescaled power, scaled factor', d2.corr * k, d.corr)
    unchanged(c, t, t0)


def pumped(c, np, m, what, P0, V, g, dc, kw, v_fmt, order, shot):
    H, C = powers(c, 'h', P0, base=1.2 if what == 'pumped_cross' else 2.0), powers(c, 'c', P0, base=1.2)
    th, tc = sweep(c, P0, H, v_fmt, order), sweep(c, P0, C, v_fmt, 'mixed')
    th0, tc0 = keep(c, th), keep(c, tc)
    kw.update(freq=230, verbose=False, vbest=2e-3)
    ph, pc = resampled(c, V, H, g), resampled(c, V, C, g)
    avg = (ph + pc) / 2
    s, b = line(c, g, avg, shot, dc.vgap)
    c.assume(s >= 50)
    if 'rseries' in kw:        # the Y-factor formulas on these long expressions are C20's subject
        c.patch_if(m, '_find_tn_gain', lambda hot, *a, **k: (hot[:, 1] * 0, hot[:, 1] * 0, 0))
    if what == 'given':
        cal = m.DCIFData(if_noise=c.real('n', lo=0, hi=100), corr=c.real('corr', lo=0.5, hi=2), if_fit=True, shot_slope='slope', vmax=1.)
        x, _, d = m.if_data(th, tc, dc, dcif=cal, **kw)
        c.check_eq('given calibration: hot', x[:, 1], ph * cal.corr)
        c.check_eq('given calibration: cold', x[:, 2], pc * cal.corr)
        c.check_eq('given IF noise', d.if_noise, cal.if_noise)
        c.check_eq('given factor', d.corr, cal.corr)
        c.check('given line', d.shot_slope == 'slope')
        c.check('given flag', d.if_fit is True)
        c.check_eq('maximum voltage', d.vmax * 1e3, c.k(kw['vmax'] * 1e3))
        return
    if what == 'given_none':
        kw['dcif'] = m.DCIFData(if_noise=None, corr=None, if_fit=False, shot_slope=None, vmax=0.006)
    if what == 'chain':
        y, cal = m.dcif_data(th, dc, **{k: v for k, v in kw.items()})
        s2, b2 = line(c, g, ph, shot, dc.vgap)
        x, _, d = m.if_data(th, tc, dc, dcif=cal, **kw)
        c.check_eq('calibration re-used: hot', x[:, 1], ph * cal.corr)
        c.check_eq('calibration re-used: cold', x[:, 2], pc * cal.corr)
        c.check_eq('noise re-used', d.if_noise, cal.if_noise)
        unchanged(c, th, th0)
        return
    x, _, d = m.if_data(th, tc, dc, **kw)
    c.check_eq('bias axis', x[:, 0] * dc.vgap * 1e3, np.array(g) * 1e3)
    c.check_eq('hot power', x[:, 1], ph * d.corr)
    c.check_eq('cold power', x[:, 2], pc * d.corr)
    c.check_eq('correction factor', d.corr * s, c.k(5800))
    c.check_eq('IF noise', d.if_noise, (dc.vint * s + b) * d.corr)
    c.check_eq('shot line', d.shot_slope[:, 1], (np.array(g) * s + b) * d.corr)
    c.check_eq('shot line axis', d.shot_slope[:, 0], x[:, 0])
    c.check_eq('maximum voltage', d.vmax * 1e3, c.k(kw['vmax'] * 1e3))
    unchanged(c, th, th0)
    unchanged(c, tc, tc0)


def auto(c, np, m, at):
    """automatic shot-noise range: above the gap structure the power is a straight line, whatever its scale"""
    at = at or 2.3
    import math
    n = 121
    dc = DCx(c, fixed=True)
    dc.offset = (0., 0.)
    k = c.real('k', lo=0.05, hi=20)
    V = [8. * i / (n - 1) for i in range(n)]
    base = [2. + 1.5 * v + 4 * math.exp(-(v - at) ** 2 * 6) + (0.8 * math.tanh(4 * (v - 2.8))) for v in V]
    t = np.array([[v, k * b] for v, b in zip(V, base)])
    y, d = m.dcif_data(t, dc, vmax=8e-3, ifdata_npts=n, ifdata_sigma=None)
    z, e = m.dcif_data(np.array([[v, c.k(b) if False else b] for v, b in zip(V, base)]), dc, vmax=8e-3, ifdata_npts=n, ifdata_sigma=None)
    c.check_eq('scale of the power only rescales the correction', d.corr * k, e.corr)
    c.check_eq('same IF noise', d.if_noise, e.if_noise)
    c.check_eq('same shot-noise line', d.shot_slope, e.shot_slope)
    c.check_eq('same calibrated power', y, z)
    c.check('same flag', bool(c.truth(d.if_fit)) == bool(c.truth(e.if_fit)))
    q = d.corr * k * 1.5
    c.check('line of the samples well above the gap', c.and_(c.le(q, 5.8 * 1.03), c.le(5.8 * 0.97, q)))
    w = (dc.vint * 1000 * 1.5 + 2.8) * 5.8 / 1.5
    c.check('IF noise of that line', c.and_(c.le(d.if_noise - w, 0.6), c.le(w - d.if_noise, 0.6)))
