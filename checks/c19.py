"""C19: I-V import returns the physical curve, whatever the file format."""
from fractions import Fraction as Fr
from checks.expcommon import VU, IU, rows, fit_line, DC, keep, unchanged
EXPLANATION = ('dciv_curve and iv_curve executed symbolically on measured tables whose voltages (jittered), currents, offsets, multipliers, series resistance and gap voltage are symbolic; '
               'raw curve, normalised resampled curve, rn, vint, rsg, igap and fgap compared with independent formulas; the offset minimiser is an arbitrary result, its objective is checked '
               'on point-symmetric data.')
BOUNDS = ('tables of 7-15 samples: fixed sample positions between -5.2 and 5.2 mV with arbitrary jitter of each voltage, arbitrary currents within a band around an SIS-like curve, offsets up to 0.02 mV / 10 uA, '
          'multipliers 0.99-1.01, series resistance 0-0.1 ohm, vgap 2.6-2.9 mV; all unit pairs, reversed and up-down sweeps, NaN rows and repeated rows at several places; 7-13 output points; pumped tables with multipliers, series resistance and the offsets of the DC table')
OUTSIDE = ('Savitzky-Golay filtering of curved data, the automatic search of gap voltage on curved data, convergence of the SciPy minimiser, negative multipliers, samples at the very edge of a fit range')
OPTS = dict(max_paths=300, samples=1, max_samples=4, nl_ms=8000)
BUDGET = dict(quick=250, thorough=850)

BI = [-5, -3, -1, 0, 1.95, 2.04, 3, 3.72, 4.0, 4.25, 5]
UNI = [0.1, 1.0, 1.96, 2.0, 2.03, 3, 3.75, 4.2, 5]


def shape_i(v):
    """SIS-like curve in mA for v in mV"""
    a = abs(v)
    i = 0.004 * a if a < 2.7 else a / 14.
    return i if v >= 0 else -i


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, dict(dict(what='dc', pos='bi', v_fmt='mV', i_fmt='mA', off='both', mult=False, rs=False, order='up', vmax=4.5, npts=7, vgap='sym', jitter=0.01, nan=[], dup=[]), **k)))
    add('plain')
    add('mult', mult=True)
    add('rs', rs=True)
    add('mult_rs', mult=True, rs=True, jitter=0)
    for vf, i_f in (('uV', 'uA'), ('V', 'A'), ('mV', 'uA'), ('V', 'mA'), ('uV', 'A')):
        add('units_%s_%s' % (vf, i_f), v_fmt=vf, i_fmt=i_f, jitter=0, npts=5)
    add('default_units', v_fmt=None, i_fmt=None, jitter=0, npts=5)
    add('down', order='down')
    add('down_rs', order='down', rs=True, jitter=0)
    add('updown', order='updown')
    add('downup', order='downup')
    add('unipolar', pos='uni', off='none')
    add('unipolar_voff', pos='uni', off='v')
    add('unipolar_ioff', pos='uni', off='i')
    add('unipolar_both', pos='uni', off='both', rs=True)
    add('unipolar_down', pos='uni', off='both', order='down')
    add('minimise', off='none', jitter=0)
    add('minimise_v', off='v', jitter=0, rs=True)
    add('minimise_number_range', off='range', jitter=0)
    add('nan', nan=[[0, 'v'], [4, 'i'], [11, 'vi']], dup=[])
    add('nan_down', nan=[[3, 'v'], [8, 'i']], order='down')
    add('dup', dup=[0, 3, 6, 10])
    add('dup_down', dup=[2, 10], order='down')
    add('beyond', vmax=5.5, npts=9, jitter=0)
    add('fine', npts=13, jitter=0, vmax=3.0)
    add('objective', what='objective')
    for o in ('both', 'none', 'v', 'i'):
        add('pumped_' + o, what='pumped', off=o)
    add('pumped_mult', what='pumped', mult=True, off='none')
    add('pumped_mult_rs_dc', what='pumped', mult=True, rs=True, jitter=0, off='v')
    add('pumped_updown_dc', what='pumped', order='updown', mult=True, off='i')
    add('pumped_mult_rs', what='pumped', mult=True, rs=True, jitter=0)
    add('pumped_units', what='pumped', v_fmt='uV', i_fmt='uA', off='none')
    add('pumped_units2', what='pumped', v_fmt='V', i_fmt='A', off='none')
    add('pumped_down', what='pumped', order='down', nan=[[2, 'v']], dup=[4])
    add('pumped_updown', what='pumped', order='updown')
    add('pumped_beyond', what='pumped', vmax=6.0, npts=9)
    add('chain', what='chain', jitter=0)
    add('reject', what='reject')
    add('filter_line', what='filter', npts=13)
    add('gap', what='gap')
    if tier == 'thorough':
        add('gap_sharp', what='gap', npts=9)
        add('mult_rs_jitter', mult=True, rs=True)
        add('minimise_jitter', off='none')
        add('filter_line_25', what='filter', npts=25)
        for k in range(len(BI)):
            add('nan_%d' % k, nan=[[k, 'v']], npts=5)
            add('dup_%d' % k, dup=[k], npts=5)
        add('npts25', npts=25)
    return out


def build(c, pos, v_fmt, i_fmt, jitter, order, nan, dup, off, mult, rs, tag=''):
    """table, the true voltage/current samples in V and A, and the keyword arguments"""
    P = BI if pos == 'bi' else UNI
    vu, iu = c.k(VU[v_fmt or 'mV']), c.k(IU[i_fmt or 'mA'])
    n = len(P)
    kw = {}
    if v_fmt:
        kw['v_fmt'] = v_fmt
    if i_fmt:
        kw['i_fmt'] = i_fmt
    v, i = [], []
    for k, p in enumerate(P):
        e = c.real('%sdv%d' % (tag, k), lo=-jitter, hi=jitter) if jitter else 0
        v.append((c.k(p) + e) * (c.k(Fr(1, 1000)) / vu))
        s = shape_i(p)
        i.append(c.real('%si%d' % (tag, k), lo=round(s - 0.01, 6), hi=round(s + 0.01, 6)) * (c.k(Fr(1, 1000)) / iu))
    table, v, i = rows(c, v, i, order, nan, dup)
    vm = im = 1
    if mult:
        vm = kw['v_multiplier'] = c.real(tag + 'vm', lo=0.99, hi=1.01)
        im = kw['i_multiplier'] = c.real(tag + 'im', lo=0.9, hi=1.1)
    vo = io = None
    if off in ('both', 'v'):
        vo = kw['voffset'] = c.real(tag + 'vo', lo=-2e-5, hi=2e-5)
    if off in ('both', 'i'):
        io = kw['ioffset'] = c.real(tag + 'io', lo=-1e-5, hi=1e-5)
    if rs:
        kw['rseries'] = c.real(tag + 'rs', lo=0, hi=0.1)
    V = [x * vu * vm for x in v]
    I = [x * iu * im for x in i]
    return table, V, I, vo, io, kw


def run(c, what, pos, v_fmt, i_fmt, off, mult, rs, order, vmax, npts, vgap, jitter, nan, dup):
    np = c.np
    iv = c.mod('qmix.exp.iv_data')
    if what == 'reject':
        g = np.array([[float(a), float(a)] for a in BI])
        for bad in (lambda: iv.dciv_curve(g.tolist()), lambda: iv.dciv_curve(g[:, 0]), lambda: iv.dciv_curve(np.zeros((4, 3))),
                    lambda: iv.dciv_curve(g, v_fmt='kV', filter_data=False), lambda: iv.dciv_curve(g, i_fmt='kA', filter_data=False)):
            c.check_raises('malformed data rejected', bad)
        return
    if what == 'objective':
        return objective(c, iv)
    if what == 'gap':
        return gap(c, iv, npts)
    if what == 'filter':
        return filter_line(c, iv, npts)
    table, V, I, vo, io, kw = build(c, pos, v_fmt, i_fmt, jitter, order, nan, dup, off, mult, rs)
    vm_ = vmax * 1e-3
    kw.update(filter_data=False, vmax=vm_, npts=npts, vrn=(3.5e-3, 4.5e-3), vrsg=2e-3)
    if off == 'range':
        kw['voffset_range'] = 8e-4
    frozen = keep(c, table)
    table0 = frozen
    kw0 = dict(kw)
    if what == 'chain':
        vg = kw['vgap'] = c.real('vgap', lo=2.6e-3, hi=2.9e-3)
        x, y, dc = iv.dciv_curve(table, **kw)
        t2, V2, I2, _, _, kw2 = build(c, pos, v_fmt, i_fmt, jitter, 'down', [], [], 'none', False, False, tag='p')
        kw2.update(filter_data=False, vmax=vm_, npts=npts)
        z, w = iv.iv_curve(t2, dc, **kw2)
        ref = np.interp(np.linspace(-vm_, vm_, npts), np.array([a - vo for a in V2]), np.array([a - io for a in I2]), left=0, right=0)
        c.check_eq('pumped current uses the dc offsets and gap', w * vg, ref * dc.rn)
        c.check_eq('same voltage grid', z, x)
        return
    if what == 'pumped':
        dc = DC(c)
        x, y = iv.iv_curve(table, dc, **kw)
        if off != 'both':
            vo, io = dc.offset
        VV, II = correct(V, I, vo, io, kw.get('rseries'))
        grid = np.linspace(-vm_, vm_, npts)
        c.check_eq('voltage grid', x * dc.vgap * 1e3, grid * 1e3)
        ref = np.interp(grid, np.array(VV), np.array(II), left=0, right=0)
        c.check_eq('pumped current', y * dc.igap * 1e3, ref * 1e3)
        unchanged(c, table, table0)
        c.check('options unchanged', kw == kw0 if not c.symbolic else sorted(kw) == sorted(kw0))
        return
    vg = kw['vgap'] = c.real('vgap', lo=2.6e-3, hi=2.9e-3)
    fixed = None
    if pos == 'bi' and off in ('none', 'v', 'range'):
        class R(object):
            pass

        def minimize(fun, x0, *a, **k):
            r = R()
            r.x = np.array([c.real('mv', lo=-2e-5, hi=2e-5), c.real('mi', lo=-1e-5, hi=1e-5)])
            r.success, r.fun = True, 0
            return r
        c.patch_if(iv, 'minimize', minimize)
        fixed = True
    x, y, dc = iv.dciv_curve(table, **kw)
    if fixed:
        vo, io = c.real('mv', lo=-2e-5, hi=2e-5), c.real('mi', lo=-1e-5, hi=1e-5)
    vo = 0 if vo is None else vo
    io = 0 if io is None else io
    c.check_eq('voltage offset reported', c.k(1e3) * dc.offset[0], c.k(1e3) * vo)
    c.check_eq('current offset reported', c.k(1e3) * dc.offset[1], c.k(1e3) * io)
    VV, II = correct(V, I, vo, io, kw.get('rseries'))
    V0, I0 = correct(V, I, vo, io, None)
    if not isinstance(dc.vraw, (int, float)):
        c.check_shape('raw samples', dc.vraw, (len(V),))
        c.check_eq('raw voltage', dc.vraw * 1e3, np.array(V0) * 1e3)
        c.check_eq('raw current', dc.iraw * 1e3, np.array(I0) * 1e3)
    s, b = fit_line(c, VV, II, 3.5e-3, 4.5e-3)
    c.check_eq('normal resistance', dc.rn * s, c.k(1))
    c.check_eq('intercept voltage', dc.vint * s * 1e3, -b * 1e3)
    s2, _ = fit_line(c, VV, II, 1.9e-3, 2.1e-3)
    c.check_eq('subgap resistance', dc.rsg * s2, c.k(1))
    c.check_eq('gap voltage', dc.vgap * 1e3, vg * 1e3)
    c.check_eq('gap current', dc.igap * dc.rn * 1e3, vg * 1e3)
    c.check_eq('gap frequency', dc.fgap * c.k(Fr('6.62607015e-34')) / c.k(Fr('1e-22')), vg * c.k(Fr('1.602176634e-19')) / c.k(Fr('1e-22')), tol=1e-6)
    grid = np.linspace(-vm_, vm_, npts)
    c.check_shape('points', x, (npts,))
    c.check_shape('points', y, (npts,))
    c.check_eq('voltage grid', x * vg * 1e3, grid * 1e3)
    ref = np.interp(grid, np.array(VV), np.array(II))
    c.check_eq('current', y * dc.igap * 1e3, ref * 1e3)
    c.check_eq('metadata voltage', dc.vnorm, x, observe=False)
    c.check_eq('metadata current', dc.inorm, y, observe=False)
    unchanged(c, table, table0)


def correct(V, I, vo, io, rs):
    VV = [a - vo for a in V]
    II = [a - io for a in I]
    if rs is not None:
        VV = [a - b * rs for a, b in zip(VV, II)]
    return VV, II


def objective(c, iv):
    """the objective given to the minimiser is zero at the true offsets of point-symmetric data"""
    np = c.np
    vo = c.real('vo', lo=-4e-5, hi=4e-5)
    io = c.real('io', lo=-1e-5, hi=1e-5)
    half = [0.3, 0.6, 0.9, 1.5, 3.75, 4.2, 5]
    cur = [c.real('i%d' % k, lo=0.001 * (k + 1), hi=0.001 * (k + 2)) for k in range(len(half))]
    v = [-a * c.k(Fr(1, 1000)) + vo for a in half[::-1]] + [vo + 0] + [a * c.k(Fr(1, 1000)) + vo for a in half]
    i = [-a * c.k(Fr(1, 1000)) + io for a in cur[::-1]] + [io + 0] + [a * c.k(Fr(1, 1000)) + io for a in cur]
    got = []

    class R(object):
        pass

    def minimize(fun, x0, *a, **k):
        r = R()
        got.append(fun)
        r.x = np.array([vo, io])
        r.success, r.fun = True, 0
        return r
    c.patch(iv, 'minimize', minimize)
    t = np.array([[a, b] for a, b in zip(v, i)])
    x, y, dc = iv.dciv_curve(t, v_fmt='V', i_fmt='A', filter_data=False, vgap=2.8e-3, vmax=4e-3, npts=5, vrsg=1.5e-3, voffset_range=(-1.2e-3, 1.2e-3), vrn=(3.5e-3, 4.5e-3))
    c.check_eq('voltage offset found', dc.offset[0] * 1e3, vo * 1e3)
    c.check_eq('current offset found', dc.offset[1] * 1e3, io * 1e3)
    if not got:
        return
    c.check_eq('objective is zero at the true offset', got[0]([vo, io]) * 1e3, c.k(0))
    other = got[0]([vo, io + c.real('d', lo=1e-6, hi=1e-4)])
    c.check('objective is positive at a wrong offset', other > 0)


def filter_line(c, iv, npts):
    """filtering keeps a straight line"""
    np = c.np
    g = c.real('g', lo=0.05, hi=0.1)
    v = [-0.6, -0.5, -0.3, -0.2, -0.1, 0, 0.1, 0.2, 0.4, 0.5, 0.6]
    i = [g * a for a in v]
    t = np.array([[a, b] for a, b in zip([c.k(a) for a in v], i)])
    x, y, dc = iv.dciv_curve(t, voffset=0, ioffset=0, vgap=2.8e-3, vrn=(1.8e-4, 5.8e-4), vrsg=3.5e-4, vmax=5e-4, npts=npts, filter_nwind=5, filter_npoly=3)
    c.check_shape('filtered points', y, (npts,))
    c.check_eq('a straight line stays a straight line', y * dc.igap * 1e3, x * 2.8 * g, tol=1e-6)


def gap(c, iv, npts):
    """piecewise-linear curve: leakage line, steep transition, normal line through the origin; the gap voltage is where
    the transition line reaches half the current of the upper corner"""
    np = c.np
    rn = c.real('rn', lo=10, hi=16)
    lk = c.real('leak', lo=0.0005, hi=0.004)     # conductance in mS
    lo, hi = (280, 284) if npts == 9 else (276, 281)
    vv = [Fr(5 * k) for k in range(54)] + [Fr(k, 2) for k in range(540, 581)] + [Fr(5 * k) for k in range(59, 91)]     # in 10 uV
    steep = (hi / rn - lk * lo) / (hi - lo)
    i = [lk * c.k(a) / 100 if a <= lo else c.k(a) / rn / 100 if a >= hi else (lk * lo + steep * (c.k(a) - lo)) / 100 for a in vv]
    t = np.array([[c.k(p / 100), q] for p, q in zip(vv, i)])
    x, y, dc = iv.dciv_curve(t, voffset=0, ioffset=0, vrn=(3.5e-3, 4.45e-3), vrsg=2e-3, vmax=3e-3, npts=5, filter_data=False)
    c.check_eq('normal resistance', dc.rn, rn, tol=1e-6)
    want = lo + (hi / rn / 2 - lk * lo) / steep      # in 10 uV
    c.check_eq('gap voltage from the transition line', dc.vgap * 1e5, want, tol=1e-6)
    c.check_eq('gap current', dc.igap * dc.rn * 1e5, want, tol=1e-6)
    c.check_eq('subgap resistance', dc.rsg * lk, c.k(1), tol=1e-6)
