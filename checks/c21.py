"""C21: the reported best bias point is the best one."""
from fractions import Fraction as Fr
from checks.ifcommon import DCx, sweep, axis, grid
EXPLANATION = ('if_data executed symbolically on hot and cold IF sweeps with symbolic powers; the reported index compared with every other bias point (gain, noise temperature or distance to vbest) '
               'for every option and letter case.')
BOUNDS = '3-6 samples, 3-6 bias points (with and without data at every point), arbitrary powers in [0.2, 12] or hot above cold by at least 2%, vbest anywhere from below 0 to beyond the sweep, calibration given'
OUTSIDE = 'ties within 1e-9 of the best value; sweeps without any valid point'
OPTS = dict(max_paths=1500, samples=1, max_samples=4, nl_ms=8000, fork_minmax=True)
BUDGET = dict(quick=250, thorough=850)
POS = [-0.5, 0.7, 1.8, 2.9, 4.1]


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, dict(dict(opt='Max Gain', npts=5, vmax=4e-3, vbest=None, hot='above', pos='wide', fmt='mV'), **k)))
    for o in ('Max Gain', 'max gain', 'MAX GAIN', None):
        add('gain_%s' % o, opt=o)
    for o in ('Min Tn', 'min tn', 'MIN TN'):
        add('tn_%s' % o, opt=o, hot='cold_fixed', npts=5 if o == 'min tn' and tier == 'thorough' else 4)
    add('tn_free', opt='Min Tn', npts=2)
    add('tn_free_outside', opt='Min Tn', npts=3, vmax=6e-3)
    add('gain_any', hot='any', npts=4)
    add('gain_outside', pos='narrow', npts=6, vmax=6e-3)
    add('tn_outside', pos='narrow', npts=6, vmax=6e-3, opt='Min Tn', hot='cold_fixed')
    add('tn_cold_any', opt='Min Tn', hot='cold_any', npts=4 if tier == 'thorough' else 3)
    add('tn_any', hot='any', npts=2, opt='Min Tn')
    add('vbest', vbest='sym')
    add('vbest_tn', vbest='sym', opt='min Tn')
    add('vbest_bad_option', vbest='sym', opt='whatever')
    add('vbest_zero', vbest=0)
    add('vbest_outside', vbest='sym', pos='narrow', npts=6, vmax=6e-3, fmt='V')
    add('reject', opt='best')
    if tier == 'thorough':
        add('gain_any6', hot='any', npts=6)
        add('tn_6', opt='Min Tn', npts=6, hot='cold_fixed')
        add('tn_free3', opt='Min Tn', npts=3)
        add('tn_any3', hot='any', npts=3, opt='Min Tn')
        add('vbest21', vbest='sym', npts=21)
    return out


def run(c, opt, npts, vmax, vbest, hot, pos, fmt):
    np = c.np
    m = c.mod('qmix.exp.if_data')
    dc = DCx(c, fixed=vbest is None)
    P0 = POS if pos == 'wide' else POS[1:-1] if npts == 5 else [0.7, 1.8, 2.9, 4.1]
    n = len(P0)
    if hot.startswith('cold'):
        C = [c.k(Fr(a, 10)) for a in (13, 7, 21, 9, 16)[:n]]
        H = [a * Fr(102, 100) + b for a, b in zip(C, c.reals('d', n, lo=0.05, hi=3))] if hot == 'cold_fixed' else c.reals('h', n, lo=0.2, hi=5)
    elif hot == 'above':
        C = c.reals('c', n, lo=0.2, hi=3)
        H = [a * Fr(102, 100) + b for a, b in zip(C, c.reals('d', n, lo=0.05, hi=3))]
    else:
        C, H = c.reals('c', n, lo=0.2, hi=12), c.reals('h', n, lo=0.2, hi=12)
    kw = dict(freq=230, t_hot=300., t_cold=80., vmax=vmax, ifdata_npts=npts, ifdata_sigma=None, verbose=False, v_fmt=fmt,
              dcif=m.DCIFData(if_noise=10., corr=c.real('corr', lo=0.5, hi=2), if_fit=True, shot_slope=None, vmax=vmax))
    if opt is not None:
        kw['best_pt'] = opt
    if vbest == 'sym':
        vbest = c.real('vbest', lo=-2e-3, hi=8e-3)
    if vbest is not None:
        kw['vbest'] = vbest
    call = lambda: m.if_data(sweep(c, P0, H, fmt), sweep(c, P0, C, fmt), dc, **kw)
    if opt == 'best':
        c.check_raises('unknown option rejected', call)
        kw['best_pt'] = 'Max Gain'
        call()
        return
    x, idx, d = call()
    # some index reports may be symbolic: compare by position
    c.observe('gain', x[:, 4])
    V = axis(c, P0, 1, dc, None)
    g = grid(c, vmax, npts)
    inside = [bool(c.truth(c.and_(V[0] < a, a < V[-1]))) for a in g]
    k = int(idx)
    c.check('index in range', 0 <= k < npts)
    if vbest is not None:
        far = [abs(a - vbest) * 1000 for a in g]
        for j in range(npts):
            c.check('no bias point is nearer to vbest', far[k] <= far[j] + 1e-9)
    elif opt is None or 'ain' in opt.lower():
        for j in range(npts):
            c.check('no bias point has more gain', x[j, 4] <= x[k, 4] + 1e-12)
    else:
        c.check('the best point has data', inside[k])
        for j in range(npts):
            if inside[j]:
                # cross-multiplied where both ratios are above the clamp
                a, b = x[k, 3], x[j, 3]
                c.check('no bias point has a lower noise temperature', c.le(a, b, scale=10.))
