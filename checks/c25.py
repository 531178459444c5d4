"""C25: imported-data objects carry consistent derived quantities."""
from fractions import Fraction as Fr
EXPLANATION = ('the DCData and PumpedData constructors executed symbolically for every result of the dc analysis, the I-V import, the dc IF analysis and the IF analysis '
               '(these four are replaced by arbitrary symbolic results and record what they are given; their own behaviour is C19-C22).')
BOUNDS = 'dc curve 9 samples, leakage voltage symbolic in +-6 mV, pumped curve 48 samples on a uniform axis, IF results 5 samples with the best index at every position; all values symbolic; options from the list in checks/c25.py'
OUTSIDE = 'plots and printed text; CSV and spectrum plots; sizes beyond the bounds'
OPTS = dict(max_paths=200, samples=1, max_samples=12)
BUDGET = dict(quick=200, thorough=600)


def cases(tier):
    out = []
    add = lambda name, **k: out.append((name, k))
    add('dc')
    add('dc_vleak', opts=dict(vleak=Fr(1, 1000).__float__(), area=2.3))
    add('dc_if', dcif=True)
    add('dc_vleak_sym', vl_sym=True)
    add('dc_smear', opts=dict(v_smear=0.02))
    add('dc_smear_if', dcif=True, opts=dict(v_smear=0.035, comment='x', filter_data=False))
    add('dc_bad', bad=True)
    for i in range(5) if tier == 'thorough' else (0, 2, 4):
        add('pump_if_%d' % i, pump=True, best=i)
        add('pump_if_%d_nodc' % i, pump=True, best=i, nodc=True)
    add('pump', pump=True)
    add('pump_noif', pump=True, best=1, opts=dict(analyze_if=False))
    add('pump_half', pump=True, best=1, half=True)
    add('pump_opts', pump=True, best=3, opts=dict(comment='y', vmax=5e-3, t_cold=80., ifresp_delim=',', npts=1001))
    add('pump_nofreq', pump=True, nofreq=True)
    add('pump_bad', pump=True, bad=True)
    return [(n, dict(what='pump' if p.pop('pump', False) else 'dc', **p)) for n, p in out]


class O(object):
    pass


def run(c, what, **k):
    {'dc': dc, 'pump': pump}[what](c, c.mod('qmix.exp.exp_data'), **k)


def stub(c, m, home, name, f):
    """the same stand-in wherever the constructors may look the function up"""
    c.patch(c.mod(home), name, f)
    c.patch_if(m, name, f)


def guard(c, kw):
    """copies, to see that neither the caller's options nor the package defaults are modified"""
    P = c.mod('qmix.exp.parameters').params
    return P, dict(P), dict(kw)


def unchanged(c, g, kw):
    P, p0, k0 = g
    c.check('package defaults are not modified', set(P) == set(p0) and all(P[x] is p0[x] or P[x] == p0[x] for x in P))
    c.check('options of the caller are not modified', set(kw) == set(k0) and all(kw[x] is k0[x] for x in kw))


def passed(c, label, seen, kw, skip=()):
    c.check(label + ' receives the options', all(x in seen and (seen[x] is kw[x] or seen[x] == kw[x]) for x in kw if x not in skip))
    P = c.mod('qmix.exp.parameters').params
    c.check(label + ' receives the defaults', all(seen[x] is P[x] or seen[x] == P[x] for x in P if x in seen and x not in kw and x not in ('freq',) + tuple(skip)))


def meta(c, np):
    d = O()
    d.vgap, d.rn, d.rsg = c.real('vgap', lo=2.5e-3, hi=3e-3), c.real('rn', lo=5, hi=30), c.real('rsg', lo=100, hi=900)
    d.igap, d.fgap = c.real('igap', lo=1e-4, hi=3e-4), c.real('fgap', lo=6e11, hi=8e11)
    d.offset, d.vint = (c.real('vo', lo=-1e-4, hi=1e-4), c.real('io', lo=-1e-6, hi=1e-6)), c.real('vint', lo=1e-4, hi=4e-4)
    d.vraw, d.iraw = np.array([0., 1.]), np.array([0., 1.])
    return d


def dc(c, m, dcif=False, opts=None, bad=False, vl_sym=False):
    np = c.np
    kw = dict(verbose=False, **(opts or {}))
    if bad:
        c.check_raises('unknown data type', lambda: m.DCData([[1., 2.]], **kw), ValueError)
        return
    d = meta(c, np)
    v = np.array([c.k(Fr(k, 4)) for k in range(-3, 6)])
    i = np.array([c.real('c%d' % k, lo=-2, hi=2) for k in range(9)])
    raw, rif = np.array([[1., 2.], [3., 4.]]), np.array([[5., 6.], [7., 8.]])
    ifd, ex = np.array([[c.real('p%d%d' % (a, b)) for b in range(2)] for a in range(4)]), O()
    ex.if_noise, ex.corr, ex.vmax = c.real('noise', lo=0, hi=50), c.real('corr', lo=0.1, hi=5), 1.
    ex.shot_slope, ex.if_fit = np.array([[c.real('s0'), c.real('s1')]]), True
    log = []

    def f_dc(a, **k):
        log.append(('dc', a, k))
        return v, i, d

    def f_if(a, b, **k):
        log.append(('if', a, b, k))
        return ifd, ex

    def f_resp(*a, **k):
        log.append(('resp', a, k))
        r = O()
        r.args, r.kw = a, k
        return r
    stub(c, m, 'qmix.exp.iv_data', 'dciv_curve', f_dc)
    stub(c, m, 'qmix.exp.if_data', 'dcif_data', f_if)
    stub(c, m, 'qmix.respfn', 'RespFnFromIVData', f_resp)
    area = c.real('area', lo=0.5, hi=4)
    if 'area' not in kw:
        kw['area'] = area
    if vl_sym:
        kw['vleak'] = c.real('vleak', lo=-6e-3, hi=6e-3)
    g = guard(c, kw)
    x = m.DCData(raw, rif if dcif else None, **kw)
    unchanged(c, g, kw)
    D = [e for e in log if e[0] == 'dc']
    c.check('one dc analysis of the given data', len(D) == 1 and D[0][1] is raw)
    passed(c, 'dc analysis', D[0][2], kw)
    c.check_eq('voltage', x.voltage, v)
    c.check_eq('current', x.current, i)
    c.check('metadata', x.dc is d)
    for n in ('vgap', 'igap', 'fgap', 'rn', 'rsg', 'vint'):
        c.check_eq(n, getattr(x, n), getattr(d, n))
    c.check_eq('offset', np.array(list(x.offset)), np.array(list(d.offset)))
    c.check_eq('q', x.q * d.rn, d.rsg)
    P = c.mod('qmix.exp.parameters').params
    A = kw['area']
    c.check_eq('rna', x.rna * 10 ** 12, d.rn * A)
    c.check_eq('jc', x.jc * d.rn * A, d.vgap * 10 ** 12)
    vl = kw.get('vleak', P['vleak'])
    vl = c.k(Fr(repr(vl))) if c.symbolic and isinstance(vl, float) else vl
    c.check_eq('ileak in units of the gap current', x.ileak / d.igap, np.interp(vl / d.vgap, v, i))
    c.check_eq('vleak', c.k(1) * x.vleak, vl)
    for n, vs in (('resp', None), ('resp_smear', kw.get('v_smear', P['v_smear']))):
        r = getattr(x, n)
        c.check(n + ' is a response function', hasattr(r, 'args'))
        a = dict(zip(('voltage', 'current'), r.args))
        a.update(r.kw)
        c.check_eq(n + ' voltage', a['voltage'], v)
        c.check_eq(n + ' current', a['current'], i)
        c.check(n + ' smearing', a.get('v_smear') == vs)
    F = [e for e in log if e[0] == 'if']
    if dcif:
        c.check('one dc IF analysis of the given data', len(F) == 1 and F[0][1] is rif and F[0][2] is d)
        passed(c, 'dc IF analysis', F[0][3], kw)
        c.check('IF metadata', x.dcif is ex)
        c.check_eq('IF data', x.if_data, ifd)
        c.check_eq('IF noise', x.if_noise, ex.if_noise)
        c.check_eq('correction', x.corr, ex.corr)
        c.check_eq('shot slope', x.shot_slope, ex.shot_slope)
        c.check('fit flag', x.if_fit is True)
    else:
        c.check('no dc IF analysis', not F)
        c.check('no IF attributes', all(getattr(x, n) is None for n in ('dcif', 'if_data', 'if_noise', 'corr', 'shot_slope', 'if_fit')))


def pump(c, m, best=None, nodc=False, half=False, opts=None, nofreq=False, bad=False):
    np = c.np
    kw = dict(verbose=False, analyze_iv=False, **(opts or {}))
    freq = c.real('freq', lo=100, hi=400)
    if not nofreq:
        kw['freq'] = freq
    d = O()
    d.dc = meta(c, np)
    for n in ('vgap', 'igap', 'fgap', 'rn', 'rsg', 'vint', 'offset'):
        setattr(d, n, getattr(d.dc, n))
    d.voltage = np.array([c.k(Fr(k, 4)) for k in range(6)])
    d.current = np.array([c.real('c%d' % k, lo=0, hi=2) for k in range(6)])
    d.dcif = None if nodc else O()
    raw, hot, cold = np.array([[1., 2.], [3., 4.]]), np.array([[5., 6.], [7., 8.]]), np.array([[5., 3.], [7., 2.]])
    if bad:
        c.check_raises('unknown data type', lambda: m.PumpedData([[1., 2.]], d, **kw), ValueError)
        return
    if nofreq:
        c.check_raises('the LO frequency must be given', lambda: m.PumpedData(raw, d, **kw), ValueError)
        return
    N = 48
    v = np.array([c.k(Fr(k, 16)) for k in range(N)])
    i = np.array([c.real('i%d' % k, lo=0, hi=2) for k in range(N)])
    pos = [1, 3, 6, 9, 12]
    res = np.array([[c.k(Fr(4 * p + 1, 64))] + [c.real('r%d%d' % (a, b), lo=0.1 * (b + 1), hi=b + 1) for b in range(4)] for a, p in enumerate(pos)])
    ex = O()
    ex.if_noise, ex.corr, ex.vmax = c.real('noise', lo=0, hi=50), c.real('corr', lo=0.1, hi=5), 1.
    ex.shot_slope, ex.if_fit = np.array([[c.real('s0'), c.real('s1')]]), False
    log = []

    def f_iv(a, b, **k):
        log.append(('iv', a, b, k))
        return v, i

    def f_if(a, b, e, **k):
        log.append(('if', a, b, e, k))
        return res, best, ex
    stub(c, m, 'qmix.exp.iv_data', 'iv_curve', f_iv)
    stub(c, m, 'qmix.exp.if_data', 'if_data', f_if)
    g = guard(c, kw)
    x = m.PumpedData(raw, d, *((hot,) if half else (hot, cold) if best is not None else ()), **kw)
    unchanged(c, g, kw)
    V = [e for e in log if e[0] == 'iv']
    c.check('one I-V import of the given data', len(V) == 1 and V[0][1] is raw and V[0][2] is d.dc)
    passed(c, 'I-V import', V[0][3], kw)
    c.check_eq('voltage', x.voltage, v)
    c.check_eq('current', x.current, i)
    for n in ('vgap', 'igap', 'fgap', 'rn', 'vint'):
        c.check_eq(n, getattr(x, n), getattr(d.dc, n))
    c.check_eq('offset', np.array(list(x.offset)), np.array(list(d.offset)))
    c.check_eq('dc voltage', x.voltage_dc, d.voltage)
    c.check_eq('dc current', x.current_dc, d.current)
    c.check('dc data', x.dciv is d and x.dc is d.dc)
    c.check_eq('frequency', x.freq, freq)
    c.check_eq('photon voltage', x.vph * d.dc.fgap, freq * 10 ** 9)
    c.check_eq('dynamic resistance', x.rdyn, c.mod('qmix.mathfn.misc').slope_span_n(i, v, 21))
    c.check('no impedance recovery', x.zt is None and x.vt is None and x.zw is None and x.alpha is None)
    F = [e for e in log if e[0] == 'if']
    if best is None or half or kw.get('analyze_if') is False:
        c.check('no IF analysis', not F)
        c.check('no IF attributes', all(getattr(x, n) is None for n in ('if_hot', 'if_cold', 'tn', 'gain', 'idx_best', 'if_noise', 'shot_slope', 'tn_best', 'g_db')))
        return
    c.check('one IF analysis of the given data', len(F) == 1 and F[0][1] is hot and F[0][2] is cold and F[0][3] is d.dc)
    passed(c, 'IF analysis', F[0][4], kw)
    c.check('the dc noise calibration is used', F[0][4].get('dcif') is d.dcif)
    c.check('frequency given to the IF analysis', F[0][4].get('freq') is freq)
    c.check_eq('hot', x.if_hot, res[:, 0:2])
    c.check_eq('cold', x.if_cold, np.array([[r[0], r[2]] for r in res]))
    c.check_eq('tn', x.tn, res[:, 3])
    c.check_eq('gain', x.gain, res[:, 4])
    c.check('best index', x.idx_best == best)
    c.check_eq('best noise temperature', x.tn_best, res[best, 3])
    c.check_eq('best gain', x.gain_best, res[best, 4])
    c.check_eq('gain in dB', x.g_db, 10 * np.log10(res[best, 4]))
    c.check_eq('best bias', x.v_best, res[best, 0])
    c.check_eq('IF noise', x.if_noise, ex.if_noise)
    c.check_eq('correction', x.corr, ex.corr)
    c.check_eq('shot slope', x.shot_slope, ex.shot_slope)
    c.check('fit flag', x.good_if_noise_fit is False)
    # output impedance: rn over the least-squares slope of the ten samples from the best bias
    s = pos[best]
    a, b = [v[s + k] for k in range(10)], [i[s + k] for k in range(10)]
    ma, mb = sum(a) / 10, sum(b) / 10
    num, den = sum((p - ma) * (q - mb) for p, q in zip(a, b)), sum((p - ma) ** 2 for p in a)
    c.check_eq('IF output impedance', x.zj_if * num, d.dc.rn * den)
