"""DCData / PumpedData objects with arbitrary contents, made by the real constructors (analyses replaced by arbitrary results)."""
from fractions import Fraction as Fr

GRID = [-0.5, 0, 0.05, 0.3, 0.35, 0.4, 0.66, 0.69, 0.71, 0.73, 0.76, 1.0, 1.2, 1.6]     # in gap voltages
NP, NZ = 48, 6          # samples of the pumped curve; the last NZ lie beyond the measured range (zero)
NI, NIZ = 36, 2         # IF samples; the last NIZ are beyond the measured range (zero power)


class O(object):
    pass


def stub(c, m, home, name, f):
    c.patch(c.mod(home), name, f)
    c.patch_if(m, name, f)


def meta(c, np, tag=''):
    d = O()
    d.vgap, d.rn, d.rsg = c.real(tag + 'vgap', lo=2.75e-3, hi=2.85e-3), c.real(tag + 'rn', lo=1, hi=100), c.real(tag + 'rsg', lo=1, hi=9000)
    d.igap, d.fgap = d.vgap / d.rn, d.vgap * c.k(Fr(1602176634, 662607015) * 10 ** 14)
    d.offset, d.vint = (c.real(tag + 'vo', lo=-1e-4, hi=1e-4), c.real(tag + 'io', lo=-1e-6, hi=1e-6)), c.real(tag + 'vint', lo=-6e-4, hi=6e-4)
    d.vraw, d.iraw = np.array([0., 1.]), np.array([0., 1.])
    return d


def frac(c, x):
    return c.k(Fr(repr(x)))


def resp_stub(c, m):
    def f(*a, **k):
        r = O()
        r.args, r.kw = a, k
        return r
    stub(c, m, 'qmix.respfn', 'RespFnFromIVData', f)


def dcdata(c, m, dcif=True, **kw):
    np = c.np
    d = meta(c, np)
    v = np.array([frac(c, x) for x in GRID])
    i = np.array([c.real('c%d' % k, lo=x - 0.1, hi=x + 0.1) for k, x in enumerate(GRID)])
    ifd = np.array([[frac(c, 0.1 * k), c.real('p%d' % k, lo=1, hi=20)] for k in range(6)])
    ex = O()
    ex.if_noise, ex.corr, ex.vmax = c.real('noise', lo=-50, hi=90), c.real('corr', lo=0.1, hi=5), 1.
    ex.shot_slope, ex.if_fit = np.array([[c.real('sx%d' % k, lo=0, hi=2), c.real('sy%d' % k, lo=0, hi=60)] for k in range(3)]), True
    stub(c, m, 'qmix.exp.iv_data', 'dciv_curve', lambda *a, **k: (v, i, d))
    stub(c, m, 'qmix.exp.if_data', 'dcif_data', lambda *a, **k: (ifd, ex))
    resp_stub(c, m)
    raw = np.array([[1., 2.], [3., 4.]])
    kw.setdefault('verbose', False)
    return m.DCData(raw, raw if dcif else None, **kw)


def pumped(c, m, dc, freq, best=7, tag='', iff=True, noise_fit=True, emb=True, good=True, flat=False, **kw):
    np = c.np
    v = np.array([c.k(Fr(k, 16)) for k in range(NP)])
    i = np.array([c.real('%si%d' % (tag, k), lo=0.01 + k / 32., hi=0.05 + k / 32.) if 3 <= k < NP - NZ else c.k(0) for k in range(NP)])
    pos = list(range(NI))
    hot, cold = [], []
    for p in pos:
        z = p >= NI - NIZ
        hot.append(c.k(0) if z else c.real('%sh%d' % (tag, p), lo=0.5, hi=300))
        cold.append(c.k(0) if z else c.real('%sl%d' % (tag, p), lo=0.5, hi=300))
    res = np.array([[c.k(Fr(p, 16)), hot[p], cold[p], c.real('%st%d' % (tag, p), lo=1, hi=5000), c.real('%sg%d' % (tag, p), lo=0.01, hi=4)] for p in pos])
    ex = O()
    ex.if_noise, ex.corr, ex.vmax = c.real(tag + 'noise', lo=-50, hi=90), c.real(tag + 'corr', lo=0.1, hi=5), 1.
    ex.shot_slope, ex.if_fit = np.array([[c.real(tag + 's0'), c.real(tag + 's1')]]), noise_fit
    stub(c, m, 'qmix.exp.iv_data', 'iv_curve', lambda *a, **k: (v, i))
    stub(c, m, 'qmix.exp.if_data', 'if_data', lambda *a, **k: (res, best, ex))
    raw = np.array([[1., 2.], [3., 4.]])
    a = (raw, raw) if iff else ()
    x = m.PumpedData(raw, dc, *a, freq=freq, verbose=False, analyze_iv=False, **kw)
    if emb:
        x.zt = c.real(tag + 'zr', lo=0, hi=1) + 1j * c.real(tag + 'zx', lo=-1, hi=1)
        x.zw = c.real(tag + 'wr', lo=-1, hi=3) + 1j * c.real(tag + 'wx', lo=-2, hi=2)
        x.vt, x.alpha, x.fit_good = c.real(tag + 'vt', lo=0, hi=2), c.real(tag + 'alpha', lo=0, hi=2), good
    return x
