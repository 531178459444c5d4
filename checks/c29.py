"""C29: printed reports state the computed values, and verbosity never changes a result."""
import re
from fractions import Fraction as Fr
from checks.figcommon import NUM, near, printed, numbers
from checks.datacommon import dcdata, O
from checks.hbcommon import Junction, Resp, newton_step, start, residual, same_circuit, snapshot
from checks import hbcommon
from checks.respcommon import small_grid, all_points
from symx import tokens as _t
EXPLANATION = ('the reporting code executed symbolically with printing captured: every printed number is a token that parses to an arbitrary real within half a unit of the last printed digit and is compared with the '
               'value it is labelled as; every routine with a verbose option is run with it on and off on the same symbolic inputs and the results are compared.')
BOUNDS = ('circuits with 1-2 tones and harmonics with and without junction properties; dc data with and without IF noise; impedance recovery on 4 bias points (given and searched embedding impedance); IF reports on 5 samples; '
          'harmonic balance with 1-2 unknowns, 1-3 points, 0-1 iterations; currents with 1-4 tones; response functions on a 36-point grid')
OUTSIDE = 'timings, progress bars, colours, wording'
OPTS = dict(max_paths=300, samples=1, max_samples=4, tokens=_t.text(), nl_ms=8000)
BUDGET = dict(quick=250, thorough=600)


def cases(tier):
    out = []
    add = lambda name, what, **k: out.append((name, dict(what=what, **k)))
    for nf, npp in ((1, 1), (2, 2), (1, 3)):
        add('circuit_%d%d' % (nf, npp), 'cct', nf=nf, npp=npp, props=True)
    add('circuit_bare', 'cct', nf=2, npp=1, props=False)
    add('circuit_no_rn', 'cct', nf=1, npp=2, props='vgap')
    add('dc', 'dc', iff=True)
    add('dc_noif', 'dc', iff=False)
    add('recover', 'recover')
    add('recover_forced', 'recover', forced=True)
    add('recover_bad', 'recover', bad=True)
    add('if_given', 'ifr')
    add('if_vbest', 'ifr', vbest=True)
    for nf, npp, n, it in ((1, 1, 1, 0), (1, 1, 2, 1), (2, 1, 1, 1), (1, 2, 3, 0)) + (((1, 1, 3, 1), (2, 2, 1, 0)) if tier == 'thorough' else ()):
        for mode in 'oxm' if (n, it) == (2, 1) else 'x':
            add('hb_%d%d%d_it%d_%s' % (nf, npp, n, it, mode), 'hb', nf=nf, npp=npp, n=n, it=it, mode=mode)
    add('hb_no_zt', 'hb_zero')
    add('hb_check_1', 'check', nf=1, npp=2, n=2)
    add('hb_check_2', 'check', nf=2, npp=1, n=1)
    for nf in (1, 2, 3, 4):
        add('current_%d' % nf, 'qt', nf=nf)
    add('terminal', 'terminal')
    add('respfn', 'respfn')
    add('respfn_smear', 'respfn', smear=True)
    add('respfn_perfect', 'respfn_kind', kind='RespFnPerfect')
    add('respfn_poly', 'respfn_kind', kind='RespFnPolynomial')
    return out


def run(c, what, **k):
    globals()[what](c, c.np, **k)


def lines(text):
    return re.sub('\x1b\\[[0-9;]*m', '', text).split('\n')


def num(c, label, ls, pick, value, digits, k=0):
    """the one line picked out reports this value"""
    hit = [l for l in ls if pick(l)]
    c.check(label + ' is reported once', len(hit) == 1)
    if len(hit) == 1:
        printed(c, label, hit[0], value, digits, k)


def has(*s):
    return lambda l: all(x in l for x in s)


# ---------------------------------------------------------------- circuits

def cct(c, np, nf, npp, props):
    m = c.mod('qmix.circuit')
    kw = {}
    if props:
        kw['vgap'] = c.real('vgap', lo=2e-3, hi=3e-3)
    if props is True:
        kw['rn'] = c.real('rn', lo=5, hi=20)
    x = m.EmbeddingCircuit(nf, npp, vb_npts=3, **kw)
    for f in range(1, nf + 1):
        x.freq[f] = c.real('f%d' % f, lo=0.05, hi=2)
        for p in range(1, npp + 1):
            x.vt[f, p] = c.real('v%d%d' % (f, p), lo=0.01, hi=2) + (1j * c.real('w%d%d' % (f, p), lo=-1, hi=1) if f == 1 else 0)
            x.zt[f, p] = c.real('r%d%d' % (f, p), lo=0.1, hi=3) + 1j * c.real('x%d%d' % (f, p), lo=-2, hi=2)
            x.set_name('name-%s' % 'abcdefghi'[3 * f + p - 4], f, p)
    s = snapshot(c, x)
    r, text = c.capture(x.print_info)
    same_circuit(c, x, s)
    blocks, cur = {}, None
    for l in lines(text):
        h = re.match(r'\s*f=(\d+), p=(\d+)\s+(.*)', l)
        if h:
            cur = blocks[int(h.group(1)), int(h.group(2))] = [h.group(3)]
        elif cur is not None and l.strip():
            cur.append(l)
    c.check('one block per tone and harmonic', sorted(blocks) == [(f, p) for f in range(1, nf + 1) for p in range(1, npp + 1)])
    for (f, p), b in sorted(blocks.items()):
        fr, v, z = x.freq[f], x.vt[f, p], x.zt[f, p]
        lab = 'f%d p%d ' % (f, p)
        if props is True:
            printed(c, lab + 'frequency in GHz', b[0], fr * x.fgap / 10 ** 9, 1)
            num(c, lab + 'voltage in photon voltages', b, has('Vph'), v.real / (fr * p), 4)
            w = abs(v * x.vgap) ** 2 / (8 * z.real * x.rn)
            hit = [l for l in b if l.strip().endswith(' W')]
            c.check(lab + 'power in W', len(hit) == 1)
            if hit:
                d = (numbers(c, hit[0])[0] - w) * 10 ** 9
                h = w * (10 ** 9 * 0.00501)
                c.check(lab + 'power in W', c.and_(c.le(d, h), c.le(-d, h)))
            num(c, lab + 'power in dBm', b, has('dBm'), 10 * np.log10(w * 1000), 3)
        else:
            printed(c, lab + 'normalised frequency', b[0], fr, 4)
        c.check(lab + 'harmonic', re.search(r'x %d\b' % p, b[0]) is not None)
        c.check(lab + 'name', 'name-%s' % 'abcdefghi'[3 * f + p - 4] in b[0])
        num(c, lab + 'voltage', b, has('Vgap'), v.real, 4)
        num(c, lab + 'impedance', b, has('Rn'), z, 2)


# ---------------------------------------------------------------- dc data

def dc(c, np, iff):
    m = c.mod('qmix.exp.exp_data')
    d = dcdata(c, m, dcif=iff, **dict(area=c.real('area', lo=0.3, hi=9)))
    for text in (str(d), c.capture(d.print_info)[1]):
        ls = [l.strip() for l in lines(text)]
        st = lambda s: lambda l: l.startswith(s)
        num(c, 'gap voltage', ls, st('Vgap'), d.vgap * 1000, 2)
        num(c, 'gap frequency', ls, st('fgap'), d.fgap / 10 ** 9, 2)
        num(c, 'normal resistance', ls, st('Rn'), d.rn, 2)
        num(c, 'subgap resistance', ls, st('Rsg'), d.rsg, 2)
        num(c, 'quality factor', ls, st('Q'), d.rsg / d.rn, 2)
        num(c, 'current density', ls, lambda l: l.startswith('Jc') and 'kA/cm' in l, d.vgap / d.rn / (d.area_um2() if hasattr(d, 'area_um2') else c.real('area', lo=0.3, hi=9)) * 10 ** 5, 2)
        num(c, 'leakage current', ls, st('Ileak'), np.interp(c.k(Fr(2, 1000)) / d.vgap, d.voltage, d.current) * d.igap * 10 ** 6, 2)
        num(c, 'voltage offset', ls, st('Offset'), d.offset[0] * 1000, 2)
        k = [i for i, l in enumerate(ls) if l.startswith('Offset')]
        c.check('current offset follows', len(k) == 1 and k[0] + 1 < len(ls))
        if k and k[0] + 1 < len(ls):
            printed(c, 'current offset', ls[k[0] + 1], d.offset[1] * 10 ** 6, 2)
        num(c, 'intercept voltage', ls, st('Vint'), d.vint * 1000, 2)
        if iff:
            num(c, 'IF noise', ls, st('IF noise'), d.if_noise, 2)
        else:
            c.check('no IF noise', not [l for l in ls if 'IF noise' in l])
    e, _ = c.capture(lambda: dcdata(c, m, dcif=iff, verbose=True, area=c.real('area', lo=0.3, hi=9)))
    for k in ('voltage', 'current', 'vgap', 'rn', 'rsg', 'igap', 'fgap', 'vint', 'if_noise'):
        if getattr(d, k, None) is not None:
            c.check_eq('verbosity does not change ' + k, getattr(e, k), getattr(d, k), observe=False)
    t = repr(d)
    printed(c, 'gap voltage in the short form', t, d.vgap * 1000, 2)
    printed(c, 'resistance in the short form', t, d.rn, 2, 1)


# ---------------------------------------------------------------- impedance recovery

def recover(c, np, forced=False, bad=False):
    m = c.mod('qmix.exp.exp_data')
    vgap, rn = c.real('vgap', lo=2.5e-3, hi=3e-3), c.real('rn', lo=5, hi=30)
    d = O()
    d.dc = O()
    for x in (d, d.dc):
        x.vgap, x.rn, x.igap, x.fgap, x.vint, x.offset = vgap, rn, vgap / rn, c.k(7 * 10 ** 11), c.k(0), (0., 0.)
    grid = [0.72, 0.8, 0.85, 0.9, 1.2]
    n = 4
    d.voltage, d.current, d.dcif, d.resp = np.array(grid), np.array(grid), None, O()
    cur = np.array([c.real('i%d' % i, lo=0.1, hi=1) for i in range(5)])
    al = [c.real('a%d' % i, lo=0.2, hi=2) for i in range(n)]
    z = [c.real('zr%d' % i, lo=0.2, hi=2) + 1j * c.real('zx%d' % i, lo=-1, hi=1) for i in range(n)]
    names = ('_find_alpha', '_find_ac_current', 'iv_curve', 'slope_span_n', '_error_function', '_find_source_voltage')
    if not all(callable(getattr(m, x, None)) for x in names):
        return
    c.patch(m, 'iv_curve', lambda *a, **k: (np.array(grid), cur))
    c.patch(m, 'slope_span_n', lambda x, *a, **k: x * 0)
    c.patch(m, '_find_alpha', lambda d, v, i, vp, **k: np.array(al[:len(v)]))
    c.patch(m, '_find_ac_current', lambda r, v, vp, a, **k: np.array([x * vp / w for x, w in zip(al, z)][:len(v)]))
    err = Fr(1, 10) if bad else Fr(1, 10 ** 12)

    def error(v, w, zs):
        zs = complex(zs) if not c.symbolic else zs
        q = 1e-2 * (abs(complex(zs) - (0.35 + 0.21j)))
        return float(err) + q * q
    c.patch(m, '_error_function', error)
    vt = c.real('vt', lo=0.05, hi=2)
    c.patch(m, '_find_source_voltage', lambda v, w, zs: vt)
    kw = dict(freq=210., analyze_if=False)
    if forced:
        kw['zemb'] = c.real('er', lo=0.1, hi=1) + 1j * c.real('ex', lo=-1, hi=1)
    raw = np.zeros((3, 2))
    p, text = c.capture(lambda: m.PumpedData(raw, d, verbose=True, **kw))
    q = m.PumpedData(raw, d, verbose=False, **kw)
    for k in ('zt', 'vt', 'zw', 'alpha', 'vph'):
        c.check_eq('verbosity does not change ' + k, getattr(p, k), getattr(q, k))
    c.check('verbosity does not change the flag', bool(p.fit_good) == bool(q.fit_good))
    ls = [l.strip() for l in lines(text)]
    num(c, 'LO frequency', ls, has('Frequency'), c.k(210), 1)
    c.check('fit verdict', len([l for l in ls if 'good fit' in l]) == (0 if bad else 1) and len([l for l in ls if 'bad fit' in l]) == (1 if bad else 0) and bool(p.fit_good) == (not bad))
    k = [i for i, l in enumerate(ls) if 'junction' in l]
    c.check('two sections', len(k) == 1)
    if len(k) != 1:
        return
    e, j = ls[:k[0]], ls[k[0]:]
    num(c, 'embedding voltage', e, has('voltage', 'Vgap'), p.vt, 2)
    num(c, 'embedding impedance', e, has('impedance', 'Rn'), p.zt, 2)
    num(c, 'available power', e, has('power', 'nW'), (p.vt * vgap) ** 2 / (8 * p.zt.real * rn) * 10 ** 9, 2)
    num(c, 'drive level', j, has('drive level'), p.alpha, 2)
    num(c, 'junction impedance', j, has('impedance', 'Rn'), p.zw, 2)
    num(c, 'delivered power', j, has('power', 'nW'), (p.alpha * p.vph * vgap) ** 2 / (2 * p.zw.real * rn) * 10 ** 9, 2)


# ---------------------------------------------------------------- IF data

def ifr(c, np, vbest=False):
    m = c.mod('qmix.exp.if_data')
    d = O()
    d.vgap, d.offset, d.vint = c.k(Fr(28, 10000)), (0., 0.), c.k(Fr(2, 10000))
    n = 5
    v = [c.k(k) for k in range(n)]
    C = [c.real('c%d' % k, lo=0.5, hi=3) for k in range(n)]
    H = [a + c.real('d%d' % k, lo=0.1, hi=3) for k, a in enumerate(C)]
    hot, cold = np.array([[a, b] for a, b in zip(v, H)]), np.array([[a, b] for a, b in zip(v, C)])
    noise, corr = c.real('noise', lo=-20, hi=60), c.real('corr', lo=0.3, hi=3)
    kw = dict(freq=230., vmax=4e-3, ifdata_npts=n, ifdata_sigma=None, v_fmt='mV', dcif=m.DCIFData(if_noise=noise, corr=corr, if_fit=True, shot_slope=None, vmax=4e-3))
    if vbest:
        kw['vbest'] = 2e-3
    (x, idx, r), text = c.capture(lambda: m.if_data(c.copy(hot), c.copy(cold), d, verbose=True, **kw))
    y, idy, s = m.if_data(c.copy(hot), c.copy(cold), d, verbose=False, **kw)
    c.check_eq('verbosity does not change the results', x, y, observe=False)
    c.check_eq('verbosity does not change the best point', idx, idy)
    c.check_eq('verbosity does not change the noise', r.if_noise, s.if_noise)
    ls = [l.strip() for l in lines(text)]
    num(c, 'IF noise', ls, has('IF noise', 'K'), r.if_noise, 2)
    num(c, 'noise temperature', ls, has('noise temp', 'K'), x[idx, 3], 1)
    num(c, 'gain', ls, has('gain', 'dB'), 10 * np.log10(x[idx, 4]), 2)


# ---------------------------------------------------------------- harmonic balance

def hb(c, np, nf, npp, n, it, mode):
    h = c.mod('qmix.harmonic_balance')
    jn = Junction(c)
    jn.install(h, n)
    x = hbcommon.circuit(c, nf, npp, n)
    resp = Resp('R')
    stop = c.real('stop', lo=1e-6, hi=0.5)
    kw = dict(num_b=2, max_it=it, stop_rerror=stop, mode=mode)
    newton_step(c)
    s = snapshot(c, x)
    a, text = c.capture(lambda: h.harmonic_balance(x, resp, verbose=True, vj_initial=start(c, x), **kw))
    same_circuit(c, x, s)
    newton_step(c)
    b = h.harmonic_balance(x, resp, verbose=False, vj_initial=start(c, x), **kw)
    if mode == 'o':
        a, b = (a,), (b,)
    c.check('same kind of result', len(a) == len(b))
    c.check_eq('same voltages', a[0], b[0], observe=False)
    if mode == 'x':
        c.check('same iteration count and flag', a[1] == b[1] and bool(a[2]) == bool(b[2]))
    if mode == 'm':
        for i in range(n):
            c.check('same flags', c.not_(c.xor(a[1][i], b[1][i])) if hasattr(c, 'xor') else c.or_(c.and_(a[1][i], b[1][i]), c.and_(c.not_(a[1][i]), c.not_(b[1][i]))))
    v = a[0]
    res = residual(c, x, jn, v, resp, 2)
    found = {}
    for l in lines(text):
        q = re.match(r'\s*f:(\d+), p:(\d+),(.*)', l)
        if q:
            found[int(q.group(1)), int(q.group(2))] = q.group(3)     # the last report counts
    c.check('every tone and harmonic is reported', sorted(found) == [(f, p) for f in range(1, nf + 1) for p in range(1, npp + 1)])
    for (f, p), l in found.items():
        k = numbers(c, l)
        c.check('three numbers', len(k) == 3)
        if len(k) != 3:
            continue
        e = [abs(res[f, p, i]) / abs(v[f, p, i]) for i in range(n)]
        top = e[0]
        for q in e[1:]:
            top = c.ite(q > top, q, top) if c.symbolic else max(q, top)
        c.assume(c.and_(*[q <= 99999 for q in e]))
        near(c, 'largest relative error', k[1], top, 0.501e-3)
        if n == 1:
            near(c, 'median relative error', k[0], e[0], 0.501e-3)
        cnt = sum((c.ite(q < stop, c.k(1), c.k(0)) if c.symbolic else int(q < stop)) for q in e)
        near(c, 'share of finished points', k[2] * n, cnt * 100, 0.0501 * n)


def hb_zero(c, np):
    h = c.mod('qmix.harmonic_balance')
    Junction(c).install(h, 2)
    x = hbcommon.circuit(c, 1, 1, 2, zero_zt=((1, 1),))
    for mode in 'oxm':
        a, _ = c.capture(lambda: h.harmonic_balance(x, Resp('R'), 2, mode=mode, verbose=True))
        b = h.harmonic_balance(x, Resp('R'), 2, mode=mode, verbose=False)
        if mode == 'o':
            a, b = (a,), (b,)
        c.check_eq('same voltages', a[0], b[0])
        c.check('same kind of result', len(a) == len(b))


def check(c, np, nf, npp, n):
    h = c.mod('qmix.harmonic_balance')
    jn = Junction(c)
    jn.install(h, n)
    x = hbcommon.circuit(c, nf, npp, n)
    resp = Resp('R')
    v = start(c, x)
    stop = c.real('stop', lo=1e-6, hi=0.5)
    res = residual(c, x, jn, v, resp, 2)
    out = []

    def call():
        try:
            h.check_hb_error(v, x, resp, 2, stop)
        except AssertionError:
            return False
        return True
    good, text = c.capture(call)
    rows = [re.match(r'\s*f:(\d+),\s+p:(\d+),(.*)Pass\? (\w+)', l) for l in lines(text)]
    rows = [r for r in rows if r]
    c.check('report stops at the first failure', (len(rows) == nf * npp and all(r.group(4) == 'Yes' for r in rows)) if good else (len(rows) > 0 and [r.group(4) for r in rows] == ['Yes'] * (len(rows) - 1) + ['No']))
    for r in rows:
        f, p = int(r.group(1)), int(r.group(2))
        k = numbers(c, r.group(3))
        c.check('one error per row', len(k) == 1)
        e = [abs(res[f, p, i]) / abs(v[f, p, i]) for i in range(n)]
        top = e[0]
        for q in e[1:]:
            top = c.ite(q > top, q, top) if c.symbolic else max(q, top)
        d = k[0] - top
        c.check('largest relative error', c.and_(c.le(d, top * 0.00501), c.le(-d, top * 0.00501)))


# ---------------------------------------------------------------- currents and response functions

def qt(c, np, nf):
    m = c.mod('qmix.qtcurrent')
    x = c.mod('qmix.circuit').EmbeddingCircuit(nf, 1, vb_npts=1)
    fr = [0.3, 0.37, 0.455, 0.512][:nf]
    x.vb = c.reals('vb', 1, lo=-3, hi=3)
    vj = x.initialize_vj()
    for k, f in enumerate(fr, 1):
        x.freq[k] = f
        vj[k, 1, 0] = c.polar('j%d' % k, lo=1e-6, hi=2)
    resp = c.resp('R')
    for fo in ([0.0] + fr, 0.0, fr[0]):
        a, text = c.capture(lambda: m.qtcurrent(vj, x, resp, fo, 1, verbose=True))
        c.check_eq('verbosity does not change the current', a, m.qtcurrent(vj, x, resp, fo, 1, verbose=False))
    ls = lines(text)
    c.check('tones and harmonics are reported', len([l for l in ls if re.search(r'\b%d tone' % nf, l)]) == 1 and len([l for l in ls if re.search(r'\b1 harmonic', l)]) == 1)


def terminal(c, np):
    t = c.mod('qmix.misc.terminal')
    out = lambda f, *a, **k: re.sub('\x1b\\[[0-9;]*m', '', c.capture(lambda: f(*a, **k))[1]).rstrip('\n')
    x, p, q = c.real('x', lo=-500, hi=500), c.real('p', lo=1e-3, hi=80), c.real('q', lo=1e-3, hi=80)
    for col in (None, 'RED', 'green'):
        for units in ('', 'mV'):
            for note in ('', 'why'):
                for z in (x, p + 1j * q, p - 1j * q, -p - 1j * q):
                    for f, dig in ((t.pvalf, 3), (t.pvale, None)):
                        s = out(f, 'name', z, units, note, color=col)
                        c.check('name, units and comment', s.strip().startswith('name') and ('[mV]' in s) == bool(units) and ('# why' in s) == bool(note))
                        if dig is None and z is not x:
                            continue
                        if z is x:
                            k = numbers(c, s.split('=')[1])[0]
                            if dig is None:
                                h = abs(x) * 0.0501
                                c.check('printed value', c.and_(c.le(k - x, h), c.le(x - k, h)))
                            else:
                                near(c, 'printed value', k, x, 0.000501)
                        else:
                            split_complex(c, s.split('=')[1], z, 0.000501)
    for z in (p + 1j * q, p - 1j * q, -p - 1j * q, -p + 1j * q):
        split_complex(c, t.printc(z), z, 0.00501)
    for n in range(0, 59):
        s = out(t.title, 'T' * n).split('\n')[0]
        c.check('title line is 60 wide with its text in the middle', len(s) == 60 and s.strip('*') == ' %s ' % ('T' * n) and abs(len(s) - len(s.lstrip('*')) - (len(s) - len(s.rstrip('*')))) <= 1)
    c.check('header', out(t.header, 'HEAD').strip().startswith('HEAD:'))
    c.check('text is printed as it is', out(t.cprint, 'hello', None) == 'hello' and out(t.cprint, 'hello', 'CYAN') == 'hello' and out(t.cprint, 'hello') == 'hello' and 'hello' in out(t.cprint, 'hello', 'nocolour'))


def split_complex(c, s, z, h):
    """real part, sign, j, imaginary part"""
    m = re.match(r'^(.*) ([-+]) j(.*)$', s.split('[')[0].split('#')[0].strip())
    c.check('printed complex value', m is not None)
    if m:
        near(c, 'printed real part', c.text_number(m.group(1).strip()), z.real, h)
        im = c.text_number(m.group(3).strip())
        near(c, 'printed imaginary part', -im if m.group(2) == '-' else im, z.imag, h)


def tables(c, a, b):
    for k in ('voltage', 'current', 'voltage_kk', 'current_kk'):
        c.check_eq('verbosity does not change ' + k, getattr(a, k), getattr(b, k), observe=False)
    for q in (0.31, -1.7, 4.2):
        c.check_eq('verbosity does not change the response', a(q), b(q), observe=False)


def respfn(c, np, smear=False):
    r = c.mod('qmix.respfn')
    v = small_grid(c, r, keep=all_points)
    i = np.array([c.real('i%d' % k, lo=0.9 * k, hi=0.9 * k + 0.4) if k in (1, 2, 3, 20) else c.k(k) for k in range(len(v))])
    kw = dict(v_smear=0.6) if smear else {}
    a, text = c.capture(lambda: r.RespFn(v, i, verbose=True, **kw))
    b = r.RespFn(v, i, verbose=False, **kw)
    tables(c, a, b)
    ls = [l.strip() for l in lines(text)]
    k = [j for j, l in enumerate(ls) if 'npts' in l]
    c.check('numbers of interpolation points', len(k) == 2 and all(re.search(r'\b%d\b' % len(a.voltage), ls[j]) for j in k))
    if smear:
        num(c, 'smear', ls, has('smear'), c.k(Fr(6, 10)), 4)
    for name in ('avg. error', 'max. error'):
        hit = [l for l in ls if name in l]
        c.check(name + ' of both curves', len(hit) == 2)
        for l in hit:
            near(c, name + ' (interpolation through every point)', numbers(c, l)[0], 0, 1e-3)


def respfn_kind(c, np, kind):
    r = c.mod('qmix.respfn')
    small_grid(c, r, keep=all_points)
    f = getattr(r, kind)
    arg = (5,) if kind != 'RespFnPerfect' else ()
    for kw in ({}, dict(v_smear=0.6)):
        a, _ = c.capture(lambda: f(*arg, verbose=True, **kw))
        tables(c, a, f(*arg, verbose=False, **kw))
