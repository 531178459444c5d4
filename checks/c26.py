"""C26: a circuit holds exactly what was set, and locking freezes it."""
import os
import tempfile
from fractions import Fraction as Fr
from symx import tokens as _t
EXPLANATION = ('EmbeddingCircuit built, filled with symbolic values, locked, attacked through every setter and by item assignment, used (current, harmonic balance, saving), unlocked and '
               'changed again; all slots compared with copies after every step.')
BOUNDS = ('1-4 tones, 1-4 harmonics, 1-7 bias points; symbolic bias limits, frequencies, complex voltages and impedances, powers, drive levels; every single slot of every array attacked while locked; '
          'lock/unlock sequences up to length four, two circuits alive at the same time')
OUTSIDE = 'replacing a whole array attribute (cct.vt = ...) while locked; views taken before locking; printed text'
OPTS = dict(max_paths=200, samples=1, max_samples=4, tokens=_t.text())
BUDGET = dict(quick=150, thorough=400)


def cases(tier):
    s = [(1, 1, 1), (2, 2, 3), (4, 3, 2), (3, 1, 5)] + ([(1, 4, 7), (4, 4, 4)] if tier == 'thorough' else [])
    out = []
    for nf, npp, n in s:
        out.append(('new_%d%d%d' % (nf, npp, n), dict(what='new', nf=nf, npp=npp, n=n)))
        out.append(('lock_%d%d%d' % (nf, npp, n), dict(what='lock', nf=nf, npp=npp, n=n)))
    out.append(('default', dict(what='default', nf=1, npp=1, n=201)))
    out.append(('use_locked', dict(what='use', nf=1, npp=1, n=2)))
    out.append(('use_locked_2', dict(what='use', nf=2, npp=1, n=1)))
    out.append(('reject', dict(what='reject', nf=1, npp=1, n=1)))
    return out


def run(c, what, nf, npp, n):
    m = c.mod('qmix.circuit')
    globals()[what](c, m, c.np, nf, npp, n)


def empty(c, np, cct, nf, npp, n):
    c.check('tones and harmonics', cct.num_f == nf and cct.num_p == npp and cct.num_n == nf * npp and cct.vb_npts == n)
    for lab, a, sh in (('frequencies', cct.freq, (nf + 1,)), ('voltages', cct.vt, (nf + 1, npp + 1)), ('impedances', cct.zt, (nf + 1, npp + 1))):
        c.check_shape(lab, a, sh)
        c.check_eq(lab + ' are zero', a, np.zeros(sh))
    c.check('no names', [list(r) for r in cct.comment] == [[''] * (npp + 1)] * (nf + 1))


def build(c, m, nf, npp, n, tag=''):
    lo = c.real(tag + 'lo', lo=-3, hi=1)
    hi = c.real(tag + 'hi', lo=1.5, hi=4)
    return m.EmbeddingCircuit(nf, npp, vb_min=lo, vb_max=hi, vb_npts=n, vgap=c.real(tag + 'vgap', lo=2e-3, hi=3e-3), rn=c.real(tag + 'rn', lo=5, hi=20)), lo, hi


def fill(c, cct, nf, npp, tag=''):
    for f in range(1, nf + 1):
        cct.freq[f] = c.real('%sf%d' % (tag, f), lo=0.05, hi=2)
        for p in range(1, npp + 1):
            cct.vt[f, p] = c.cplx('%sv%d%d' % (tag, f, p), lo=-2, hi=2)
            cct.zt[f, p] = c.real('%sr%d%d' % (tag, f, p), lo=0.1, hi=3) + 1j * c.real('%sx%d%d' % (tag, f, p), lo=-2, hi=2)


def snap(c, cct):
    return [c.copy(getattr(cct, k)) for k in ('freq', 'vt', 'zt', 'vb')] + [[list(r) for r in cct.comment], cct.name, cct.vgap, cct.rn, cct.fgap, cct.igap]


def same(c, lab, cct, s):
    for k, x in zip(('freq', 'vt', 'zt', 'vb'), s):
        c.check_eq('%s: %s' % (lab, k), getattr(cct, k), x, observe=False)
    c.check(lab + ': names', [list(r) for r in cct.comment] == s[4] and cct.name == s[5])
    for k, x in zip(('vgap', 'rn', 'fgap', 'igap'), s[6:]):
        c.check('%s: %s' % (lab, k), getattr(cct, k) is None if x is None else getattr(cct, k) == x)


def new(c, m, np, nf, npp, n):
    a, lo, hi = build(c, m, nf, npp, n)
    b, _, _ = build(c, m, nf, npp, n, 'b')
    empty(c, np, a, nf, npp, n)
    c.check_shape('bias sweep', a.vb, (n,))
    for k in range(n):
        c.check_eq('evenly spaced bias sweep', a.vb[k] * max(n - 1, 1), lo * (max(n - 1, 1) - k) + hi * k)
    if n > 1:
        c.check_eq('ends at the upper limit', a.vb[n - 1], hi)
    fill(c, a, nf, npp)
    s = snap(c, a)
    empty(c, np, b, nf, npp, n)        # the other circuit is not affected
    vj = a.initialize_vj()
    c.check_shape('starting voltages', vj, (nf + 1, npp + 1, n))
    c.check_eq('starting voltages are zero', vj, np.zeros((nf + 1, npp + 1, n)))
    vj[1, 1] = 1
    c.check_eq('new array on every call', a.initialize_vj(), np.zeros((nf + 1, npp + 1, n)), observe=False)
    same(c, 'after initialize_vj', a, s)
    c.check_eq('photon voltages', a.vph, s[0])
    for f in range(1, nf + 1):
        for p in range(1, npp + 1):
            s[4][f][p] = 'tone %d %d' % (f, p)
            a.set_name(s[4][f][p], f, p)
            same(c, 'after set_name', a, s)
    s[4][1][1] = 'x'
    a.set_name('x')
    same(c, 'set_name without indices', a, s)
    empty(c, np, b, nf, npp, n)


def default(c, m, np, nf, npp, n):
    a = m.EmbeddingCircuit()
    empty(c, np, a, nf, npp, n)
    for k in range(n):
        c.check_eq('default bias sweep', a.vb[k] * 100, c.k(k))
    c.check('no junction properties', a.vgap is None and a.fgap is None and a.rn is None and a.igap is None)
    t = m.EmbeddingCircuit(name='abc')
    c.check('name', t.name == 'abc' and 'abc' in str(t))


def attack(c, cct, s, nf, npp, n, tag):
    """every way of changing the values of a locked circuit is refused and has no effect"""
    w = c.real(tag + 'w', lo=3, hi=4)

    def put(a, i):
        def f():
            a[i] = w
        return f
    for k in ('freq', 'vt', 'zt', 'vb'):
        a = getattr(cct, k)
        idx = range(a.shape[0]) if a.ndim == 1 else [(i, j) for i in range(a.shape[0]) for j in range(a.shape[1])]
        for i in idx:
            c.check_raises('locked: assignment to %s refused' % k, put(a, i))
        c.check_raises('locked: assignment to %s refused' % k, put(a, slice(None)))
        same(c, 'locked', cct, s)
    for f in range(1, nf + 1):
        for u in ('GHz', 'V', 'norm'):
            c.check_raises('locked: set_freq refused', lambda: cct.set_freq(w, f, u))
        for p in range(1, npp + 1):
            c.check_raises('locked: set_alpha refused', lambda: cct.set_alpha(w, f, p))
            c.check_raises('locked: set_available_power refused', lambda: cct.set_available_power(w * Fr(1, 10 ** 9) if c.symbolic else w * 1e-9, f, p))
            c.check_raises('locked: set_available_power refused', lambda: cct.set_available_power(w, f, p, 'dBm'))
    same(c, 'locked', cct, s)


def lock(c, m, np, nf, npp, n):
    a, _, _ = build(c, m, nf, npp, n)
    b, _, _ = build(c, m, nf, npp, n, 'b')
    fill(c, a, nf, npp)
    s, sb = snap(c, a), snap(c, b)
    pw = [[a.available_power(f, p) for p in range(1, npp + 1)] for f in range(1, nf + 1)]
    a.lock()
    same(c, 'after lock', a, s)
    attack(c, a, s, nf, npp, n, 'a')
    for f in range(nf):
        for p in range(npp):
            c.check_eq('power can be read while locked', a.available_power(f + 1, p + 1) * 1e9, pw[f][p] * 1e9)
    a.set_name('n', 1, 1)
    s[4][1][1] = 'n'
    fill(c, b, nf, npp, 'c')      # another circuit is not locked
    a.lock()
    attack(c, a, s, nf, npp, n, 'b')
    a.unlock()
    same(c, 'after unlock', a, s)
    fill(c, a, nf, npp, 'd')
    a.vb[0] = c.real('vb0', lo=-1, hi=1)
    a.freq[0] = a.freq[0]
    s = snap(c, a)
    for f in range(1, nf + 1):
        c.check_eq('changes after unlocking', a.freq[f], c.real('df%d' % f, lo=0.05, hi=2))
    al = c.real('al', lo=0.1, hi=2)
    a.set_alpha(al, 1, 1)
    s[1] = c.copy(a.vt)
    a.lock()
    same(c, 'locked again', a, s)
    attack(c, a, s, nf, npp, n, 'c')
    a.unlock()
    a.unlock()
    same(c, 'unlocked', a, s)
    a.set_freq(c.real('g', lo=0.1, hi=1), 1, 'norm')
    c.check_eq('set after unlocking', a.freq[1], c.real('g', lo=0.1, hi=1))


def use(c, m, np, nf, npp, n):
    """a locked circuit computes the same as an unlocked one"""
    qt = c.mod('qmix.qtcurrent')
    r = c.resp('R')
    a, _, _ = build(c, m, nf, npp, n)
    b, _, _ = build(c, m, nf, npp, n)
    for x in (a, b):
        for f in range(1, nf + 1):
            x.freq[f] = 0.3 + 0.07 * f
            x.vt[f, 1] = c.cplx('v%d' % f, lo=-2, hi=2)
            x.zt[f, 1] = c.cplx('z%d' % f, lo=0.1, hi=2)
    a.lock()
    s = snap(c, a)
    vj = a.initialize_vj()
    for f in range(1, nf + 1):
        for i in range(n):
            vj[f, 1, i] = c.polar('j%d%d' % (f, i), lo=0.05, hi=2)
    fo = [0.0] + [float(0.3 + 0.07 * f) for f in range(1, nf + 1)]
    c.check_eq('current of a locked circuit', qt.qtcurrent(vj, a, r, fo, 1, verbose=False), qt.qtcurrent(vj, b, r, fo, 1, verbose=False))
    c.check_eq('response matrix of a locked circuit', qt.interpolate_respfn(a, r, 2), qt.interpolate_respfn(b, r, 2))
    same(c, 'after the calculation', a, s)
    d = tempfile.mkdtemp(prefix='qmixc26')
    try:
        fn = os.path.join(d, 'a.txt')
        a.save_info(fn)
        x = m.read_circuit(fn)
    finally:
        for y in os.listdir(d):
            os.remove(os.path.join(d, y))
        os.rmdir(d)
    for f in range(1, nf + 1):
        e = x.vt[f, 1] - a.vt[f, 1]
        c.check('locked circuit can be saved', c.and_(c.le(e.real, 0.5e-4), c.le(-e.real, 0.5e-4), c.le(e.imag, 0.5e-4), c.le(-e.imag, 0.5e-4)))
    x.vt[1, 1] = 1      # what was read back is not locked
    same(c, 'after saving', a, s)


def reject(c, m, np, nf, npp, n):
    E = m.EmbeddingCircuit
    for lab, f in (('no tones', lambda: E(0, 1)), ('five tones', lambda: E(5, 1)), ('no harmonics', lambda: E(1, 0)), ('negative harmonics', lambda: E(2, -1)), ('fractional harmonics', lambda: E(1, 1.5)),
                   ('no bias points', lambda: E(1, 1, vb_npts=0)), ('fractional bias points', lambda: E(1, 1, vb_npts=2.5)), ('reversed sweep', lambda: E(1, 1, vb_min=2, vb_max=1))):
        c.check_raises(lab + ' rejected', f)
    lo, hi = c.real('lo', lo=1, hi=2), c.real('hi', lo=-1, hi=0.99)
    c.check_raises('reversed sweep rejected', lambda: E(1, 1, vb_min=lo, vb_max=hi))
    for f in range(1, 5):
        for p in range(1, 4):
            x = E(f, p, vb_npts=2)
            empty(c, np, x, f, p, 2)
