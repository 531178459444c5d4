"""C03: interpolated response matrix holds resp(vb + sum of photon steps)."""
import itertools
from checks.qtcommon import limits, circuit, voltages
EXPLANATION = ('interpolate_respfn executed symbolically, every entry compared with the (uninterpreted) response function at the entry\'s voltage; '
               'qtcurrent with the supplied matrix compared with qtcurrent building its own, over sequences of calls with changed circuits and response functions.')
BOUNDS = ('1-4 tones, limits 1-6 (int and per tone, unequal), 1-4 bias points, every symbolic frequency and bias voltage; histories of two calls on one circuit object '
          'with changed frequencies, bias points (all, or one at a time), response function or limits')
OUTSIDE = 'larger limits; longer call histories'
OPTS = dict(max_paths=200, samples=1)
BUDGET = dict(quick=150, thorough=700)


def cases(tier):
    out = []
    L = [(1, 3, 3), (1, (1,), 1), (1, (6, 2), 2), (2, 2, 2), (2, (3, 1), 3), (2, (1, 4), 1), (2, (2, 3, 9), 2), (3, (2, 1, 3), 2), (3, 1, 2), (3, (1, 3, 2), 1),
         (3, (3, 2, 1), 3), (4, (1, 2, 1, 3), 2), (4, 1, 1), (4, (2, 1, 3, 1), 1), (4, (3, 1, 1, 2), 3)]
    if tier == 'thorough':
        L += [(1, 20, 4), (2, (6, 7), 3), (3, (4, 3, 5), 2), (4, (3, 2, 4, 2), 2), (4, (2, 3, 2, 4), 2)]
    for nf, nb, npts in L:
        out.append(('matrix_f%d_%s_n%d' % (nf, nb if isinstance(nb, int) else '-'.join(map(str, nb)), npts), dict(what='matrix', nf=nf, num_b=nb, npts=npts)))
    for nf, nb in ((1, 3), (2, (2, 3)), (3, (1, 2, 1)), (4, (1, 1, 1, 1))):
        out.append(('history_f%d' % nf, dict(what='history', nf=nf, num_b=nb, npts=2)))
    for nf, nb, npts in ((1, 2, 5), (2, (1, 2), 3)):
        out.append(('points_f%d' % nf, dict(what='points', nf=nf, num_b=nb, npts=npts)))
    return out


def entries(c, label, r, resp, vb, freq, nb):
    npts = len(vb)
    c.check_shape(label + ': shape', r, tuple(2 * n + 1 for n in nb) + (npts,))
    for idx in itertools.product(*[range(-n, n + 1) for n in nb]):
        s = c.k(0)
        for f, k in enumerate(idx):
            s = s + k * freq[f + 1]
        for i in range(npts):
            c.check_eq(label, r[idx + (i,)], resp(vb[i] + s), observe=(idx == tuple(-n for n in nb)))


def run(c, what, nf, num_b, npts):
    np = c.np
    m = c.mod('qmix.qtcurrent')
    num_b = tuple(num_b) if isinstance(num_b, (list, tuple)) else num_b
    nb = limits(num_b, nf)
    if what == 'matrix':
        fr = [c.real('f%d' % k, lo=1e-4, hi=2) for k in range(nf)]
        vb = c.reals('vb', npts, lo=-3, hi=3)
        cct = circuit(c, nf, 1, npts, fr, vb)
        resp = c.resp('R')
        b0, b1 = c.copy(cct.vb), c.copy(cct.freq)
        r = m.interpolate_respfn(cct, resp, num_b)
        entries(c, 'entry', r, resp, cct.vb, cct.freq, nb)
        c.check_eq('bias unchanged', cct.vb, b0, observe=False)
        c.check_eq('frequencies unchanged', cct.freq, b1, observe=False)
        return
    if what == 'points':
        return points(c, m, np, nf, num_b, npts, nb)
    A = [0.3, 0.37, 0.455, 0.512]
    B = [0.31, 0.25, 0.4, 0.6]
    npts = 2
    vb = c.reals('vb', npts, lo=-3, hi=3)
    vb2 = c.reals('vc', npts, lo=-3, hi=3)
    cct = circuit(c, nf, 1, npts, A, vb)
    R, S = c.resp('R'), c.resp('S')
    vj, v = voltages(c, nf, 1, npts)

    def check(label, resp, num_b):
        lim = limits(num_b, nf)
        mat = m.interpolate_respfn(cct, resp, num_b)
        entries(c, label, mat, resp, cct.vb, cct.freq, lim)
        keep = c.copy(mat)
        fo = [0.0] + [float(A_) for A_ in F[:nf]]
        a = m.qtcurrent(vj, cct, resp, fo, num_b, verbose=False)
        b = m.qtcurrent(vj, cct, resp, fo, num_b, verbose=False, resp_matrix=mat)
        d = m.qtcurrent(vj, cct, None, fo, num_b, False, mat)
        c.check_eq(label + ': supplied matrix gives the same current', a, b, observe=False)
        c.check_eq(label + ': only the supplied matrix is used', d, b, observe=False)
        c.check_eq(label + ': supplied matrix unchanged', mat, keep, observe=False)
        return a

    def fresh(resp, num_b):
        m2 = c.mod('qmix.qtcurrent')
        other = circuit(c, nf, 1, npts, F, c.copy(cct.vb))
        return m2.qtcurrent(vj, other, resp, [0.0] + [float(x) for x in F[:nf]], num_b, verbose=False)
    F = A
    first = check('first call', R, num_b)
    check('other response function', S, num_b)
    for f in range(nf):
        cct.freq[f + 1] = B[f]
    F = B
    r = check('changed frequencies', R, num_b)
    c.check_eq('changed frequencies: same as a new circuit', r, fresh(R, num_b), observe=False)
    cct.vb[:] = vb2
    r = check('changed bias points', R, num_b)
    c.check_eq('changed bias points: same as a new circuit', r, fresh(R, num_b), observe=False)
    other = 1 if num_b != 1 else 2
    check('changed limits', R, other)
    F = A
    for f in range(nf):
        cct.freq[f + 1] = A[f]
    cct.vb[:] = vb
    r = check('back again', R, num_b)
    c.check_eq('same as the first time', r, first, observe=False)


def points(c, m, np, nf, num_b, npts, nb):
    """one bias point (each in turn, ends fixed or not) or one frequency changed between two calls on the same circuit object"""
    fr = [c.real('f%d' % k, lo=1e-4, hi=2) for k in range(nf)]
    cct = circuit(c, nf, 1, npts, fr, c.reals('vb', npts, lo=-3, hi=3))
    resp = c.resp('R')

    def look(label):
        entries(c, label, m.interpolate_respfn(cct, resp, num_b), resp, cct.vb, cct.freq, nb)
    look('first call')
    for i in range(npts):
        cct.vb[i] = c.real('w%d' % i, lo=-3, hi=3)
        look('bias point %d changed' % i)
    for f in range(nf):
        cct.freq[f + 1] = c.real('g%d' % f, lo=1e-4, hi=2)
        look('frequency %d changed' % (f + 1))
    t = cct.vb[0]
    cct.vb[0] = cct.vb[npts - 1]
    cct.vb[npts - 1] = t
    look('two bias points exchanged')
    cct.vb = c.reals('u', npts, lo=-3, hi=3)
    look('new bias sweep')
