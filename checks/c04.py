"""C04: tunneling current is tone-order, padding and time-origin invariant."""
import itertools
from checks.qtcommon import limits, circuit, voltages
EXPLANATION = ('Pairs of symbolic qtcurrent runs related by relabelling tones, adding silent tones or harmonics, shifting the time origin (symbolic unit phase per tone) '
               'or combining response functions linearly; outputs compared as identities over uninterpreted Bessel and response functions.')
BOUNDS = ('1-4 tones, 1-3 harmonics, limits 1-4, 1-2 bias points, concrete incommensurate and degenerate frequency sets (2*f1 = f2), every complex voltage 1e-9 to 2.5 in magnitude, '
          'every phase, every bias voltage, every linear combination of two response functions')
OUTSIDE = 'larger limits; symbolic frequencies'
OPTS = dict(max_paths=200, samples=1)
BUDGET = dict(quick=200, thorough=800)

A = [0.3, 0.37, 0.455, 0.512]


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, dict(dict(what='perm', nf=2, num_p=1, num_b=[2, 3], perm=[1, 0], freqs=A, fout=None, zero=[], npts=1), **k)))
    add('perm2', npts=2)
    add('perm2_p2', num_p=2, num_b=[2, 1], zero=[[2, 1]])
    add('perm2_p2b', num_p=2, num_b=[1, 2])
    add('perm2_degenerate', num_p=2, num_b=[2, 2], freqs=[0.2, 0.4], zero=[[1, 2], [2, 2]], fout=[0.2, 0.4, 0.6])
    for pm in itertools.permutations(range(3)):
        if pm != (0, 1, 2):
            add('perm3_%d%d%d' % pm, nf=3, num_b=[2, 1, 1], perm=list(pm), fout=[0.0, 0.3, 0.37, 0.455, 0.085, 0.155])
    add('perm3_degenerate', nf=3, num_b=[1, 2, 1], perm=[2, 0, 1], freqs=[0.2, 0.3, 0.5], fout=[0.5, 0.2, 0.3])
    for pm in ((1, 0, 2, 3), (0, 2, 1, 3), (0, 1, 3, 2), (3, 0, 1, 2)):
        add('perm4_%d%d%d%d' % pm, nf=4, num_b=[2, 1, 1, 1] if pm[0] else [1, 1, 2, 1], perm=list(pm), fout=[0.0, 0.3, 0.455, 0.07])
    for nf in (1, 2, 3):
        add('addtone_%d' % nf, what='addtone', nf=nf, num_b=[2, 3, 1, 2][:nf + 1], perm=None, npts=2 if nf < 3 else 1)
    add('addtone_p2', what='addtone', nf=1, num_p=2, num_b=[3, 1])
    add('addtone_1to3', what='addtone2', nf=1, num_b=[3, 1, 2])
    add('addtone_2to4', what='addtone2', nf=2, num_b=[2, 1, 1, 1])
    add('addharm_1', what='addharm', nf=1, num_b=[4])
    add('addharm_1p2', what='addharm', nf=1, num_p=2, num_b=[3])
    add('addharm_2', what='addharm', nf=2, num_b=[2, 3])
    add('addharm_3', what='addharm', nf=3, num_b=[1, 2, 1])
    add('addharm_4', what='addharm', nf=4, num_b=[1, 1, 1, 1])
    add('shift_1p2', what='shift', nf=1, num_p=2, num_b=[3], npts=2)
    add('shift_1p3', what='shift', nf=1, num_p=3, num_b=[2])
    add('shift_2', what='shift', nf=2, num_b=[2, 3])
    add('shift_2p2', what='shift', nf=2, num_p=2, num_b=[1, 2], zero=[[1, 2]])
    add('shift_3', what='shift', nf=3, num_b=[1, 2, 1])
    add('shift_4', what='shift', nf=4, num_b=[1, 1, 2, 1])
    add('linear_1', what='linear', nf=1, num_p=2, num_b=[3])
    add('linear_2', what='linear', nf=2, num_b=[3, 2])
    add('linear_3', what='linear', nf=3, num_b=[1, 2, 1])
    add('linear_4', what='linear', nf=4, num_b=[1, 1, 1, 1])
    if tier == 'thorough':
        add('perm2_p2_T', num_p=2, num_b=[3, 2])
        add('perm2_p3_T', num_p=3, num_b=[2, 3], zero=[[1, 2], [2, 1]])
        for pm in itertools.permutations(range(4)):
            add('perm4_T_%d%d%d%d' % pm, nf=4, num_b=[2, 1, 1, 2], perm=list(pm), fout=[0.0, 0.3, 0.455, 0.07, 0.512])
        add('perm3_p2_T', nf=3, num_p=2, num_b=[2, 1, 2], perm=[1, 2, 0], zero=[[1, 2], [3, 1]], fout=[0.0, 0.3, 0.37, 0.74])
        add('shift_2p2_T', what='shift', nf=2, num_p=2, num_b=[3, 2])
        add('shift_3p2_T', what='shift', nf=3, num_p=2, num_b=[2, 1, 2], zero=[[1, 2], [3, 1]])
        add('shift_4_T', what='shift', nf=4, num_b=[2, 2, 2, 1])
        add('addharm_2_T', what='addharm', nf=2, num_p=2, num_b=[3, 2])
        add('addharm_4_T', what='addharm', nf=4, num_b=[2, 1, 2, 1])
        add('linear_4_T', what='linear', nf=4, num_b=[2, 1, 1, 2])
    return out


class Mix(object):
    """a*R + b*S"""

    def __init__(self, a, R, b, S):
        self.t = (a, R, b, S)

    def _m(self, n, v):
        a, R, b, S = self.t
        return a * getattr(R, n)(v) + b * getattr(S, n)(v)

    def __call__(self, v):
        return self._m('resp', v)

    def __getattr__(self, n):
        return lambda v: self._m(n, v)


def run(c, what, nf, num_p, num_b, perm, freqs, fout, zero, npts):
    np = c.np
    m = c.mod('qmix.qtcurrent')
    zero = set(tuple(z) for z in zero)
    nb = tuple(num_b)
    fr = list(freqs[:nf])
    vb = c.reals('vb', npts, lo=-5, hi=5)
    R = c.resp('R')
    vj, v = voltages(c, nf, num_p, npts, zero)
    cct = circuit(c, nf, num_p, npts, fr, vb)
    fo = [0.0] + fr + ([round(fr[1] - fr[0], 6), round(fr[0] + fr[1], 6)] if nf > 1 else []) + ([2 * fr[0]] if num_p > 1 else []) if fout is None else list(fout)

    def go(vj, cct, nb, resp=R, fo=fo):
        return m.qtcurrent(vj, cct, resp, list(fo), nb, verbose=False)
    base = go(vj, cct, nb[:nf])

    def arr(nf2, num_p2, get):
        a = np.zeros((nf2 + 1, num_p2 + 1, npts), dtype=complex)
        for f in range(1, nf2 + 1):
            for p in range(1, num_p2 + 1):
                for i in range(npts):
                    x = get(f, p, i)
                    if x is not None:
                        a[f, p, i] = x
        return a
    if what == 'perm':
        w = arr(nf, num_p, lambda f, p, i: v[perm[f - 1] + 1, p, i])
        r = go(w, circuit(c, nf, num_p, npts, [fr[k] for k in perm], vb), tuple(nb[k] for k in perm))
        c.check_eq('relabelled tones', r, base)
        if len(set(nb)) == 1:
            c.check_eq('relabelled tones, common limit', go(w, circuit(c, nf, num_p, npts, [fr[k] for k in perm], vb), nb[0]), base, observe=False)
    elif what in ('addtone', 'addtone2'):
        n2 = len(nb)
        w = arr(n2, num_p, lambda f, p, i: v[f, p, i] if f <= nf else None)
        r = go(w, circuit(c, n2, num_p, npts, (fr + [0.1113, 0.0577])[:n2], vb), nb)
        c.check_eq('silent tone added', r, base)
        x = go(w, circuit(c, n2, num_p, npts, (fr + [0.1113, 0.0577])[:n2], vb), nb, fo=[0.1113, round(fr[0] - 0.1113, 4)])
        c.check_eq('nothing at the silent tone', x, 0 * x, observe=False)
        if what == 'addtone':
            order = [nf] + list(range(nf))
            w2 = arr(n2, num_p, lambda f, p, i: v[order[f - 1] + 1, p, i] if order[f - 1] < nf else None)
            r = go(w2, circuit(c, n2, num_p, npts, [0.1113] + fr, vb), tuple(nb[k] for k in order))
            c.check_eq('silent tone added in front', r, base)
    elif what == 'addharm':
        w = arr(nf, num_p + 1, lambda f, p, i: v[f, p, i] if p <= num_p else None)
        c.check_eq('silent harmonic added', go(w, circuit(c, nf, num_p + 1, npts, fr, vb), nb), base)
    elif what == 'shift':
        u = [c.unit('w%d' % f) for f in range(1, nf + 1)]

        def pw(x, n):
            y = c.k(1)
            for _ in range(abs(n)):
                y = y * (x if n > 0 else 1 / x)
            return y
        w = arr(nf, num_p, lambda f, p, i: None if v[f, p, i] is None else v[f, p, i] * pw(u[f - 1], p))
        tones = [t for t in itertools.product(range(-1, 2), repeat=nf) if sum(abs(k) for k in t) < 3] + ([tuple([num_p] + [0] * (nf - 1))] if num_p > 1 else [])
        f2 = [round(sum(k * f for k, f in zip(t, fr)), 6) for t in tones]
        a, b = go(vj, cct, nb, fo=f2), go(w, cct, nb, fo=f2)
        for j, t in enumerate(tones):
            ph = c.k(1)
            for k, x in zip(t, u):
                ph = ph * pw(x, k)
            c.check_eq('shifted time origin %s' % (t,), b[j], a[j] * ph, observe=(j < 5))
    else:
        S = c.resp('S')
        x, y = c.real('x', lo=-3, hi=3), c.real('y', lo=-3, hi=3)
        c.check_eq('linear in the response function', go(vj, cct, nb, Mix(x, R, y, S)), x * base + y * go(vj, cct, nb, S))
