"""C14: KK transforms are linear Hilbert transforms of (i - v) on even grids."""
import math
EXPLANATION = 'kk_trans and kk_trans_trapz executed symbolically; every output is compared with the defining sum.'
BOUNDS = 'grids of 2-9 samples (thorough: up to 16), zero-padding factors 1-50, grid origin, step and every current symbolic; irregular step at every position, larger or smaller'
OUTSIDE = 'rounding of the FFT: scipy.signal.hilbert is modelled by its own exact matrix (scipy on unit vectors), coefficients compared to 1e-12'


def cases(tier):
    out = []
    sizes = (2, 3, 5, 8) if tier == 'quick' else (2, 3, 4, 5, 7, 8, 9, 12, 16)
    for n in sizes:
        for pad in ((1, 2, 3, 50) if n <= 8 else (1, 7, 50)):
            out.append(('fft_%d_%d' % (n, pad), dict(what='fft', n=n, pad=pad)))
        out.append(('fft_%d_default' % n, dict(what='fft', n=n, pad=None)))
        out.append(('trapz_%d' % n, dict(what='trapz', n=n)))
    for n in (3, 4, 5, 6):
        out.append(('uneven_%d' % n, dict(what='uneven', n=n)))
    return out


def kernel(m, N):
    if m % N == 0:
        return 0.0
    s = math.sin(math.pi * m / N)
    if N % 2 == 0:
        return 0.0 if m % 2 == 0 else 2 * math.cos(math.pi * m / N) / s / N
    return (math.cos(math.pi * m / N) / s - math.cos(math.pi * m) / s) / N


def run(c, what, n, pad=None):
    np = c.np
    kk = c.mod('qmix.mathfn.kktrans')
    v0 = c.real('v0', lo=-40, hi=40)
    dv = c.real('dv', lo=1e-3, hi=1)
    v = np.array([v0 + dv * j for j in range(n)])
    i = c.reals('i', n, lo=-40, hi=40)
    if what == 'uneven':
        pos = 1 + c.choice('position', n - 2)
        d = c.real('d', lo=-0.9, hi=3)
        c.assume(c.or_(d > 0.01, d < -0.01))
        bad = np.array([v0 + dv * j + (d * dv if j > pos else 0) for j in range(n)])      # one step is (1 + d) dv
        c.assume(c.or_(d * dv > 2e-5, d * dv < -2e-5))
        shift = np.array([v0 + dv * j + (d * dv if j == pos else 0) for j in range(n)])   # one sample displaced
        for w in (bad, shift):
            c.check_raises('kk_trans rejects', lambda: kk.kk_trans(w, i))
            c.check_raises('kk_trans_trapz rejects', lambda: kk.kk_trans_trapz(w, i))
        c.check_shape('even grid accepted', kk.kk_trans(v, i), (n,))
        c.check_shape('even grid accepted', kk.kk_trans_trapz(v, i), (n,))
        return
    sym = np.array([dv * j - dv * (n - 1) / 2 for j in range(n)])
    odd = np.array([i[j] - i[n - 1 - j] for j in range(n)])
    bv, bi = c.copy(v), c.copy(i)
    if what == 'fft':
        f = kk.kk_trans if pad is None else (lambda a, b: kk.kk_trans(a, b, pad))
        N = n * (pad or 50)
        exp = [-sum((i[k] - v[k]) * kernel(j - k, N) for k in range(n)) for j in range(n)]
        if pad == 3:
            c.check_eq('keyword', kk.kk_trans(v, i, n=3), kk.kk_trans(v, i, 3))
    else:
        f = kk.kk_trans_trapz
        exp = []
        for a in range(n):
            w = [k for k in range(n) if k != a]
            g = {k: (i[k] - v[k]) / (v[k] - v[a]) for k in w}
            exp.append(sum([(g[p] + g[q]) * (v[q] - v[p]) / 2 for p, q in zip(w[:-1], w[1:])], c.k(0)) / c.pi)
    out = f(v, i)
    c.check_shape('one value per sample', out, (n,))
    c.check_eq('defining sum', out, np.array(exp), atol=1e-8, noise=1e-12)
    c.check_eq('ohmic line gives zero', f(v, v), np.zeros(n), atol=1e-8, noise=1e-12)
    i2 = c.reals('j', n, lo=-40, hi=40)
    a = c.real('a', lo=-3, hi=3)
    c.check_eq('linear', f(v, v + a * (i - v) + (i2 - v)), a * out + f(v, i2), atol=1e-7, noise=1e-12)
    e = f(sym, odd)
    c.check_eq('odd becomes even', e, e[::-1], atol=1e-8, noise=1e-12)
    c.check_eq('voltage unchanged', v, bv)
    c.check_eq('current unchanged', i, bi)
