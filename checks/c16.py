"""C16: Gaussian smoothing preserves length, constants and order."""
import math
EXPLANATION = 'gauss_conv executed symbolically over symbolic data; the outputs are compared with the normalised Gaussian mean.'
BOUNDS = 'windows of 3 to 133 samples (integer, fractional and default sigma/ext_x), data from the window length up to 140 samples, every sample symbolic; sigma symbolic for windows of 3 and 5 samples; range claim for windows up to 13 samples'
OUTSIDE = 'floating-point rounding'
OPTS = dict(fork_floor=True)


def cases(tier):
    out = []
    for s, e in ((1, 1), (1, 3), (2.5, 1), (1.3, 2), (0.9, 3), (2, 3), (0.7, 2), (0.35, 3), (3.34, 3), (4, 2.5), (20, 1.5), (24, 2.75), (50, 1)) + (((5.5, 1), (3, 3.4), (10, 3), (33, 3), (60, 2), (20, 3), (10, 6)) if tier == 'thorough' else ()):
        out.append(('s%s_e%s' % (s, e), dict(sigma=s, ext=e)))
    for e in (1, 2):
        out.append(('symsigma_%d' % e, dict(sigma=None, ext=e)))
    out.append(('defaults', dict(sigma='default', ext=3)))
    out.append(('rejected', dict(sigma='reject', ext=3)))
    return out


def run(c, sigma, ext):
    np = c.np
    g = c.mod('qmix.mathfn.filters').gauss_conv
    if sigma == 'reject':
        for s, e, n in ((10, 3, 60), (10, 3, 30), (2, 3, 12), (2, 3, 7), (1, 1, 2), (0.5, 3, 2)):
            x = c.reals('x', n, lo=-1e3, hi=1e3)
            c.check_raises('window larger than the data', lambda: g(x, s, e))
        for s, e in ((0.3, 3), (0.1, 1), (0.9, 1)):
            x = c.reals('x', 5, lo=-1e3, hi=1e3)
            c.check_raises('window too small', lambda: g(x, s, e))
        return
    if sigma == 'default':
        x = c.reals('x', 61, lo=-1e3, hi=1e3)
        c.check_eq('defaults', g(x), g(x, 10, 3))
        c.check_eq('defaults', g(x, sigma=2), g(x, 2, 3))
        return
    if sigma is None:
        sigma = c.real('sigma', lo=1, hi=1.4)       # one or two samples each side
        m = ext
        c.assume(sigma * ext < ext + 0.9)
    else:
        m = int(math.floor(sigma * ext + 1e-9))
    w = [np.exp(-(c.k(k) / sigma) ** 2 / 2) for k in range(m + 1)]
    tot = w[0] + 2 * sum(w[1:])
    wlen = 2 * m + 1
    sizes = [wlen, wlen + 1, 2 * wlen] if wlen < 12 else [wlen, wlen + 3] if wlen < 30 else [wlen + 2]
    for n in sizes:
        x = c.reals('x', n, lo=-1e3, hi=1e3)
        before = c.copy(x)
        out = g(x, sigma, ext)
        c.check_shape('length', out, (n,))
        exp = [sum(w[abs(k)] * x[j + k] for k in range(-m, m + 1)) / tot if m <= j < n - m else out[j] for j in range(n)]
        c.check_eq('centred Gaussian mean', out, np.array(exp))
        c.check_eq('reversal', g(x[::-1], sigma, ext), out[::-1])
        a = c.real('a', lo=-3, hi=3)
        k = c.real('k', lo=-1e3, hi=1e3)
        y = c.reals('y', n, lo=-1e3, hi=1e3)
        c.check_eq('linear', g(a * x + y, sigma, ext), a * out + g(y, sigma, ext), atol=1e-8)
        c.check_eq('constants', g(np.full(n, 1.) * k, sigma, ext), np.full(n, 1.) * k)
        lo, hi = c.real('low', lo=-100, hi=100), c.real('high', lo=-100, hi=100)
        c.check_eq('input unchanged', x, before)
        if m > 6:
            continue
        c.assume(x >= lo)
        c.assume(x <= hi)
        for v in out:
            c.check('within the range of the data', c.and_(c.le(lo, v), c.le(v, hi)))
