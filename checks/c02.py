"""C02: phase-factor coefficients are the Bessel/harmonic convolution."""
from checks.qtcommon import limits, spectrum, voltages
EXPLANATION = ('calculate_phase_factor_coeff (with its numba-compiled convolution, executed from its Python source) on symbolic complex voltages and frequencies; '
               'every coefficient compared with the convolution of the Bessel sequences (J_n of a symbolic argument is an uninterpreted function of n and the argument).')
BOUNDS = ('1-4 tones, 1-4 harmonics, int and per-tone limits 1-5 (thorough: up to 8), 1-3 bias points, every positive frequency, every complex voltage with magnitude 1e-9 to 2.5 or exactly zero')
OUTSIDE = 'magnitudes between 0 and 1e-9 and above 2.5, larger limits; accuracy of scipy Bessel functions'
BUDGET = dict(quick=150, thorough=800)


def cases(tier):
    out = []
    L = [(1, 1, 1, 3, ()), (1, 1, 5, 2, ()), (1, 2, 4, 2, ()), (1, 3, 4, 1, ()), (1, 4, 5, 1, ()), (1, 2, (3, 7), 1, ()),
         (2, 1, (2, 5), 2, ()), (2, 1, (5, 1), 1, ()), (2, 2, (4, 2), 1, ()), (2, 2, (2, 5), 1, ()), (2, 3, (3, 4), 1, ()), (2, 3, 3, 1, ((1, 2), (2, 1))),
         (3, 1, (1, 2, 4), 2, ()), (3, 2, (3, 2, 4), 1, ((2, 1), (3, 2))), (4, 1, (2, 3, 1, 4), 1, ()), (4, 2, (2, 1, 3, 2), 1, ((1, 1), (4, 2))),
         (4, 1, 3, 2, ((1, 1), (2, 1), (3, 1), (4, 1))), (2, 3, (4, 2), 2, tuple((f, p) for f in (1, 2) for p in (1, 2, 3)))]
    if tier == 'thorough':
        L += [(1, 5, 8, 1, ()), (2, 4, (6, 4), 1, ()), (3, 3, (3, 5, 2), 1, ()), (4, 3, (2, 3, 2, 4), 1, ()), (1, 1, 15, 2, ()), (1, 3, 8, 2, ())]
    for nf, num_p, nb, npts, zero in L:
        out.append(('f%d_p%d_b%s_z%d' % (nf, num_p, nb if isinstance(nb, int) else '-'.join(map(str, nb)), len(zero)),
                    dict(nf=nf, num_p=num_p, num_b=nb, npts=npts, zero=[list(z) for z in zero], kind='polar')))
    out.append(('cartesian', dict(nf=1, num_p=2, num_b=2, npts=1, zero=[], kind='cart')))
    out.append(('real_negative', dict(nf=2, num_p=1, num_b=(3, 2), npts=1, zero=[], kind='real')))
    return out


def run(c, nf, num_p, num_b, npts, zero, kind):
    np = c.np
    m = c.mod('qmix.qtcurrent')
    num_b = tuple(num_b) if isinstance(num_b, (list, tuple)) else num_b
    zero = set(tuple(z) for z in zero)
    freq = np.zeros(nf + 1)
    for f in range(1, nf + 1):
        freq[f] = c.real('f%d' % f, lo=1e-4, hi=2)
    if kind == 'polar':
        vj, v = voltages(c, nf, num_p, npts, zero)
    else:
        vj, v = voltages(c, nf, num_p, npts, [(f, p) for f in range(1, nf + 1) for p in range(1, num_p + 1)])
        for k in v:
            v[k] = c.cplx('v%d%d_%d' % k, lo=-2, hi=2) if kind == 'cart' else -c.real('v%d%d_%d' % k, lo=1e-9, hi=3) + 0j
            if kind == 'cart':
                c.assume(abs(v[k]) > 0.05)
            vj[k] = v[k]
    bj, bf = c.copy(vj), c.copy(freq)
    r = m.calculate_phase_factor_coeff(vj, freq, nf, num_p, num_b)
    nb = limits(num_b, nf)
    cap = max(num_b) if isinstance(num_b, tuple) else num_b
    c.check('shape', r.shape[0] == nf + 1 and r.shape[1] >= 2 * max(nb) + 1 and r.shape[2] == npts)
    for f in range(1, nf + 1):
        for i in range(npts):
            s = spectrum(c, [v[f, p, i] for p in range(1, num_p + 1)], freq[f], nb[f - 1], cap)
            for k in range(-nb[f - 1], nb[f - 1] + 1):
                c.check_eq('coefficient f%d k%d' % (f, k), r[f, k, i], s.get(k, c.k(0)) + 0j)
            if num_p == 1:
                for k in list(range(-cap, -nb[f - 1])) + list(range(nb[f - 1] + 1, cap + 1)):
                    c.check_eq('nothing beyond the limit of the tone', r[f, k, i], 0j)
    c.check_eq('voltages unchanged', vj, bj)
    c.check_eq('frequencies unchanged', freq, bf)
