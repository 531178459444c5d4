"""C01: tunneling current equals the truncated multi-tone spectral sum."""
from checks.qtcommon import limits, spectrum, coefficient, combos, circuit, voltages
EXPLANATION = ('qtcurrent run symbolically end to end (phase factors, response interpolation, index matching, coefficient loops) and compared with the defining sum '
               'written independently; response function and Bessel functions are uninterpreted, so equality holds for every response function.')
BOUNDS = ('1-4 tones, 1-4 harmonics, limits 1-8 and the default 15 (int and per tone), 1-2 bias points; frequency sets: incommensurate, degenerate (2*f1 = f2, f1+f2 = f3), '
          'equal after rounding, and fully symbolic ones; every complex voltage with magnitude 1e-9 to 2.5, every bias voltage')
OUTSIDE = 'larger limits and harmonics; frequencies within rounding error of a 4-decimal tie'
OPTS = dict(max_paths=400, samples=1)
BUDGET = dict(quick=200, thorough=850)

A = [0.3, 0.37, 0.455, 0.512]


def cases(tier):
    out = []

    def add(name, **k):
        k = dict(dict(nf=1, num_p=1, num_b=2, npts=1, freqs=A, fout=None, zero=[], form='list'), **k)
        out.append((name, k))
    add('1t_p1', num_b=3, npts=2, fout=[0.0, 0.3, -0.3, 0.6, 0.15])
    add('1t_p2', num_p=2, num_b=4, fout=[0.0, 0.6, 0.3, -0.6, 0.9])
    add('1t_p3', num_p=3, num_b=3, fout=[0.9, 0.0, 0.3, 0.6])
    add('1t_scalar', form='scalar', num_b=2, npts=2, fout=[0.3])
    add('1t_scalar_dc', form='scalar', num_b=2, npts=2, fout=[0.0])
    add('1t_scalar_int', form='scalar', num_b=2, npts=2, fout=[0])
    add('1t_array', form='array', num_b=2, npts=2, fout=[0.3, 0.0, 0.3, 0.29999])
    add('1t_longtuple', num_b=[3, 1], npts=1, fout=[0.0, 0.3])
    add('1t_tinyf', num_p=2, num_b=2, freqs=[0.00004], fout=[0.0, 0.0001, 0.0002])
    add('2t_p1', nf=2, num_b=[3, 2], fout=[0.0, 0.3, 0.37, 0.07, 0.67, -0.07, 0.6])
    add('2t_p1r', nf=2, num_b=[1, 4], fout=[0.0, 0.3, 0.37, 0.07], npts=2)
    add('2t_scalar', nf=2, num_b=2, fout=[0.07], form='scalar')
    add('2t_p2', nf=2, num_p=2, num_b=[2, 1], fout=[0.07, 0.6, 0.74, 0.0, 0.23], zero=[[1, 2], [2, 2]])
    add('2t_p2b', nf=2, num_p=2, num_b=[1, 2], fout=[0.3, 0.44], zero=[[1, 2]])
    add('2t_degenerate', nf=2, num_p=2, num_b=2, freqs=[0.2, 0.4], fout=[0.2, 0.4, 0.6], zero=[[1, 2], [2, 2]])
    add('2t_equal_rounded', nf=2, num_b=2, freqs=[0.3, 0.30003], fout=[0.3, 0.0, 0.6001, 0.60003])
    add('1t_tie_p3', num_p=3, num_b=3, freqs=[0.33336], fout=[0.6667, 1.0001, 0.66672, 0.3334, 0.6668, 1.0002], zero=[[1, 2]])
    add('2t_tie', nf=2, num_b=1, freqs=[0.30003, 0.35003], fout=[0.6501, 0.65, 0.65006, 0.05, 0.65003])
    add('2t_tie_p2', nf=2, num_p=2, num_b=1, freqs=[0.30003, 0.35004], fout=[1.3001, 0.9501, 0.9502, 0.6001, 0.25], zero=[[1, 2], [2, 2]])
    add('3t_tie', nf=3, num_b=1, freqs=[0.30003, 0.35001, 0.40004], fout=[1.0501, 1.05, 0.7501, 0.75, 0.6500])
    add('4t_tie', nf=4, num_b=1, freqs=[0.30003, 0.35001, 0.40004, 0.45003], fout=[1.5001, 1.5, 1.0501])
    add('3t_p1', nf=3, num_b=[2, 1, 1], fout=[0.0, 0.3, 0.455, 0.085, 0.385])
    add('3t_p1b', nf=3, num_b=[1, 2, 1], fout=[0.37, 0.67, 0.215, 1.125])
    add('3t_p1c', nf=3, num_b=[1, 1, 2], fout=[0.0, 0.455, 0.155])
    add('3t_degenerate', nf=3, num_b=1, freqs=[0.2, 0.3, 0.5], fout=[0.5, 0.2, 0.3])
    add('3t_p2', nf=3, num_p=2, num_b=1, fout=[0.6, 0.455, 0.14], zero=[[1, 2], [2, 2], [3, 2]])
    add('4t_p1', nf=4, num_b=[1, 1, 1, 2], fout=[0.0, 0.512])
    add('4t_p1b', nf=4, num_b=[2, 1, 1, 1], fout=[0.3, 0.057])
    add('4t_p1c', nf=4, num_b=[1, 2, 1, 1], fout=[0.37, 1.182])
    add('4t_p1d', nf=4, num_b=[1, 1, 2, 1], fout=[0.455, 0.727])
    add('4t_int', nf=4, num_b=1, fout=[0.0, 0.512, 1.637, 0.385, 0.33], npts=2)
    add('1t_symbolic', num_p=2, num_b=2, freqs=None, fout=None, zero=[[1, 2]])
    add('2t_symbolic', nf=2, num_b=1, freqs=None, fout=None)
    add('unpumped', nf=2, num_p=2, num_b=[2, 3], fout=[0.0, 0.3, 0.37], zero=[[1, 1], [1, 2], [2, 1], [2, 2]], npts=2)
    add('1t_default', num_b=None, fout=[0.0, 0.3, 0.6])
    add('1t_p4', num_p=4, num_b=[8], fout=[0.0, 0.9, 1.2], zero=[[1, 2], [1, 3]])
    add('1t_p3z', num_p=3, num_b=7, fout=[0.3, 0.9], zero=[[1, 1]])
    add('2t_p2_T', nf=2, num_p=2, num_b=2, fout=[0.07, 0.6, 0.74, 0.0])
    add('2t_p1_T', nf=2, num_b=[5, 6], fout=[0.0, 0.3, 0.37, 0.07])
    add('3t_p1_T', nf=3, num_b=[3, 2, 2], fout=[0.0, 0.3, 0.085])
    add('4t_p1_T', nf=4, num_b=[2, 1, 2, 1], fout=[0.0, 0.3, 0.142])
    add('4t_p2_T', nf=4, num_p=2, num_b=1, fout=[0.6, 0.0], zero=[[1, 2], [2, 2], [3, 2], [4, 2]])
    if tier == 'thorough':
        add('1t_p3_T', num_p=3, num_b=6, fout=[0.9, 0.0, 0.3, 0.6, -0.9])
        add('1t_p2_T', num_p=2, num_b=12, fout=[0.0, 0.3, 0.6])
        add('2t_default_T', nf=2, num_b=None, fout=[0.0, 0.3, 0.07])
        add('2t_p3_T', nf=2, num_p=3, num_b=[3, 4], fout=[0.0, 0.9, 0.14, 0.07], zero=[[1, 2], [2, 3]])
        add('2t_p2n3_T', nf=2, num_p=2, num_b=[3, 2], fout=[0.07, 0.3, 0.0])
        add('3t_b_T', nf=3, num_b=[4, 3, 4], fout=[0.0, 0.3, 0.085, 0.385])
        add('3t_p2_T', nf=3, num_p=2, num_b=[2, 1, 2], fout=[0.0, 0.6, 0.14], zero=[[1, 1], [3, 2]])
        add('4t_b_T', nf=4, num_b=[3, 2, 2, 3], fout=[0.0, 0.3, 0.142])
        add('4t_c_T', nf=4, num_b=[2, 3, 3, 1], fout=[0.37, 0.455, 0.512, 0.057])
    return out


def run(c, nf, num_p, num_b, npts, freqs, fout, zero, form):
    np = c.np
    m = c.mod('qmix.qtcurrent')
    num_b = tuple(num_b) if isinstance(num_b, (list, tuple)) else num_b
    zero = set(tuple(z) for z in zero)
    lim = 15 if num_b is None else num_b
    nb = limits(lim, nf)
    cap = max(lim) if isinstance(lim, tuple) else lim
    symbolic = freqs is None
    if symbolic:
        fr = [c.real('f%d' % k, lo=1e-4, hi=2) for k in range(nf)]
        fo = [c.real('fout', lo=-3, hi=3)]
    else:
        fr, fo = list(freqs[:nf]), list(fout)
    vb = c.reals('vb', npts, lo=-5, hi=5)
    cct = circuit(c, nf, num_p, npts, fr, vb)
    vj, v = voltages(c, nf, num_p, npts, zero)
    resp = c.resp('R')
    bj = c.copy(vj)
    arg = np.array(fo) if form == 'array' else fo[0] if form == 'scalar' else list(fo)
    keep = list(fo)
    out = m.qtcurrent(vj, cct, resp, arg, verbose=False, **({} if num_b is None else dict(num_b=num_b)))
    if form == 'scalar':
        c.check_shape('a scalar frequency gives one row', out, (npts,))
        rows = [out]
    else:
        c.check_shape('one row per frequency', out, (len(fo), npts))
        rows = [out[j] for j in range(len(fo))]
    fx = [c.k(f) for f in fr] if not symbolic else fr
    spec = [[spectrum(c, [v[f, p, i] for p in range(1, num_p + 1)], fx[f - 1], nb[f - 1], cap) for f in range(1, nf + 1)] for i in range(npts)]
    for j, f in enumerate(fo):
        if symbolic:
            import itertools
            tones = [t for t in itertools.product(range(-num_p, num_p + 1), repeat=nf)
                     if c.truth(c.and_(round(sum(a * b for a, b in zip(t, fr)) + 0 * f, 4) == round(f, 4)))]
        else:
            tones = combos(fr, num_p, f)
        for i in range(npts):
            want = c.k(0) + 0j
            for t in tones:
                want = want + coefficient(c, t, resp, vb[i], fx, spec[i], nb)
            if form == 'scalar' and not symbolic and round(f, 4) == 0:
                c.check('dc result is real', getattr(rows[j], 'dtype', np.dtype(complex)).kind == 'f')
            c.check_eq('current', rows[j][i], want, observe=(i == 0))
    c.check_eq('junction voltage unchanged', vj, bj, observe=False)
    if form == 'list':
        c.check('frequency list unchanged', c.and_(*[a == b for a, b in zip(arg, keep)]))
    if npts * nf <= 2 and not symbolic:
        again = m.qtcurrent(vj, cct, resp, arg, num_b=lim)
        c.check_eq('verbose has no influence', again, out, observe=False)
