"""C06: harmonic balance takes exact (damped) Newton steps on affine junctions."""
from fractions import Fraction
from checks.hbcommon import Resp, Junction, circuit, start, residual
EXPLANATION = ('harmonic_balance (including its finite-difference Jacobian and matrix inversion) executed symbolically on a junction whose currents are an affine function of all real and '
               'imaginary voltage parts, with arbitrary real coefficients (one unknown) or fixed rational ones (several coupled unknowns); the residual after k undamped or damped '
               'iterations is compared with (1-d)^k times the initial residual at every tone, harmonic and bias point.')
BOUNDS = ('one unknown: every affine map, impedance, source, starting voltage and damping in [0.05, 1], 1-2 bias points, 1 iteration; 2-8 coupled unknowns (tones x harmonics up to 4x1, 2x2, 1x4, '
          '3x2, 4x2), 1-3 bias points with different maps at each, fixed rational maps and impedances, every source/starting voltage and damping, 1-2 iterations')
OUTSIDE = 'degenerate (singular) circuits; for coupled unknowns, other junction maps than the fixed generic ones'
OPTS = dict(max_paths=80, samples=1, max_samples=3)
BUDGET = dict(quick=250, thorough=850)


def q(*key):
    """fixed generic rational number for a key"""
    h = 7
    for k in key:
        for ch in str(k):
            h = (h * 131 + ord(ch)) % 1000003
    return Fraction(h % 1999 - 999, 1000) or Fraction(1, 7)


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, dict(dict(nf=1, num_p=1, npts=1, its=1, damp=True, sym=False, num_b=3, verbose=False, guess=False), **k)))
    add('one_any', sym=True)
    add('one_any_n2', sym=True, npts=2, damp=False)
    add('one_n3', npts=3)
    add('one_it2', npts=2, its=2)
    add('guess', guess=True, npts=2, nf=2)
    add('t2', nf=2, npts=2, num_b=[2, 3])
    add('p2', num_p=2, npts=2, num_b=[4])
    add('t2_it2', nf=2, npts=1, its=2)
    add('t2_p2', nf=2, num_p=2, npts=2)
    add('p3', num_p=3, npts=2)
    add('t3', nf=3, npts=2, num_b=[2, 3, 1])
    add('t4', nf=4, npts=2)
    add('p4', num_p=4, npts=2)
    add('t3_p2', nf=3, num_p=2, npts=2)
    add('verbose', npts=2, verbose=True)
    add('t2_undamped', nf=2, npts=3, damp=False)
    add('t2_p2_undamped_it2', nf=2, num_p=2, npts=2, its=2, damp=False)
    if tier == 'thorough':
        add('t4_p2', nf=4, num_p=2, npts=2)
        add('t3_p2_n3', nf=3, num_p=2, npts=3)
        add('t2_p3', nf=2, num_p=3, npts=2)
        add('t2_p4', nf=2, num_p=4, npts=2)
        add('t2_p2_it2', nf=2, num_p=2, npts=2, its=2)
        add('t2_it3', nf=2, npts=2, its=3)
        add('one_any_n3', sym=True, npts=3, damp=False)
    return out


def run(c, nf, num_p, npts, its, damp, sym, num_b, verbose, guess):
    hb = c.mod('qmix.harmonic_balance')
    num_b = tuple(num_b) if isinstance(num_b, list) else num_b
    nn = nf * num_p
    if sym:
        co = {}

        def coef(i, fk):
            if (i, fk) not in co:
                co[i, fk] = [c.real('k%d_%s_%dr' % (i, fk, j), lo=-2, hi=2) + 1j * c.real('k%d_%s_%di' % (i, fk, j), lo=-2, hi=2) for j in range(2 * nn + 1)]
            return co[i, fk]
    else:
        def coef(i, fk):
            return [c.k(q(i, fk, j, 'r') / (1 + (j > 0) * nn)) + 1j * c.k(q(i, fk, j, 'i') / (1 + (j > 0) * nn)) for j in range(2 * nn + 1)]
    jn = Junction(c, 'affine', coef)
    jn.install(hb, npts)
    cart = lambda f, p: c.real('VT%d%dr' % (f, p), lo=0.05, hi=1.5) + 1j * c.real('VT%d%di' % (f, p), lo=-1, hi=1)
    if sym:
        cct = circuit(c, nf, num_p, npts, vt=cart)
    else:
        cct = circuit(c, nf, num_p, npts, vt=cart, zt=lambda f, p: c.k(abs(q('R', f, p)) + Fraction(1, 5)) + 1j * c.k(q('X', f, p)))
    resp = Resp('R')
    kw = {}
    if not guess:
        v0 = start(c, cct, polar=False)
        kw['vj_initial'] = c.copy(v0)
    else:
        # the default starting voltage, seen by asking for no iterations
        kw['zj_guess'] = c.real('zjg', lo=0.1, hi=2)
        v0 = c.copy(hb.harmonic_balance(cct, resp, num_b, max_it=0, stop_rerror=-1, verbose=False, **kw))
        for f in range(1, nf + 1):
            for p in range(1, num_p + 1):
                for i in range(npts):
                    c.check_eq('default start', v0[f, p, i] * (kw['zj_guess'] + cct.zt[f, p]), cct.vt[f, p] * kw['zj_guess'], observe=False)
    d = 1
    if damp:
        d = kw['damp_coeff'] = c.real('damp', lo=0.05, hi=1)
    # a target error that is never reached: all iterations are taken
    v, it, ok = hb.harmonic_balance(cct, resp, num_b, max_it=its, stop_rerror=-1, mode='x', verbose=verbose, **kw)
    c.observe('vj', v)
    r0 = residual(c, cct, jn, v0, resp, num_b)
    r1 = residual(c, cct, jn, v, resp, num_b)
    c.check('iterations taken', it == its)
    for k in r0:
        c.check_eq('residual after the steps', r1[k], r0[k] * (1 - d) ** its, tol=1e-6)
