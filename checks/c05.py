"""C05: reported harmonic-balance convergence means the circuit is solved."""
from fractions import Fraction as Fr
from checks.hbcommon import Resp, Junction, FREQ, newton_step, circuit, start, residual
EXPLANATION = ('harmonic_balance and check_hb_error executed symbolically with the tunneling current an arbitrary (uninterpreted) function of frequency, bias and all junction voltages, '
               'and the inverse Jacobian an arbitrary matrix (so any sequence of correction steps is covered); on every path the reported outcome is compared with the residual '
               'of the returned voltage.')
BOUNDS = ('1-3 tones, 1-3 harmonics (up to 4 unknowns), 1-4 bias points, 0-2 iterations, every stop_rerror in [1e-6, 0.5], int and per-tone limits, with and without starting voltage; '
          'zero source voltages and zero impedances in some slots; flags of mode m with up to 4 unknowns and 3 bias points')
OUTSIDE = 'more iterations and unknowns; whether Newton converges at all'
OPTS = dict(max_paths=600, samples=2, max_samples=6)
BUDGET = dict(quick=250, thorough=850)


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, dict(dict(what='hb', nf=1, num_p=1, npts=1, max_it=1, num_b=3, init=True, zvt=[], zzt=[], damp=None, mode_m=True, dflt=False), **k)))
    for n in (1, 2):
        add('plain_%d' % n, what='plain', npts=n, max_it=0)
    add('1t_it0', max_it=0, npts=2)
    add('1t_it1', npts=1)
    add('1t_it1_n2', npts=2)
    add('1t_it2', max_it=2)
    add('1t_guess', init=False, npts=2, max_it=0)
    add('1t_guess_it1', init=False)
    add('1t_damped', damp=0.5)
    add('2t_it0', nf=2, npts=2, max_it=0, num_b=[2, 3])
    add('2t_it1', nf=2, num_b=[2, 3])
    add('p2_it0', num_p=2, npts=2, max_it=0)
    add('p2_it1', num_p=2, num_b=[4])
    add('2t_p2_it0', nf=2, num_p=2, max_it=0)
    add('2t_zero_it0', nf=2, max_it=0, npts=1, zvt=[[2, 1]], zzt=[[1, 1]])
    add('default_stop', max_it=0, dflt=True)
    add('default_stop_mask', what='mask', max_it=0, npts=2, dflt=True)
    add('default_stop_check', what='check', dflt=True)
    add('n3_it0', npts=3, max_it=0)
    add('n3_it1', npts=3)
    add('n4_it1', npts=4, damp=0.7)
    add('2t_n3_it1', nf=2, npts=3, mode_m=False)
    add('3t_it1', nf=3, num_b=[1, 2, 1], mode_m=False)
    add('p3_it1', num_p=3, mode_m=False)
    for nf, num_p, npts, mi in ((3, 1, 1, 0), (1, 3, 2, 0), (2, 2, 1, 0), (1, 3, 1, 1), (2, 1, 3, 0)) + (((3, 1, 2, 1), (2, 2, 2, 0), (4, 1, 1, 0)) if tier == 'thorough' else ()):
        add('mask_%d%d%d_it%d' % (nf, num_p, npts, mi), what='mask', nf=nf, num_p=num_p, npts=npts, max_it=mi)
    for nf, num_p, npts in ((1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 1, 3)):
        add('check_%d%d%d' % (nf, num_p, npts), what='check', nf=nf, num_p=num_p, npts=npts)
    add('check_zero', what='check', nf=2, npts=1, zvt=[[2, 1]], zzt=[[1, 1]])
    if tier == 'thorough':
        add('1t_it3', max_it=3)
        add('1t_it2_n2', max_it=2, npts=2)
        add('2t_it2', nf=2, max_it=2)
        add('p2_it1_n2', num_p=2, npts=2)
        add('2t_p2_it1', nf=2, num_p=2)
        add('3t_it0', nf=3, max_it=0, npts=2)
        add('check_222', what='check', nf=2, num_p=2, npts=2)
    return out


def run(c, what, nf, num_p, npts, max_it, num_b, init, zvt, zzt, damp, mode_m, dflt):
    np = c.np
    hb = c.mod('qmix.harmonic_balance')
    num_b = tuple(num_b) if isinstance(num_b, (list, tuple)) else num_b
    if what == 'plain':
        return plain(c, np, hb, npts)
    jn = Junction(c, offsets=True)
    jn.install(hb, npts)
    cct = circuit(c, nf, num_p, npts, [tuple(z) for z in zvt], [tuple(z) for z in zzt])
    resp = Resp('R')
    stop = c.k(Fr(1, 1000)) if dflt else c.real('stop', lo=1e-6, hi=0.5)
    if what == 'check':
        v = start(c, cct)
        res = residual(c, cct, jn, v, resp, num_b)
        good = c.and_(*[abs(r) / abs(v[k]) < stop for k, r in res.items()])
        c.observe('residual', [res[k] for k in sorted(res)])
        refused = c.raises(lambda: hb.check_hb_error(v, cct, resp, num_b, *([] if dflt else [stop])))
        if refused:
            c.check('refused only when some residual is too large', c.not_(good))
        else:
            c.check('accepted only when every residual is small', good)
        return
    newton_step(c)
    kw = dict(num_b=num_b, max_it=max_it, stop_rerror=stop, verbose=False)
    if dflt:
        kw.pop('stop_rerror')
    if damp:
        kw['damp_coeff'] = damp
    v0 = start(c, cct) if init else None
    if init:
        kw['vj_initial'] = v0
    if what == 'mask':
        w, fin = hb.harmonic_balance(cct, resp, mode='m', **kw)
        c.check_shape('one flag per bias point', fin, (npts,))
        c.observe('vj', w)
        flags(c, fin, residual(c, cct, jn, w, resp, num_b), w, stop, npts)
        return
    v, it, ok = hb.harmonic_balance(cct, resp, mode='x', **kw)
    c.check('iteration count', it <= max_it)
    c.observe('vj', v)
    res = residual(c, cct, jn, v, resp, num_b)
    if ok or it < max_it:
        for k, r in res.items():
            c.check('reported solution solves the circuit', c.le(abs(r) / abs(v[k]), stop))
    c.check_shape('shape', v, (nf + 1, num_p + 1, npts))
    if ok:
        c.check('success only before the last iteration or with a solution', it <= max_it)
    if num_p * nf > 2 or not mode_m:
        return
    # mode "m" on the same problem
    newton_step(c)
    kw['vj_initial'] = start(c, cct) if init else None
    w, fin = hb.harmonic_balance(cct, resp, mode='m', **kw)
    c.check_eq('modes agree', w, v, observe=False)
    c.check_shape('one flag per bias point', fin, (npts,))
    flags(c, fin, res, v, stop, npts)


def flags(c, fin, res, v, stop, npts):
    for i in range(npts):
        good = c.and_(*[abs(r) / abs(v[k]) < stop for k, r in res.items() if k[2] == i])
        c.check('finished point is solved', c.or_(c.not_(fin[i]), good))
        c.check('solved point is marked', c.or_(fin[i], c.not_(good)))


def plain(c, np, hb, npts):
    """one tone, real quantities, no iteration: junction voltages from tiny to large"""
    jn = Junction(c, kind='free')
    jn.install(hb, npts)
    cct = circuit(c, 1, 1, npts, vt=lambda f, p: c.k(Fr(1, 2)), zt=lambda f, p: c.k(Fr(5, 8)))
    stop = c.real('stop', lo=1e-6, hi=0.5)
    v = cct.initialize_vj()
    for i in range(npts):
        v[1, 1, i] = c.real('v%d' % i, lo=1e-6, hi=2)
    cur = [jn.value(cct, None, None, i, FREQ[0], []) for i in range(npts)]
    res = {(1, 1, i): Fr(1, 2) - Fr(5, 8) * cur[i].real - v[1, 1, i].real for i in range(npts)}
    good = [abs(res[1, 1, i]) < stop * v[1, 1, i].real for i in range(npts)]
    w, fin = hb.harmonic_balance(cct, Resp('R'), 2, max_it=0, stop_rerror=stop, vj_initial=c.copy(v), mode='m', verbose=False)
    c.observe('w', w)
    for i in range(npts):
        c.check('finished point is solved', c.or_(c.not_(fin[i]), good[i]))
        c.check('solved point is marked', c.or_(fin[i], c.not_(good[i])))
    refused = c.raises(lambda: hb.check_hb_error(v, cct, Resp('R'), 2, stop))
    c.check('refused exactly when some residual is too large', c.not_(c.and_(*good)) if refused else c.and_(*good))
