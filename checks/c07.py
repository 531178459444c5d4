"""C07: harmonic balance has no side effects and honours its output mode."""
from fractions import Fraction as Fr
from checks.hbcommon import Resp, Junction, newton_step, circuit, start, snapshot, same_circuit, FREQ
EXPLANATION = ('harmonic_balance executed symbolically with an arbitrary junction current function (and arbitrary correction steps, identical in both solves): circuit and starting voltage are compared '
               'with copies taken before, repeated solves and all output modes with each other, and the all-zero-impedance answer with the Thevenin voltages.')
BOUNDS = ('1-3 tones, 1-2 harmonics, 1-3 bias points, 0-1 iterations; locked and unlocked circuits, zero sources and zero impedances in some or all slots, with and without starting voltage, '
          'every stop_rerror in [1e-6, 0.5], modes o/x/m, int, per-tone and default summation limits; two and three successive solves')
OUTSIDE = 'printed text; more iterations'
OPTS = dict(max_paths=600, samples=1, max_samples=4)
BUDGET = dict(quick=250, thorough=850)


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, dict(dict(nf=1, num_p=1, npts=1, max_it=0, num_b=3, init=True, zvt=[], zzt=[], lock=False, vkind='complex', damp=None, verbose=False, zj=False), **k)))
    add('1t', npts=2)
    add('1t_guess', npts=2, init=False)
    add('1t_it1', max_it=1)
    add('1t_it1_guess', max_it=1, init=False, lock=True)
    add('1t_it1_n2', max_it=1, npts=2)
    add('1t_damp', max_it=1, damp=0.5, lock=True)
    add('2t', nf=2, npts=2, num_b=[2, 3])
    add('2t_lock', nf=2, npts=2, init=False, lock=True)
    add('p2', num_p=2, npts=2, lock=True)
    add('2t_it1', nf=2, max_it=1, num_b=[2, 3], lock=True)
    add('zero_vt', nf=2, npts=1, zvt=[[2, 1]])
    add('zero_vt_guess', nf=2, npts=1, zvt=[[2, 1]], init=False, lock=True)
    add('zero_vt_it1', nf=2, npts=1, zvt=[[1, 1]], init=False, max_it=1)
    add('zero_zt', nf=2, npts=1, zzt=[[1, 1]])
    add('zero_zt_p2', num_p=2, npts=1, zzt=[[1, 2]], zvt=[[1, 2]], init=False, lock=True)
    add('damp_p2_lock', num_p=2, damp=0.5, lock=True)
    add('damp_p2_guess', num_p=2, npts=2, damp=1.3, lock=True, init=False)
    add('damp_2t_lock', nf=2, npts=2, damp=0.5, lock=True, num_b=[1, 2])
    add('damp_p3', num_p=3, damp=0.8, lock=True, init=False)
    add('guess_zj', nf=2, npts=2, init=False, zj=True, lock=True)
    add('guess_zj_p2', num_p=2, init=False, zj=True, zvt=[[1, 2]])
    add('guess_3t', nf=3, npts=1, init=False, lock=True, damp=0.9)
    add('verbose_2t_p2', nf=2, num_p=2, npts=2, verbose=True, lock=True)
    add('verbose_it1', max_it=1, verbose=True, lock=True, npts=2)
    add('n4_it1', max_it=1, npts=4, lock=True)
    add('default_limits', npts=1, num_b=None, init=False)
    for nf, num_p, npts in ((1, 1, 1), (1, 1, 3), (2, 1, 2), (1, 2, 2), (2, 2, 3), (3, 1, 2)):
        add('all_zero_%d%d%d' % (nf, num_p, npts), nf=nf, num_p=num_p, npts=npts, zzt='all', init=False, lock=npts == 2, max_it=3)
    add('all_zero_vt0', nf=2, num_p=2, npts=2, zzt='all', zvt=[[1, 1], [2, 2]], init=False, max_it=3)
    add('all_zero_init', nf=2, npts=2, zzt='all', max_it=3)
    add('verbose', npts=1, verbose=True)
    add('all_zero_verbose', npts=2, zzt='all', verbose=True, init=False)
    if tier == 'thorough':
        add('1t_it2', max_it=2)
        add('2t_p2', nf=2, num_p=2, npts=2, lock=True)
        add('p2_it1', num_p=2, max_it=1, lock=True)
        add('3t', nf=3, npts=2, init=False)
        add('2t_it1_n2', nf=2, max_it=1, npts=2)
    return out


def run(c, nf, num_p, npts, max_it, num_b, init, zvt, zzt, lock, vkind, damp, verbose, zj):
    np = c.np
    hb = c.mod('qmix.harmonic_balance')
    num_b = tuple(num_b) if isinstance(num_b, list) else num_b
    jn = Junction(c)
    jn.install(hb, npts)
    allzero = zzt == 'all'
    zz = [(f, p) for f in range(1, nf + 1) for p in range(1, num_p + 1)] if allzero else [tuple(z) for z in zzt]
    cct = circuit(c, nf, num_p, npts, [tuple(z) for z in zvt], zz)
    resp = Resp('R')
    stop = c.real('stop', lo=1e-6, hi=0.5)
    kw = dict(max_it=max_it, stop_rerror=stop, verbose=verbose)
    if num_b is not None:
        kw['num_b'] = num_b
    if damp:
        kw['damp_coeff'] = damp
    zg = 0.67
    if zj:
        zg = kw['zj_guess'] = c.real('zj', lo=0.1, hi=3)
    v0 = None
    if init:
        v0 = kw['vj_initial'] = start(c, cct)
    keep = c.copy(v0) if init else None
    vt = c.copy(cct.vt)
    snap = snapshot(c, cct)
    if lock:
        cct.lock()
    shape = (nf + 1, num_p + 1, npts)

    def solve(mode):
        newton_step(c)       # the same arbitrary steps every time
        a = dict(kw)
        if mode is not None:
            a['mode'] = mode
        r = hb.harmonic_balance(cct, resp, **a)
        same_circuit(c, cct, snap)
        if init:
            c.check_eq('starting voltage unchanged', v0, keep, observe=False)
        return r
    v = solve(None)
    c.observe('vj', v)
    c.check_shape('mode o', v, shape)
    for f in range(nf + 1):
        for p in range(num_p + 1):
            if f == 0 or p == 0:
                c.check_eq('unused slots are zero', v[f, p], np.zeros(npts), observe=False)
    first = c.copy(v)
    x = solve('x')
    c.check('mode x has three results', isinstance(x, tuple) and len(x) == 3)
    vx, it, ok = x
    c.check_shape('mode x', vx, shape)
    c.check_eq('solving again, mode x', vx, first, observe=False)
    c.check_eq('first result unchanged by the second solve', v, first, observe=False)
    mm = solve('m')
    c.check('mode m has two results', isinstance(mm, tuple) and len(mm) == 2)
    vm, fin = mm
    c.check_eq('solving again, mode m', vm, first, observe=False)
    c.check_shape('mode m mask', fin, (npts,))
    if allzero:
        for f in range(1, nf + 1):
            for p in range(1, num_p + 1):
                for i in range(npts):
                    c.check_eq('junction voltage is the Thevenin voltage', v[f, p, i], vt[f, p])
        c.check('success', ok)
        c.check('no iterations', it == 0)
        for i in range(npts):
            c.check('point finished', fin[i])
    else:
        if init:
            # writing to the result must not reach the supplied starting voltage
            v[1, 1, 0] = 7
            c.check_eq('result is not the starting voltage itself', v0, keep, observe=False)
        if max_it == 0:
            for f in range(1, nf + 1):
                for p in range(1, num_p + 1):
                    for i in range(npts):
                        if init:
                            c.check_eq('no iteration, no change', first[f, p, i], keep[f, p, i])
                        else:
                            z = snap['zt'][f, p]
                            g = c.k(Fr(67, 100)) if zg == 0.67 else zg
                            t = vt[f, p] if (f, p) not in [tuple(q) for q in zvt] else c.k(Fr(1, 10 ** 10))
                            c.check_eq('starts from a junction of the guessed impedance', first[f, p, i] * (z + g), t * g, atol=1e-9)
    same_circuit(c, cct, snap)
    if not lock:
        cct.vt[1, 1] = 0.25     # the caller may still change the circuit afterwards
        c.check_eq('earlier results do not follow the circuit', vx, first, observe=False)
