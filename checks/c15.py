"""C15: I-V curve models have the physics they model."""
EXPLANATION = 'All I-V model functions executed symbolically and compared with closed forms; case split at |v| = 1.'
BOUNDS = 'arrays of 1-3 voltages (thorough: 4) and scalars; voltage and every model parameter symbolic; polynomial orders 1-60; integer voltages -3..3'
OUTSIDE = 'floating-point overflow/rounding; expanded model checked for oddness and scalar/array agreement only'


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    out = []
    for k in range(1, n + 1):
        out.append(('perfect_arr%d' % k, dict(model='perfect', n=k)))
        out.append(('perfect_kk_arr%d' % k, dict(model='perfect_kk', n=k)))
    out += [('perfect_scalar', dict(model='perfect', n=0)), ('perfect_kk_scalar', dict(model='perfect_kk', n=0))]
    for o in (1, 2, 30, 50, 60):
        out.append(('poly_%d' % o, dict(model='polynomial', n=2, order=o)))
    for m in ('fixed', 'corrected', 'Original', 'FIXED'):
        out.append(('exp_%s' % m, dict(model='exponential', n=2, name=m)))
    out.append(('exp_default', dict(model='exponential', n=1, name=None)))
    out.append(('exp_unknown', dict(model='unknown', n=1)))
    out.append(('expanded', dict(model='expanded', n=2)))
    out.append(('integers', dict(model='integers', n=7)))
    return out


def perfect(c, v):
    a = abs(v)
    if c.truth(a < 1):
        return c.k(0)
    if c.truth(a > 1):
        return v
    return c.k(1) / 2 if c.truth(v > 0) else -c.k(1) / 2


def perfect_kk(c, v, mx=100):
    if c.truth(v == 1) or c.truth(v == -1):
        return c.k(mx)
    return -1 / c.pi * (2 + v * c.np.log(abs((v - 1) / (v + 1))))


def run(c, model, n, order=None, name=None):
    np = c.np
    m = c.mod('qmix.mathfn.ivcurve_models')
    if model == 'integers':
        ints = [-3, -2, -1, 0, 1, 2, 3]
        ai, af = np.array(ints), np.array([float(i) for i in ints])
        for f in (m.perfect, m.perfect_kk, m.polynomial, m.exponential, m.expanded):
            ri, rf = f(ai), f(af)
            c.check_eq('integer array as float array', ri, rf)
            c.check_eq('integer input unchanged', ai, np.array(ints))
            for k, i in enumerate(ints):
                for s in (i, float(i), ai[k], af[k]):
                    c.check_eq('scalar equals array element', f(s), rf[k])
        for k, i in enumerate(ints):
            c.check_eq('perfect(integer)', m.perfect(i), perfect(c, c.k(i)))
            c.check_eq('perfect_kk(integer)', m.perfect_kk(i), perfect_kk(c, c.k(i)))
            c.check_eq('polynomial(integer)', m.polynomial(i), c.k(i) ** 101 / (1 + c.k(i) ** 100))
        return
    v = c.reals('v', max(n, 1), lo=-40, hi=40)
    if model in ('perfect', 'perfect_kk'):
        mx = c.real('max_kk', lo=10, hi=200)
        f, ref = (m.perfect, perfect) if model == 'perfect' else (lambda x: m.perfect_kk(x, mx), lambda cc, x: perfect_kk(cc, x, mx))
        exp = [ref(c, x) for x in v]
        sgn = -1 if model == 'perfect' else 1
        if n == 0:
            c.check_eq('scalar value', f(v[0]), exp[0])
            c.check_eq('symmetry', f(-v[0]), sgn * exp[0])
            if model == 'perfect_kk':
                c.check_eq('default maximum', m.perfect_kk(v[0]), perfect_kk(c, v[0]))
            return
        before = c.copy(v)
        out = f(v)
        c.check_eq('array value', out, np.array(exp))
        c.check_eq('input unchanged', v, before)
        c.check_eq('symmetry', f(-v), sgn * np.array(exp))
        c.check_eq('2-d arrays', f(v.reshape(1, -1)), np.array([exp]))
        return
    if model == 'polynomial':
        before = c.copy(v)
        f = (lambda x: m.polynomial(x)) if order == 50 else (lambda x: m.polynomial(x, order))
        exp = np.array([x ** (2 * order + 1) / (1 + x ** (2 * order)) for x in v])
        c.check_eq('closed form', f(v), exp)
        c.check_eq('input unchanged', v, before)
        c.check_eq('odd', f(-v), -exp)
        c.check_eq('scalar', f(v[0]), exp[0])
        return
    par = dict(vgap=c.real('vgap', lo=0.5e-3, hi=5e-3), rn=c.real('rn', lo=1, hi=200), rsg=c.real('rsg', lo=1, hi=3000),
               agap=c.real('agap', lo=5e3, hi=6e4))
    if model == 'unknown':
        for nm in ('', 'perfect', 'fix', 'new'):
            c.check_raises('unknown model rejected', lambda: m.exponential(v, model=nm, **par))
        c.check_shape('known model', m.exponential(v, **par), (1,))
        return
    before = c.copy(v)
    if model == 'exponential':
        if name is None:
            c.check_eq('defaults', m.exponential(v), m.exponential(v, 2.8e-3, 14., 300., 4e4, 'fixed'))
            return
        f = (lambda x: m.exponential(x, model=name, **par))
        g, rn, rsg, a = par['vgap'], par['rn'], par['rsg'], par['agap']
        exp = []
        for x in v:
            vv = x * g
            w = 1 / (1 + np.exp(-a * (vv - g))) + 1 / (1 + np.exp(a * (vv + g)))      # logistic weight of the normal branch
            sub = (2 - w) if (name or '').lower() == 'original' else (1 - w)
            exp.append((vv / rsg * sub + vv / rn * w) / (g / rn))
        exp = np.array(exp)
        c.check_eq('logistic blend', f(v), exp)
        c.check_eq('scalar', f(v[0]), exp[0])
        c.check_eq('odd', f(-v), -exp)
        if (name or '').lower() != 'original':
            eps = 1 / (1 + np.exp(2 * a * g))
            one = np.array([1.])
            c.check_eq('half sum at the gap', f(one)[0], rn * ((1 / rn + 1 / rsg) / 2 + eps * (1 / rn - 1 / rsg)))
        c.check_eq('input unchanged', v, before)
        return
    par.update(a0=c.real('a0', lo=1e3, hi=2e4), ileak=c.real('ileak', lo=1e-6, hi=1e-5), vnot=c.real('vnot', lo=1e-3, hi=4e-3),
               inot=c.real('inot', lo=1e-6, hi=2e-5), anot=c.real('anot', lo=1e3, hi=3e4), ioff=c.real('ioff', lo=1e-6, hi=2e-5))
    out = m.expanded(v, **par)
    c.check_eq('odd', m.expanded(-v, **par), -out)
    c.check_eq('scalar', m.expanded(v[0], **par), out[0])
    c.check_eq('defaults', m.expanded(v), m.expanded(v, vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4, ileak=5e-6, vnot=2.85e-3, inot=1e-5, anot=2e4, ioff=1e-5))
    c.check_eq('input unchanged', v, before)
