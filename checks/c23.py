"""C23: IF response noise temperature is the bounded Y-factor value."""
EXPLANATION = 'if_response() executed symbolically on symbolic spectra and load temperatures.'
BOUNDS = '1, 2, 4 (thorough: 6) IF points, row and column orientation; frequencies, dB powers, load temperatures and maximum symbolic'
OUTSIDE = 'more points; row-oriented data with exactly three points (ambiguous shape); T_hot - T_cold below 1 K; floating-point rounding'


def cases(tier):
    out = []
    for k in (1, 2, 4) + ((6,) if tier == 'thorough' else ()):
        out.append(('rows%d' % k, dict(n=k, orient='row')))
        out.append(('cols%d' % k, dict(n=k, orient='col')))
    out.append(('cols3', dict(n=3, orient='col')))
    out.append(('defaults', dict(n=2, orient='col', defaults=True)))
    out.append(('bad', dict(n=2, orient='bad')))
    return out


def run(c, n, orient, defaults=False):
    np = c.np
    m = c.mod('qmix.exp.if_response')
    f = c.reals('f', n, lo=0, hi=2000)
    h = c.reals('h', n, lo=-150, hi=60)
    k = c.reals('c', n, lo=-150, hi=60)
    if orient == 'bad':
        c.check_raises('list input rejected', lambda: m.if_response([[1., 2., 3.]]))
        c.check_raises('four columns rejected', lambda: m.if_response(np.array([f, h, k, k, h])))
        c.check_eq('frequency', m.if_response(np.array([f, h, k]), t_hot=295., t_cold=77.)[0], f)
        return
    data = np.array([f, h, k])
    if orient == 'col':
        data = data.T.copy()
    before = c.copy(data)
    if defaults:
        par = c.mod('qmix.exp.parameters').params
        th, tc, mx = par['t_hot'], par['t_cold'], par['ifresp_maxtn']
        out = m.if_response(data)
    else:
        tc = c.real('tc', lo=0, hi=999)
        th = c.real('th', lo=0, hi=999)
        mx = c.real('max', lo=0.01, hi=100000)
        c.assume(th >= tc + 1)
        out = m.if_response(data, t_hot=th, t_cold=tc, ifresp_maxtn=mx)
    c.check_shape('output rows', out, (4, n))
    c.check_eq('frequency', out[0], f)
    c.check_eq('hot power', out[2], h)
    c.check_eq('cold power', out[3], k)
    c.check_eq('input unchanged', data, before)
    for i in range(n):
        y = 10 ** (h[i] / 10) / 10 ** (k[i] / 10)
        if c.truth(y > 1):
            t = (th - tc * y) / (y - 1)
            exp = c.ite(c.and_(t >= 0, t <= mx), t, mx)
        else:
            exp = mx
        c.check_eq('noise temperature', out[1, i], exp, atol=1e-6)
        c.check('noise temperature at least 0', c.le(0, out[1, i]))
        c.check('noise temperature at most the maximum', c.le(out[1, i], mx, scale=1e3))
