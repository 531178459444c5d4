"""C13: measured I-V data is resampled faithfully into a response function."""
from checks.respcommon import small_grid, some_points, check_table, check_views
EXPLANATION = 'RespFnFromIVData executed symbolically; the tabulated curve is compared with the piecewise-linear curve through the accepted samples.'
BOUNDS = 'up to 10 samples (negative, zero, positive, beyond the limit; symbolic position inside a cell of the 36- or 71-point grid), every current and the voltage limit symbolic; data sets with 1-7 accepted samples; smear on/off'
OUTSIDE = 'the 7001-point grid is replaced by a coarser one and its interpolation-point selection by a fixed subset; unsorted data (np.interp needs sorted samples)'
OPTS = dict(max_paths=400, huge=4)
BUDGET = dict(quick=100, thorough=400)
# sample cells: position = cell + offset in (0, 1) unless the offset is disabled
SETS = dict(dense=([-2, -1, 0, 1, 2, 3, 4, 5], True), coarse=([-3, 1, 4, 6, 9], True), one=([-1, 2], True), nozero=([1, 3, 4, 8], True),
            ongrid=([-2, -1, 0, 1, 2, 3, 5, 6], False), samecell=([0, 0.5, 1, 1.5, 4, 4.5], True))


def cases(tier):
    out = []
    for s in SETS:
        out.append((s, dict(s=s, n=36, lim='default' if s in ('one',) else 'sym', kw={})))
    out.append(('dense_lim', dict(s='dense', n=71, lim='sym', kw=dict(kk_n=3))))
    out.append(('grid_default', dict(s='ongrid', n=71, lim='default', kw={})))
    out.append(('smear', dict(s='coarse', n=36, lim='sym', kw=dict(v_smear=1.0, kk_n=2))))
    if tier == 'thorough':
        out.append(('dense_fine', dict(s='dense', n=141, lim='sym', kw={})))
        out.append(('nozero_fine', dict(s='nozero', n=141, lim='sym', kw={})))
    return out


def run(c, s, n, lim, kw):
    np = c.np
    m = c.mod('qmix.respfn')
    g = c.mod('qmix.mathfn.filters').gauss_conv
    grid = small_grid(c, m, n, keep=some_points)
    step = c.k(35) / (n - 1)
    cells, move = SETS[s]
    unit = 1 if s != 'grid' else 1
    if lim == 'default':
        cells = [x * 0.35 for x in cells]
    v = []
    for j, x in enumerate(cells):
        if move:
            d = c.real('d%d' % j, lo=1e-6, hi=0.45) * (0.35 if lim == 'default' else 1)
        else:
            d = 0
        v.append(c.k(x) + d)
    v = c.array(v)
    i = c.reals('i', len(cells), lo=-10, hi=10)
    kw = dict(kw, verbose=False)
    if lim == 'sym':
        L = kw['vlimit'] = c.real('vlimit', lo=1.6, hi=7.4)
    else:
        L = 1.8
    bv, bi = c.copy(v), c.copy(i)
    acc = [k for k in range(len(cells)) if c.truth(v[k] > 0) and c.truth(v[k] < L)]
    if not acc:
        return
    r = m.RespFnFromIVData(v, i, **kw)
    xs = [c.k(0)] + [v[k] for k in acc]
    ys = [c.k(0)] + [i[k] for k in acc]
    exp = []
    for q in grid:
        for a in range(len(xs) - 1, -1, -1):
            if c.truth(c.le(xs[a], q, 0)):
                break
        if a == len(xs) - 1:
            exp.append(ys[a] + q - xs[a])
        else:
            exp.append(ys[a] + (ys[a + 1] - ys[a]) * (q - xs[a]) / (xs[a + 1] - xs[a]))
    exp = np.array(exp)
    full = np.r_[-exp[::-1][:-1], exp]
    V = np.r_[-grid[::-1][:-1], grid]
    c.check_eq('grid', r.voltage, V)
    if kw.get('v_smear'):
        full = g(full - V, kw['v_smear'] / step) + V
    c.check_eq('resampled curve', r.current, full)
    check_table(c, r, kw.get('kk_n', 50))
    q = c.real('q', lo=-5, hi=5)
    check_views(c, r, q)
    c.check_eq('voltage unchanged', v, bv)
    c.check_eq('current unchanged', i, bi)
    # samples at negative bias or beyond the limit have no influence
    w = np.array([i[k] if k in acc else c.real('o%d' % k, lo=-10, hi=10) for k in range(len(cells))])
    r2 = m.RespFnFromIVData(v, w, **kw)
    c.check_eq('ignored samples', r2.current, r.current)
