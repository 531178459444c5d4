"""C18: cleaning data sorts it, drops NaNs and repeats, keeps the rest intact."""
EXPLANATION = 'Every clean_data function executed symbolically over all orderings, ties and NaN patterns.'
BOUNDS = '0-4 samples (thorough: 5) with every ordering and tie pattern of symbolic x, every NaN pattern up to 3 samples, at most one NaN above'
OUTSIDE = 'longer data (NumPy sorting is modelled as a stable comparison sort)'
OPTS = dict(max_paths=20000)
BUDGET = dict(quick=150, thorough=700)


def cases(tier):
    out = []
    for n in range(0, 6 if tier == 'thorough' else 5):
        for form in ('xy', 'matrix'):
            if n < 3:
                out.append(('clean_%s_%d' % (form, n), dict(what='clean', form=form, n=n, nan='all')))
            else:
                out.append(('clean_%s_%d' % (form, n), dict(what='clean', form=form, n=n, nan='none')))
                if n == 3 or tier == 'thorough':
                    for k in range(n):
                        out.append(('clean_%s_%d_nan%d' % (form, n, k), dict(what='clean', form=form, n=n, nan=k)))
        if n < 5:
            out.append(('steps_%d' % n, dict(what='steps', form='', n=n, nan='')))
    out.append(('unequal', dict(what='unequal', form='', n=3, nan='')))
    return out


def valid(v):
    return v == v if isinstance(v, float) else True


def subset_check(c, label, x, y, pairs, strict=True):
    """x strictly increasing, pairs from the input, every x value covered"""
    x, y = list(x), list(y)
    c.check(label + ': same length', len(x) == len(y))
    for a, b in zip(x[:-1], x[1:]):
        c.check(label + ': strictly increasing', a < b)
    for a, b in zip(x, y):
        c.check(label + ': pairs from the input', c.or_(*[c.and_(a == p, b == q) for p, q in pairs]) if pairs else False)
    for p, q in pairs:
        c.check(label + ': every x value kept', c.or_(*[a == p for a in x]) if x else False)


def run(c, what, form, n, nan):
    np = c.np
    m = c.mod('qmix.exp.clean_data')
    if what == 'unequal':
        x, y = c.reals('x', 3, lo=-1e3, hi=1e3), c.reals('y', 2, lo=-1e3, hi=1e3)
        c.check_raises('unequal lengths rejected', lambda: m.clean_xy(x, y))
        c.check_raises('unequal lengths rejected', lambda: m.clean_xy(y, x))
        c.check_raises('three columns rejected', lambda: m.clean_matrix(np.zeros((4, 3))))
        return
    xs = [c.real('x%d' % k, lo=-1e3, hi=1e3) for k in range(n)]
    ys = [c.real('y%d' % k, lo=-1e3, hi=1e3) for k in range(n)]
    if what == 'clean':
        for k in range(n):
            if nan == 'all':
                s = c.choice('nan%d' % k, 4)
            elif nan == 'none':
                s = 0
            else:
                s = 1 + c.choice('nan', 2) if k == nan else (c.choice('second', 2) if k == (nan + 1) % n else 0)
            if s in (1, 3):
                xs[k] = c.nan
            if s in (2, 3):
                ys[k] = c.nan
        x, y = c.array(xs), c.array(ys)
        bx, by = c.copy(x), c.copy(y)
        pairs = [(p, q) for p, q in zip(xs, ys) if valid(p) and valid(q)]
        if form == 'xy':
            a, b = m.clean_xy(x, y)
            subset_check(c, 'clean_xy', a, b, pairs)
            r = m.remove_nans_xy(x, y)
            c.check_eq('remove_nans_xy', r[0], c.array([p for p, q in pairs]))
            c.check_eq('remove_nans_xy', r[1], c.array([q for p, q in pairs]))
        else:
            mat = m.xy_to_matrix(x, y)
            c.check_shape('two columns', mat, (n, 2))
            u, v = m.matrix_to_xy(mat)
            c.check_eq('matrix_to_xy inverts', u, x)
            c.check_eq('matrix_to_xy inverts', v, y)
            bm = c.copy(mat)
            r = m.clean_matrix(mat)
            c.check('two columns', np.shape(r)[1] == 2)
            subset_check(c, 'clean_matrix', r[:, 0], r[:, 1], pairs)
            c.check_eq('matrix unchanged', mat, bm)
            c.check_eq('xy_to_matrix inverts', m.xy_to_matrix(*m.matrix_to_xy(mat)), mat)
            if n:
                q = m.remove_nans_matrix(mat)
                c.check_eq('remove_nans_matrix', q, c.array([[p, s] for p, s in pairs]) if pairs else np.zeros((0, 2)))
        c.check_eq('x unchanged', x, bx)
        c.check_eq('y unchanged', y, by)
        return
    # individual steps
    x, y = c.array(xs), c.array(ys)
    a, b = m.sort_xy(x, y)
    c.check_shape('sort keeps length', a, (n,))
    for p, q in zip(a[:-1], a[1:]):
        c.check('sorted', c.le(p, q))
    for p, q in zip(a, b):
        c.check('sorting keeps pairs', c.or_(*[c.and_(p == u, q == v) for u, v in zip(xs, ys)]))
    c.check_eq('sorting keeps the sum', sum(list(a), c.k(0)), sum(xs, c.k(0)))
    c.check_eq('sorting keeps the sum', sum(list(b), c.k(0)), sum(ys, c.k(0)))
    zs = [c.real('z%d' % k, lo=-1e3, hi=1e3) for k in range(n)]
    mat = c.array([[ys[k], xs[k], zs[k]] for k in range(n)]) if n else np.zeros((0, 3))
    bm = c.copy(mat)
    s = m.sort_matrix(mat, 1)
    for k in range(n - 1):
        c.check('sorted by column', c.le(s[k, 1], s[k + 1, 1]))
    rows = list(zip(ys, xs, zs))
    for k in range(n):
        c.check('rows kept together', c.or_(*[c.and_(s[k, 0] == p, s[k, 1] == q, s[k, 2] == r) for p, q, r in rows]))
    # removing doubles: first sample of every run of equal values
    up = True
    for k in range(n - 1):
        if not c.truth(c.le(xs[k], xs[k + 1], 0)):
            up = False
            break
    if not up:
        c.check_raises('unsorted x refused', lambda: m.remove_doubles_xy(x, y))
        c.check_raises('unsorted column refused', lambda: m.remove_doubles_matrix(mat, 1))
        c.check_raises('unsorted column refused', lambda: m.remove_doubles_matrix(m.xy_to_matrix(x, y)))
    keep = [k for k in range(n) if k == 0 or c.truth(xs[k] != xs[k - 1])]
    for chk in ((True, False) if up else (False,)):
        a, b = m.remove_doubles_xy(x, y, chk)
        c.check_eq('remove_doubles_xy x', a, c.array([xs[k] for k in keep]))
        c.check_eq('remove_doubles_xy y', b, c.array([ys[k] for k in keep]))
        r = m.remove_doubles_matrix(mat, 1, chk)
        c.check_eq('remove_doubles_matrix', r, c.array([[ys[k], xs[k], zs[k]] for k in keep]) if n else np.zeros((0, 3)))
    c.check_eq('matrix unchanged', mat, bm)
