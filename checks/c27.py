"""C27: the exported result tables list every data set's values in the stated units."""
import os
import re
from checks.figcommon import Plt, Scratch, lines_of, near, saved, shown
from checks.datacommon import dcdata, pumped, NP, GRID
from symx import tokens as _t
EXPLANATION = ('plot_overall_results executed symbolically on data objects with arbitrary contents (drawing library replaced by a recorder, files written to a scratch folder); every number in the text files is a '
               'token that parses to an arbitrary real within half a unit of the last printed digit and is compared with the value and unit named by the column; the curves of every summary figure are compared with the data.')
BOUNDS = '1-4 data sets at ascending, descending or mixed frequencies, good and bad impedance fits and IF-noise fits in every mix listed in checks/c27.py; all values symbolic'
OUTSIDE = 'pixels; the values of the smoothing spline (its input requirements are checked); fewer than one data set'
OPTS = dict(max_paths=50, samples=1, max_samples=4, tokens=_t.text())
BUDGET = dict(quick=150, thorough=400)
FILES = ['dciv-data.txt', 'dciv-info.txt', 'recovered-emb.txt', 'results.txt']


def cases(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('one', sets=[[230.5, True, True]])
    add('two', sets=[[210.0, True, True], [255.25, False, False]])
    add('two_down', sets=[[255.0, False, True], [210.0, True, False]])
    add('three', sets=[[240.0, True, False], [210.0, False, True], [255.0, True, True]])
    add('four_none_good', sets=[[210.0, False, False], [220.0, False, False], [230.0, False, False], [240.0, False, False]])
    if tier == 'thorough':
        add('five', sets=[[210.0 + 7 * k, k % 2 == 0, k % 3 == 0] for k in range(5)])
    return out


def spline(x, y, w=None, bbox=(None, None), k=3, s=None, ext=0, check_finite=False):
    """what the library requires: more points than the degree, increasing positions"""
    x = [float(q) for q in x]
    if not 1 <= k <= 5 or len(x) <= k or len(x) != len(y) or any(a > b for a, b in zip(x, x[1:])):
        raise ValueError('spline input')
    return lambda q: q


def run(c, sets):
    np = c.np
    m = c.mod('qmix.exp.exp_data')
    plt = Plt(c)
    c.patch_if(m, 'plt', plt)
    c.patch_if(m, 'UnivariateSpline', spline)
    dc = dcdata(c, m)
    D = [pumped(c, m, dc, f, tag='d%d' % k, good=g, noise_fit=n) for k, (f, g, n) in enumerate(sets)]
    for k, d in enumerate(D):
        d.iv_file, d.filename_hot, d.filename_cold = 'iv%d.csv' % k, 'hot%d.csv' % k, 'cold%d.csv' % k
    vgap, rn = dc.vgap, dc.rn
    before = [[c.copy(d.voltage), c.copy(d.current), d.zt, d.vt] for d in D]
    with Scratch() as folder:
        m.plot_overall_results(dc, D, folder)
        found = {}
        for root, _, files in os.walk(folder):
            for f in files:
                found[f] = lines_of(os.path.join(root, f))
    c.check('all tables are written', all(f in found for f in FILES))
    if not all(f in found for f in FILES):
        return
    # unpumped curve
    t = found['dciv-data.txt']
    c.check('one line per dc sample', len(t) == len(GRID))
    for k, l in enumerate(t[:len(GRID)]):
        w = l.split()
        c.check('two columns', len(w) == 2)
        near(c, 'dc voltage', c.text_number(w[0]), dc.voltage[k], 1e-9)
        near(c, 'dc current', c.text_number(w[1]), dc.current[k], 1e-9)
    t = found['dciv-info.txt']
    for name, val in (('Gap voltage', vgap * 1e3), ('Normal resistance', rn), ('Gap frequency', dc.fgap / 10 ** 9)):
        hit = [l for l in t if l.startswith(name)]
        c.check(name + ' is listed', len(hit) == 1)
        near(c, name, c.text_number(hit[0][len(name):].split()[0]), val, 0.5e-2)
    # embedding circuits
    t = found['recovered-emb.txt']
    c.check('one line per data set', len(t) == len(D))
    for l, d, (f, g, n) in zip(t, D, sets):
        w = l.split('\t')
        c.check('four columns', len(w) == 4)
        near(c, 'frequency', c.text_number(w[0]), c.k(f), 1e-6)
        near(c, 'embedding voltage in mV', c.text_number(w[1]), d.vt * vgap * 1e3, 0.5e-2)
        z = re.match(r'^(.*) \+ 1j \* \((.*)\)$', w[2])
        c.check('impedance layout', z is not None)
        if z:
            near(c, 'embedding resistance in ohms', c.text_number(z.group(1).strip()), (d.zt * rn).real, 0.5e-2)
            near(c, 'embedding reactance in ohms', c.text_number(z.group(2).strip()), (d.zt * rn).imag, 0.5e-2)
        c.check('fit flag', w[3].strip() == str(g))
    # results
    t = found['results.txt']
    c.check('header and one line per data set', len(t) == len(D) + 1)
    head = [x.strip() for x in t[0].split(',')]
    col = lambda w, *names: w[[i for i, h in enumerate(head) if all(n in h for n in names)][0]]
    for k, (l, d, (f, g, n)) in enumerate(zip(t[1:], D, sets)):
        w = [x.strip() for x in l.split(',')]
        c.check('as many columns as the header', len(w) == len(head))
        if len(w) != len(head):
            return
        near(c, 'frequency', c.text_number(col(w, 'Frequency')), c.k(f), 1e-6)
        c.check('file names', col(w, 'IV Filename') == d.iv_file and col(w, 'Hot') == d.filename_hot and col(w, 'Cold') == d.filename_cold)
        near(c, 'noise temperature', c.text_number(col(w, 'Noise Temperature')), d.tn_best, 0.5e-2)
        near(c, 'gain in dB', c.text_number(col(w, 'Gain')), d.g_db, 0.5e-2)
        near(c, 'drive level', c.text_number(col(w, 'Drive')), d.alpha, 0.5e-2)
        near(c, 'embedding impedance in ohms', c.text_number(col(w, 'Embedding Impedance')), d.zt * rn, 0.5e-4)
        near(c, 'embedding voltage in mV', c.text_number(col(w, 'Embedding Voltage')), d.vt * vgap * 1e3, 0.5e-4)
        c.check('embedding flag', col(w, 'Embedding Circuit') == str(g))
        near(c, 'IF noise', c.text_number(col(w, 'IF Noise (K)')), d.if_noise, 1e-6)
        c.check('IF noise flag', col(w, 'IF Noise Recovered') == str(n))
    # summary figures
    F = [c.k(s[0]) for s in sets]
    good = [d for d in D if d.fit_good]
    Fg = [c.k(s[0]) for s in sets if s[1]]
    noise = [d for d, s in zip(D, sets) if s[2]]
    Fn = [c.k(s[0]) for s in sets if s[2]]
    Z = lambda ds, part: [getattr(d.zt * rn, part) for d in ds]
    want = [('rdyn.png', F, [d.zj_if for d in D]), ('noise_temperature.png', F, [d.tn_best for d in D]), ('noise_temperature_spline_fit.png', F, [d.tn_best for d in D]),
            ('noise_temperature_logy.png', F, [d.tn_best for d in D]), ('noise_temperature_and_gain.png', F, [d.tn_best for d in D]), ('noise_temperature_and_gain.png', F, [d.g_db for d in D]),
            ('if_noise.png', Fn, [d.if_noise for d in noise]), ('embedding_impedance.png', Fg, Z(good, 'real')), ('embedding_impedance.png', Fg, Z(good, 'imag')),
            ('embedding_impedance_all.png', F, Z(D, 'real')), ('embedding_impedance_all.png', F, Z(D, 'imag')), ('embedding_voltage.png', Fg, [d.vt * vgap * 1e3 for d in good]),
            ('drive_level.png', F, [d.alpha for d in D]), ('junction_impedance.png', F, [(d.zw * rn).real for d in D]), ('junction_impedance.png', F, [(d.zw * rn).imag for d in D])]
    for k in range(len(D)):
        want.append(('iv_curves.png', [x * vgap * 1e3 for x in D[k].voltage], [y * dc.igap * 10 ** 6 for y in D[k].current]))
    want.append(('iv_curves.png', [x * vgap * 1e3 for x in dc.voltage], [y * dc.igap * 10 ** 6 for y in dc.current]))
    for name, x, y in want:
        _, ln = saved(plt, name)
        shown(c, 'figure ' + name, ln, x, y)
    for d, b in zip(D, before):
        c.check_eq('data unchanged', d.voltage, b[0], observe=False)
        c.check_eq('data unchanged', d.current, b[1], observe=False)
        c.check('data unchanged', c.and_(d.zt == b[2], d.vt == b[3]))
