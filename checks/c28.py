"""C28: figures show the data in physical units."""
from fractions import Fraction as Fr
from checks.figcommon import Plt, Scratch, shown, labelled, printed, near, saved
from checks.datacommon import O, dcdata, pumped, stub, frac, NP, NZ, NI, NIZ, GRID
from checks.respcommon import small_grid, all_points
from symx import tokens as _t
EXPLANATION = ('the plotting methods of DCData, PumpedData and RespFn executed symbolically on objects with arbitrary contents; the drawing library is replaced by a recorder, and every curve, marker, marker line '
               'and number in a legend is compared with the data converted to physical units (or, for response functions, with the stored tables).')
BOUNDS = ('dc curve of 14 samples, pumped curve of 48 samples (some beyond the measured range), 36 IF samples (some without signal); gap voltage, resistances, currents, powers, noise temperatures, gains, impedances symbolic; '
          'every method with a file name and with supplied axes; best index 0, 7 and 33; several fit ranges')
OUTSIDE = 'pixels, colours, axis limits, tick marks, fonts; plot_if_spectrum'
OPTS = dict(max_paths=60, samples=1, max_samples=4, tokens=_t.text(), fork_floor=True)
BUDGET = dict(quick=250, thorough=600)


def cases(tier):
    out = []

    def add(name, what, **k):
        out.append((name, dict(what=what, **k)))
    add('dciv', 'dciv')
    add('dciv_vleak', 'dciv', vleak=1e-3)
    add('dcif', 'dcif')
    add('nodcif', 'nodcif')
    add('pumped', 'pump', best=7)
    add('pumped_nodcif', 'pump', best=0, dcif=False)
    add('pumped_last', 'pump', best=33)
    add('error_surface', 'surface')
    add('error_surface_range', 'surface', remb=(0.1, 0.7), xemb=(-0.4, 0.9))
    add('simulated', 'simulated')
    add('simulated_range', 'simulated', fit=(0.1, 0.95))
    add('simulated_cut', 'simulated', fit=None, cut=(0.3, 0.15))
    add('all_dc', 'everything_dc')
    add('all_pumped', 'everything_pumped')
    add('respfn', 'respfn')
    return out


def run(c, what, **k):
    globals()[what](c, c.mod('qmix.exp.exp_data'), c.np, **k)


def figure(c, m, call, two=False):
    """draw into a file and into supplied axes; returns the recorders of both"""
    out = []
    plt = Plt(c)
    c.patch_if(m, 'plt', plt)
    r = call(fig_name='figure.png')
    c.check('nothing is returned when saved', r is None)
    f, ln = saved(plt, 'figure.png')
    c.check('figure saved under the given name', f is not None)
    out.append((plt, f.axes if f else [], ln))
    plt = Plt(c)
    c.patch_if(m, 'plt', plt)
    fig, ax = plt.subplots()
    axes = (ax, plt.grid(fig, (), {})) if two else ax
    r = call(ax=axes)
    c.check('axes are returned', r is not None and all(hasattr(x, 'lines') for x in (r if two else [r])))
    c.check('not saved without a name', not any(x.saved for x in plt.figs))
    out.append((plt, fig.axes, fig.lines()))
    return out


def units(d):
    return d.vgap * 1e3, d.igap * 10 ** 6


def scaled(xs, u):
    return [x * u for x in xs]


def line(c, label, axes, v):
    """a vertical marker line at this voltage"""
    vs = [x for a in axes for x in a.vlines]
    c.check(label, c.or_(*[c.and_(c.le(x - v, 1e-6), c.le(v - x, 1e-6)) for x in vs]) if vs else False)


def dciv(c, m, np, vleak=2e-3):
    dc = dcdata(c, m, **(dict(vleak=vleak) if vleak != 2e-3 else {}))
    mv, ua = units(dc)
    V, I = scaled(dc.voltage, mv), scaled(dc.current, ua)
    il = np.interp(frac(c, vleak) / dc.vgap, dc.voltage, dc.current) * ua
    for plt, ax, ln in figure(c, m, dc.plot_dciv):
        labelled(c, 'dc I-V curve', ln, 'DC I-V', V, I)
        t = labelled(c, 'gap voltage marker', ln, '$V_', [mv], [np.interp(c.k(1), dc.voltage, dc.current) * ua])
        printed(c, 'gap voltage in the legend', t, mv, 2)
        t = labelled(c, 'leakage current marker', ln, '$I_', [frac(c, vleak) * 1000], [il])
        printed(c, 'leakage current in the legend', t, il, 2)
        t = labelled(c, 'normal-state line', ln, '$R_\\mathrm{{n}}', V, [(x / 1000 - dc.vint) / dc.rn * 10 ** 6 for x in V])
        printed(c, 'normal resistance in the legend', t, dc.rn, 2)
        t = [l.label for l in ln if isinstance(l.label, str) and l.label.startswith('$R_\\mathrm{{sg}}')]
        c.check('subgap resistance in the legend', len(t) == 1)
        if t:
            printed(c, 'subgap resistance in the legend', t[0], dc.rsg, 1)
    mask = [k for k, x in enumerate(GRID) if abs(x * 2.8) < 0.2]
    for plt, ax, ln in figure(c, m, dc.plot_offset):
        shown(c, 'curve around the origin', ln, [V[k] for k in mask], [I[k] for k in mask])


def dcif(c, m, np):
    dc = dcdata(c, m)
    mv, ua = units(dc)
    V, I = scaled(dc.voltage, mv), scaled(dc.current, ua)
    for plt, ax, ln in figure(c, m, dc.plot_if_noise, two=True):
        labelled(c, 'dc I-V curve', ln, 'I-V curve', V, I)
        labelled(c, 'normal-state line', ln, 'Normal', V, [(x / 1000 - dc.vint) / dc.rn * 10 ** 6 for x in V])
        labelled(c, 'IF power', ln, 'IF Power', scaled(dc.if_data[:, 0], mv), list(dc.if_data[:, 1]))
        labelled(c, 'shot-noise line', ln, '5.8', scaled(dc.shot_slope[:, 0], mv), list(dc.shot_slope[:, 1]))
        t = labelled(c, 'IF noise marker', ln, 'IF noise', [dc.vint * 1000], [dc.if_noise])
        printed(c, 'IF noise in the legend', t, dc.if_noise, 2)
        line(c, 'intercept voltage', ax, dc.vint * 1000)


def nodcif(c, m, np):
    dc = dcdata(c, m, dcif=False)
    plt = Plt(c)
    c.patch_if(m, 'plt', plt)
    c.check('nothing to draw without IF data', dc.plot_if_noise('x.png') is None and not [f for f in plt.figs if f.saved])


def both(c, dc, p):
    mv, ua = units(dc)
    on = list(range(3, NP - NZ))
    return scaled(dc.voltage, mv), scaled(dc.current, ua), [p.voltage[k] * mv for k in on], [p.current[k] * ua for k in on]


def smooth(c, x):
    return list(c.mod('qmix.mathfn.filters').gauss_conv(c.np.array(list(x)), 5))


def pump(c, m, np, best, dcif=True):
    dc = dcdata(c, m, dcif=dcif)
    p = pumped(c, m, dc, 230.5, best=best)
    mv, ua = units(dc)
    V, I, W, J = both(c, dc, p)
    on = list(range(NI - NIZ))
    B = [p.if_hot[k, 0] * mv for k in range(NI)]
    for f in (p.plot_iv, p.plot_ivif):
        for plt, ax, ln in figure(c, m, f, two=f == p.plot_ivif):
            labelled(c, 'unpumped curve', ln, 'Unpumped', V, I)
            labelled(c, 'pumped curve', ln, 'Pumped', W, J)
            line(c, 'gap voltage', ax, mv)
            line(c, 'end of the photon step', ax, mv - p.vph * mv)
            if f == p.plot_ivif:
                labelled(c, 'hot power', ln, 'Hot', [B[k] for k in on], [p.if_hot[k, 1] for k in on])
                labelled(c, 'cold power', ln, 'Cold', [B[k] for k in on], [p.if_cold[k, 1] for k in on])
            else:
                t = [x for a in ax for x in a.legends if isinstance(x, str) and x.startswith('LO')]
                c.check('LO frequency in the legend', len(t) == 1)
                if t:
                    printed(c, 'LO frequency in the legend', t[0], c.k(Fr(461, 2)), 1)
    for plt, ax, ln in figure(c, m, p.plot_if):
        labelled(c, 'hot power', ln, 'Hot', B, list(p.if_hot[:, 1]))
        labelled(c, 'cold power', ln, 'Cold', B, list(p.if_cold[:, 1]))
        if dcif:
            labelled(c, 'power without LO', ln, 'No LO', scaled(dc.if_data[:, 0], mv), list(dc.if_data[:, 1]))
        else:
            c.check('no curve without LO', not [l for l in ln if l.label == 'No LO'])
    for plt, ax, ln in figure(c, m, p.plot_noise_temp, two=True):
        labelled(c, 'hot power, smoothed', ln, 'Hot', [B[k] for k in on], smooth(c, [p.if_hot[k, 1] for k in on]))
        labelled(c, 'cold power, smoothed', ln, 'Cold', [B[k] for k in on], smooth(c, [p.if_cold[k, 1] for k in on]))
        labelled(c, 'noise temperature', ln, 'Noise', [B[k] for k in on], [p.tn[k] for k in on])
        t = labelled(c, 'best noise temperature', ln, '$T_', [B[best]], [p.tn[best]])
        printed(c, 'best noise temperature in the legend', t, p.tn[best], 1)
    for plt, ax, ln in figure(c, m, p.plot_gain):
        labelled(c, 'gain in percent', ln, '$G_', B, [g * 100 for g in p.gain])
    for plt, ax, ln in figure(c, m, p.plot_gain_noise_temp, two=True):
        labelled(c, 'gain', ln, 'Gain', B, list(p.gain))
        labelled(c, 'noise temperature', ln, 'Noise', B, list(p.tn))
        shown(c, 'best noise temperature', [l for l in ln if l.label == ''], [B[best]], [p.tn[best]])
        shown(c, 'gain there', [l for l in ln if l.label == ''], [B[best]], [p.gain[best]])
        t = [x for a in ax for x in a.notes]
        c.check('two annotations', len(t) == 2)
        for s, xy in t:
            v, d = (p.gain[best], 2) if s.startswith('$G_') else (p.tn[best], 1)
            printed(c, 'annotated value', s, v, d)
            near(c, 'annotated point', xy[0], B[best], 1e-6)
            near(c, 'annotated point', xy[1], v, 1e-6)
    hot, cold = [c.k(20 + k) for k in range(NI)], [c.k(5 + k / 8.) for k in range(NI)]
    p.if_hot[:, 1] = np.array(hot)       # no samples without signal: the ratio is finite
    p.if_cold[:, 1] = np.array(cold)
    for plt, ax, ln in figure(c, m, p.plot_yfac_noise_temp, two=True):
        labelled(c, 'Y-factor', ln, 'Y-factor', B, [a / b for a, b in zip(smooth(c, hot), smooth(c, cold))])
        labelled(c, 'noise temperature', ln, 'Noise', B, list(p.tn))
        shown(c, 'best noise temperature', [l for l in ln if l.label == ''], [B[best]], [p.tn[best]])
        t = [x for a in ax for x in a.notes]
        c.check('one annotation', len(t) == 1)
        for s, xy in t:
            printed(c, 'annotated value', s, p.tn[best], 1)
            near(c, 'annotated point', xy[0], B[best], 1e-6)


def surface(c, m, np, remb=(0, 1), xemb=(-1, 1)):
    dc = dcdata(c, m)
    p = pumped(c, m, dc, 230.5, iff=False, **({} if remb == (0, 1) else dict(remb_range=remb, xemb_range=xemb)))
    e = np.array([[c.k(Fr(1 + i * 201 + j, 10 ** 7)) for j in range(201)] for i in range(101)]) if False else np.ones((101, 201)) * 0.001
    spots = [(0, 0), (0, 200), (100, 0), (100, 200), (37, 11), (64, 150)]
    for i, j in spots:
        e[i, j] = c.real('e%d_%d' % (i, j), lo=1e-9, hi=1e-4)
    p.err_surf = e
    for plt, ax, ln in figure(c, m, p.plot_error_surface):
        M = [x for a in ax for x in a.maps]
        c.check('one map', len(M) == 1 and len(M[0]) == 3)
        if len(M) != 1 or len(M[0]) != 3:
            return
        X, Y, C = M[0]
        ok = np.shape(C) == (201, 101) and np.shape(X) in ((201, 101), (101,)) and np.shape(Y) in ((201, 101), (201,))
        c.check('map layout', ok)
        if not ok:
            return
        for i, j in spots:
            c.check_eq('resistance axis in ohms', X[i] if np.ndim(X) == 1 else X[j, i], dc.rn * (frac(c, remb[0]) + (frac(c, remb[1]) - frac(c, remb[0])) * i / 100))
            c.check_eq('reactance axis in ohms', Y[j] if np.ndim(Y) == 1 else Y[j, i], dc.rn * (frac(c, xemb[0]) + (frac(c, xemb[1]) - frac(c, xemb[0])) * j / 200))
            c.check_eq('logarithm of the error', C[j, i], np.log10(e[i, j]))
        t = [x for a in ax for x in a.notes if x[1] is not None]
        c.check('the minimum is annotated', len(t) == 1)
        for s, xy in t:
            near(c, 'annotated resistance', xy[0], (p.zt * dc.rn).real, 1e-6)
            near(c, 'annotated reactance', xy[1], (p.zt * dc.rn).imag, 1e-6)
            printed(c, 'annotated impedance', s, p.zt * dc.rn, 2)


def simulated(c, m, np, fit=(0.25, 0.8), cut=None):
    dc = dcdata(c, m)
    kw = {} if fit == (0.25, 0.8) else dict(fit_range=fit)
    if cut:
        kw.update(cut_low=cut[0], cut_high=cut[1])
    p = pumped(c, m, dc, 230.5, iff=False, **kw)
    cur = np.array([[c.real('s%d' % k, lo=0, hi=2) for k in range(201)], [c.k(0)] * 201]) + 1j * 0
    vj = np.zeros((2, 2, 201)) + 1j * 0
    seen = []

    def hb(cct, resp, *a, **k):
        seen.append(('hb', cct, resp))
        return vj

    def qt(v, cct, resp, f, *a, **k):
        seen.append(('qt', cct, resp, v, f))
        return cur if np.ndim(f) else cur[0]
    stub(c, m, 'qmix.harmonic_balance', 'harmonic_balance', hb)
    stub(c, m, 'qmix.qtcurrent', 'qtcurrent', qt)
    mv, ua = units(dc)
    V, I, W, J = both(c, dc, p)
    lo, hi = (frac(c, fit[0]), frac(c, fit[1])) if fit else (frac(c, cut[0]), 1 - frac(c, cut[1]))
    vb = [frac(c, k / 100.) for k in range(201)]
    ends = [(1 - p.vph + p.vph * lo), (1 - p.vph + p.vph * hi)]
    for plt, ax, ln in figure(c, m, p.plot_simulated):
        labelled(c, 'unpumped curve', ln, 'Unpumped', V, I)
        labelled(c, 'measured pumped curve', ln, 'Pumped', W, J)
        labelled(c, 'simulated pumped curve', ln, 'Simulated', scaled(vb, mv), [x.real * ua for x in cur[0]])
        h = [l for l in ln if isinstance(l.label, str) and l.label.startswith('Fit')]
        c.check('fit interval is marked', len(h) == 1 and len(h[0].x) == 2)
        if h:
            c.check_eq('ends of the interval used by the recovery', np.array(list(h[0].x)), np.array([e * mv for e in ends]))
            r = np.interp(np.array(ends), np.array(vb), np.array([x.real for x in cur[0]]))
            c.check_eq('markers lie on the simulated curve', np.array(list(h[0].y)), r * ua)
        line(c, 'gap voltage', ax, mv)
        line(c, 'end of the photon step', ax, mv - p.vph * mv)
        t = [x for a in ax for x in a.legends if isinstance(x, str)]
        c.check('legend title', len(t) == 1)
        t = t[0].split('\n') if t else []
        for start, val, d in (('LO', c.k(Fr(461, 2)), 1), ('$V_{ph}', p.vph * mv, 2), ('$V_T', p.vt * mv, 2), ('$Z_T', p.zt * dc.rn, 2)):
            s = [x for x in t if x.startswith(start)]
            c.check('%s in the legend' % start, len(s) == 1)
            if s:
                printed(c, '%s in the legend' % start, s[0], val, d)
    c.check('two simulations', len([s for s in seen if s[0] == 'hb']) == 2 and len([s for s in seen if s[0] == 'qt']) == 2)
    for s in seen:
        cct = s[1]
        c.check_eq('simulated frequency', cct.freq[1], p.vph)
        c.check_eq('simulated impedance', cct.zt[1, 1], p.zt)
        c.check_eq('simulated voltage', cct.vt[1, 1], p.vt)
        c.check('smeared response function', s[2] is dc.resp_smear)
        c.check_shape('bias points', cct.vb, (201,))
        if s[0] == 'qt':
            c.check('junction voltage of the simulation', s[3] is vj)


def everything_dc(c, m, np):
    """plot_all saves one figure of every kind, under different names"""
    for dcif in (True, False):
        dc = dcdata(c, m, dcif=dcif)
        plt = Plt(c)
        c.patch_if(m, 'plt', plt)
        with Scratch() as d:
            dc.plot_all(d)
            names = [n for f in plt.figs for n, _ in f.saved]
            c.check('figures are saved in the folder', all(str(n).startswith(d) for n in names))
        c.check('every figure has its own file', len(names) == (2 if dcif else 1) and len(set(names)) == len(names))
        labelled(c, 'dc figure', [l for f in plt.figs for l in f.lines()], 'DC I-V', scaled(dc.voltage, dc.vgap * 1e3), scaled(dc.current, dc.igap * 10 ** 6))


def everything_pumped(c, m, np):
    dc = dcdata(c, m)
    names = {}
    every = []
    for fr in (230.5, 230.625, 1040.25):
        every.append(set())
        x = pumped(c, m, dc, fr)
        for k in ('plot_iv', 'plot_ivif', 'plot_noise_temp', 'plot_error_surface', 'plot_simulated'):
            setattr(x, k, lambda fig_name=None, **kw: every[-1].add(fig_name))
        with Scratch() as d:
            x.plot_all(d)
            every[-1] = {str(n)[len(d):] for n in every[-1]}
    c.check('data sets do not overwrite each other', not (every[0] & every[1] or every[0] & every[2]))
    for emb in (True, False):
        for fs in (None, ''):
            p = pumped(c, m, dc, 230.5, emb=emb)
            done = []
            for k in ('plot_iv', 'plot_ivif', 'plot_noise_temp', 'plot_error_surface', 'plot_simulated'):
                setattr(p, k, lambda fig_name=None, k=k, **kw: done.append((k, fig_name)))
            plt = Plt(c)
            c.patch_if(m, 'plt', plt)
            with Scratch() as d:
                p.plot_all(d, **({} if fs is None else dict(file_struc=fs)))
                c.check('figures go to the folder', all(str(n).startswith(d) for _, n in done))
                import os
                c.check('the folders exist', all(os.path.isdir(os.path.dirname(n)) for _, n in done))
            c.check('the figures that apply', sorted(k for k, _ in done) == sorted(['plot_iv', 'plot_ivif', 'plot_noise_temp'] + (['plot_error_surface', 'plot_simulated'] if emb else [])))
            c.check('every figure has its own file', len(set(n for _, n in done)) == len(done))


def respfn(c, m, np):
    r = c.mod('qmix.respfn')
    v = small_grid(c, r, keep=all_points)
    i = np.array([c.real('i%d' % k, lo=0.5 * k, hi=0.5 * k + 0.4) if k else c.k(0) for k in range(len(v))])
    x = r.RespFn(v, i, verbose=False)
    for call in (x.plot, x.plot_interpolation, x.show_current):
        for plt, ax, ln in figure(c, r, call):
            if call == x.plot:
                shown(c, 'dc curve', ln, x.voltage, x.current)
                shown(c, 'KK transform', ln, x.voltage_kk, x.current_kk)
            else:
                for n, a, b, f in (('dc', x.voltage, x.current, x.idc), ('kk', x.voltage_kk, x.current_kk, x.ikk)):
                    labelled(c, 'table ' + n, ln, '$I_\\mathrm{{%s}}^0(V_0)$: imported' % n, a, b)
                    labelled(c, 'interpolation ' + n, ln, '$I_\\mathrm{{%s}}^0(V_0)$: interpolated' % n, a, f(a))
