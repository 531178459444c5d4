"""C09: junction parameters and frequency units are mutually consistent."""
import scipy.constants as sc
EXPLANATION = 'EmbeddingCircuit constructor, set_freq and vph executed symbolically.'
BOUNDS = '1-4 tones, all seven units in mixed letter case, every tone; sweeps of 1, 2, 3, 5, 201 points; gap voltage/frequency, resistance, sweep limits and frequency values symbolic'
OUTSIDE = 'circuits given both an inconsistent gap voltage and gap frequency; floating-point rounding'


def cases(tier):
    out = []
    for src in ('vgap', 'fgap'):
        for rn in (True, False):
            out.append(('build_%s%s' % (src, '_rn' if rn else ''), dict(what='build', src=src, rn=rn)))
    for nf in (1, 2, 3, 4):
        for src in ('vgap', 'fgap'):
            out.append(('units_%d_%s' % (nf, src), dict(what='units', nf=nf, src=src)))
        out.append(('norm_%d' % nf, dict(what='norm', nf=nf)))
    return out


UNITS = dict(Hz=('f', 1), MHz=('f', sc.mega), GHz=('f', sc.giga), THz=('f', sc.tera), V=('v', 1), mV=('v', sc.milli), norm=('n', 1))


def run(c, what, nf=1, src='vgap', rn=False):
    np = c.np
    EC = c.mod('qmix.circuit').EmbeddingCircuit
    if what == 'build':
        vmin = c.real('vmin', lo=-3, hi=3)
        vmax = c.real('vmax', lo=-3, hi=3)
        c.assume(vmax >= vmin)
        r = c.real('rn', lo=0.1, hi=1e4)
        g = c.real('gap', lo=1e-4, hi=1e-2) if src == 'vgap' else c.real('gap', lo=1e11, hi=1e13)
        for n in (1, 2, 3, 5, 201):
            kw = {src: g}
            if rn:
                kw['rn'] = r
            cct = EC(2, 3, vb_min=vmin, vb_max=vmax, vb_npts=n, **kw)
            c.check_eq('%s stored' % src, getattr(cct, src), g, atol=1e-15)
            c.check_eq('vgap e = h fgap', cct.vgap * c.k(sc.e), c.k(sc.h) * cct.fgap, atol=1e-33)
            if rn:
                c.check_eq('rn stored', cct.rn, r)
                c.check_eq('igap = vgap / rn', cct.igap, cct.vgap / r, atol=1e-15)
            c.check_shape('sweep length', cct.vb, (n,))
            exp = [vmin + (vmax - vmin) * i / (n - 1) if n > 1 else vmin for i in range(n)]
            c.check_eq('uniform sweep', cct.vb, np.array(exp))
            c.check_eq('npts', cct.vb_npts, n)
            c.check_shape('vt shape', cct.vt, (3, 4))
            c.check_shape('zt shape', cct.zt, (3, 4))
            c.check_shape('vj shape', cct.initialize_vj(), (3, 4, n))
        c.check('number of signals', cct.num_n == 6 and cct.num_f == 2 and cct.num_p == 3)
        d = EC(**kw)
        c.check_eq('default sweep', d.vb, np.array([c.k(i) / 100 for i in range(201)]))
        return
    if what == 'norm':
        cct = EC(nf, 2)
        for f in range(1, nf + 1):
            x = c.real('x%d' % f, lo=0.001, hi=3)
            cct.set_freq(x, f, units=('norm', 'NORM', 'Norm')[f % 3])
            c.check_eq('normalised frequency', cct.freq[f], x)
            c.check_eq('photon voltage', cct.vph, cct.freq)
        return
    if src == 'vgap':
        vg = c.real('gap', lo=1e-4, hi=1e-2)
        fg = vg * sc.e / sc.h
        cct = EC(nf, 2, vgap=vg)
    else:
        fg = c.real('gap', lo=1e11, hi=1e13)
        vg = fg * sc.h / sc.e
        cct = EC(nf, 2, fgap=fg)
    for f in range(1, nf + 1):
        cct.freq[f] = c.real('old%d' % f, lo=0.001, hi=3)
    k = 0
    for f in range(1, nf + 1):
        for u, (kind, scale) in sorted(UNITS.items()):
            k += 1
            x = c.real('x_%s' % u, lo=0.01, hi=5000)
            before = c.copy(cct.freq)
            vt0, zt0 = c.copy(cct.vt), c.copy(cct.zt)
            uu = [u, u.upper(), u.lower(), u.swapcase()][k % 4]
            cct.set_freq(x, f, units=uu)
            exp = x * scale / (fg if kind == 'f' else vg) if kind != 'n' else x
            c.check_eq('set_freq %s' % u, cct.freq[f], exp, atol=1e-20)
            for o in range(nf + 1):
                if o != f:
                    c.check_eq('other tones unchanged', cct.freq[o], before[o], observe=False)
            c.check_eq('photon voltage', cct.vph, cct.freq)
            c.check_eq('voltages untouched', cct.vt, vt0)
            c.check_eq('impedances untouched', cct.zt, zt0)
    cct.set_freq(x)
    c.check_eq('default arguments', cct.freq[1], x / fg, atol=1e-20)
    c.check_raises('unknown unit rejected', lambda: cct.set_freq(x, 1, 'furlong'))
