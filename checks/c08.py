"""C08: available power set, read back and expressed in any unit."""
import scipy.constants as sc
EXPLANATION = 'EmbeddingCircuit.set_available_power / available_power executed symbolically.'
BOUNDS = '1-4 tones, 1-3 harmonics, every tone/harmonic, all 64 unit pairs, three letter cases; power, gap voltage, normal resistance and every circuit value symbolic'
OUTSIDE = 'sources with negative resistance; in dB units the value -inf of a zero power; floating-point rounding'
UNITS = ['W', 'mW', 'uW', 'nW', 'pW', 'fW', 'dBm', 'dBW']
SC = dict(w=1, mw=sc.milli, uw=sc.micro, nw=sc.nano, pw=sc.pico, fw=sc.femto)


def cases(tier):
    out = []
    for f, p in ((1, 1), (2, 1), (1, 3), (4, 2)) + (((3, 3), (4, 4)) if tier == 'thorough' else ()):
        out.append(('pairs_%dx%d' % (f, p), dict(nf=f, npp=p, what='pairs')))
    out.append(('zero', dict(nf=2, npp=2, what='zero')))
    out.append(('fgap', dict(nf=1, npp=2, what='pairs', fgap=True)))
    out.append(('unknown', dict(nf=1, npp=1, what='unknown')))
    return out


def circuit(c, nf, npp, fgap=False):
    m = c.mod('qmix.circuit')
    rn = c.real('rn', lo=1, hi=1000)
    if fgap:
        cct = m.EmbeddingCircuit(nf, npp, fgap=c.real('fgap', lo=1e11, hi=1e13), rn=rn)
    else:
        cct = m.EmbeddingCircuit(nf, npp, vgap=c.real('vgap', lo=1e-4, hi=1e-2), rn=rn)
    for f in range(1, nf + 1):
        cct.freq[f] = c.real('freq%d' % f, lo=0.01, hi=2)
        for p in range(1, npp + 1):
            cct.vt[f, p] = c.cplx('vt%d%d' % (f, p), lo=-2, hi=2)
            cct.zt[f, p] = c.real('zr%d%d' % (f, p), lo=1e-4, hi=50) + 1j * c.real('zx%d%d' % (f, p), lo=-5, hi=5)
    return cct, rn


def case_of(u, k):
    return [u, u.upper(), u.lower(), u.swapcase()][k % 4]


def run(c, nf, npp, what, fgap=False):
    np = c.np
    cct, rn = circuit(c, nf, npp, fgap)
    if what == 'unknown':
        for u in ('watts', 'dB', '', 'kW'):
            c.check_raises('unknown unit rejected (read)', lambda: cct.available_power(1, 1, units=u))
            c.check_raises('unknown unit rejected (set)', lambda: cct.set_available_power(c.real('pw', pos=True), 1, 1, units=u))
        c.check_eq('defaults', cct.available_power(), cct.available_power(1, 1, 'w'), atol=1e-30)
        return
    if what == 'zero':
        for k, u in enumerate(UNITS[:6]):
            cct.zt[1, 2] = 0
            c.check_eq('no impedance, no power', cct.available_power(1, 2, units=u), 0, atol=1e-30)
            cct.zt[2, 1] = 1j * c.real('zx', lo=0.1, hi=5)
            c.check_eq('reactive source, no power', cct.available_power(2, 1, units=u), 0, atol=1e-30)
        return
    e_h = c.k(sc.h) / sc.e
    vgap = c.real('fgap', lo=1e11, hi=1e13) * e_h if fgap else c.real('vgap', lo=1e-4, hi=1e-2)
    c.check_eq('gap voltage', cct.vgap, vgap, atol=1e-15)
    k = 0
    for f in range(1, nf + 1):
        for p in range(1, npp + 1):
            for us in UNITS:
                k += 1
                freq0, vt0, zt0 = c.copy(cct.freq), c.copy(cct.vt), c.copy(cct.zt)
                if us.lower() in SC:
                    x = c.real('p_%s' % us, lo=1e-9, hi=1000)
                    phys = x * SC[us.lower()]
                else:
                    x = c.real('p_%s' % us, lo=-150, hi=50)
                    phys = 10 ** (x / 10) * (1e-3 if us == 'dBm' else 1)
                cct.set_available_power(x, f, p, units=case_of(us, k))
                c.check_eq('frequencies untouched', cct.freq, freq0)
                c.check_eq('impedances untouched', cct.zt, zt0)
                for ff in range(nf + 1):
                    for pp in range(npp + 1):
                        if (ff, pp) != (f, p):
                            c.check_eq('other sources untouched', cct.vt[ff, pp], vt0[ff, pp], observe=False)
                v2 = cct.vt[f, p].real ** 2 + cct.vt[f, p].imag ** 2
                c.check_eq('power formula (%s)' % us, v2 * vgap ** 2, phys * 8 * cct.zt[f, p].real * rn, atol=1e-28)
                for j, ur in enumerate(UNITS):
                    got = cct.available_power(f, p, units=case_of(ur, k + j))
                    if ur.lower() in SC:
                        c.check_eq('read back %s as %s' % (us, ur), got, phys / SC[ur.lower()], atol=1e-28)
                    else:
                        exp = 10 * np.log10(phys * (1000 if ur == 'dBm' else 1))
                        c.check_eq('read back %s as %s' % (us, ur), got, exp, atol=1e-6)
