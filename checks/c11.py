"""C11: set_alpha produces the requested junction drive level."""
EXPLANATION = 'EmbeddingCircuit.set_alpha executed symbolically; V_J is the voltage divider of the stored Thevenin source and the junction impedance.'
BOUNDS = '1-4 tones, 1-3 harmonics, every (tone, harmonic); alpha, frequencies, complex impedances and junction impedance symbolic'
OUTSIDE = 'Z_T + Z_J = 0; floating-point rounding'


def cases(tier):
    s = [(1, 1), (2, 2), (1, 3), (4, 3)] + ([(3, 4), (2, 6)] if tier == 'thorough' else [])
    out = [('%dx%d_%s' % (f, p, z), dict(nf=f, npp=p, zj=z)) for f, p in s for z in ('real', 'complex')]
    return out + [('default_zj', dict(nf=1, npp=2, zj='default'))]


def run(c, nf, npp, zj):
    cct = c.mod('qmix.circuit').EmbeddingCircuit(nf, npp)
    for f in range(1, nf + 1):
        cct.freq[f] = c.real('freq%d' % f, lo=1e-4, hi=3)
        for p in range(1, npp + 1):
            cct.vt[f, p] = c.cplx('vt%d%d' % (f, p), lo=-2, hi=2)
            cct.zt[f, p] = c.real('zr%d%d' % (f, p), lo=1e-6, hi=9) + 1j * c.real('zx%d%d' % (f, p), lo=-5, hi=5)
    z = dict(real=c.real('zj', lo=1e-3, hi=9), default=0.66)[zj] if zj != 'complex' else \
        c.real('zj', lo=1e-3, hi=9) + 1j * c.real('xj', lo=-4, hi=4)
    for f in range(1, nf + 1):
        for p in range(1, npp + 1):
            a = c.real('alpha%d%d' % (f, p), lo=0, hi=5)
            freq, vt, zt = c.copy(cct.freq), c.copy(cct.vt), c.copy(cct.zt)
            if zj == 'default':
                cct.set_alpha(a, f, p) if (f, p) != (1, 1) else cct.set_alpha(a)
            else:
                cct.set_alpha(a, f, p, zj=z)
            # V_J (Z_T + Z_J) = V_T Z_J
            t = cct.vt[f, p] * z
            s = zt[f, p] + z
            c.check_eq('drive level', t.real ** 2 + t.imag ** 2, (a * p * freq[f]) ** 2 * (s.real ** 2 + s.imag ** 2))
            c.check_eq('frequencies untouched', cct.freq, freq)
            c.check_eq('impedances untouched', cct.zt, zt)
            for ff in range(nf + 1):
                for pp in range(npp + 1):
                    if (ff, pp) != (f, p):
                        c.check_eq('other sources untouched', cct.vt[ff, pp], vt[ff, pp], observe=False)
