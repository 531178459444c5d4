"""C10: a saved circuit reads back to printed precision."""
import os
import tempfile
from symx import tokens as _t
EXPLANATION = ('save_info writes to a scratch file and read_circuit parses it; every printed symbolic number is a text token that parses to '
               'an arbitrary real within half a unit of the last printed digit (contract of correctly rounded formatting).')
BOUNDS = '1-4 tones, 1-12 harmonics (thorough: 20); every frequency, complex voltage and impedance symbolic (any sign)'
OUTSIDE = 'numbers so large that float text needs an exponent; host float formatting/parsing (modelled by its rounding contract)'
OPTS = dict(tokens=_t.text())


def cases(tier):
    s = [(1, 1), (2, 2), (3, 4), (4, 3), (1, 12), (4, 11), (2, 10)]
    if tier == 'thorough':
        s += [(4, 20), (3, 12), (1, 100)]
    return [('%dx%d' % x, dict(nf=x[0], npp=x[1])) for x in s] + [('gap2x3', dict(nf=2, npp=3, gap=True)), ('resave2x2', dict(nf=2, npp=2, twice=True))]


def run(c, nf, npp, gap=False, twice=False):
    m = c.mod('qmix.circuit')
    kw = dict(vgap=c.real('vgap', lo=1e-3, hi=3e-3), rn=c.real('rn', lo=5, hi=20)) if gap else {}
    cct = m.EmbeddingCircuit(nf, npp, **kw)
    for f in range(1, nf + 1):
        cct.freq[f] = c.real('freq%d' % f, lo=0, hi=99)
        for p in range(1, npp + 1):
            cct.vt[f, p] = c.cplx('vt%d_%d' % (f, p), lo=-999, hi=999)
            cct.zt[f, p] = c.cplx('zt%d_%d' % (f, p), lo=-9999, hi=9999)
    freq, vt, zt = c.copy(cct.freq), c.copy(cct.vt), c.copy(cct.zt)
    d = tempfile.mkdtemp(prefix='qmixc10')
    fn = os.path.join(d, 'circuit.txt')
    try:
        if twice:
            cct.save_info(fn)
            cct.freq[1] = c.real('freqnew', lo=0, hi=99)
            freq = c.copy(cct.freq)
        cct.save_info(fn)
        new = m.read_circuit(fn)
    finally:
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        os.rmdir(d)
    c.check('number of tones and harmonics', new.num_f == nf and new.num_p == npp)
    c.check_shape('frequency slots', new.freq, (nf + 1,))
    c.check_shape('voltage slots', new.vt, (nf + 1, npp + 1))
    c.check_shape('impedance slots', new.zt, (nf + 1, npp + 1))
    c.check_eq('circuit unchanged by saving', cct.vt, vt)
    c.check_eq('circuit unchanged by saving', cct.zt, zt)
    c.check_eq('circuit unchanged by saving', cct.freq, freq)

    def near(lab, a, b, h):
        for x, y in ((a.real, b.real), (a.imag, b.imag)):
            c.check(lab, c.and_(c.le(x - y, h), c.le(y - x, h)))
    for f in range(1, nf + 1):
        near('frequency of tone %d' % f, new.freq[f], freq[f], 0.5e-4)
        for p in range(1, npp + 1):
            near('voltage %d,%d' % (f, p), new.vt[f, p], vt[f, p], 0.5e-4)
            near('impedance %d,%d' % (f, p), new.zt[f, p], zt[f, p], 0.5e-2)
    c.observe('freq', new.freq)
    c.observe('vt', new.vt)
    c.observe('zt', new.zt)
