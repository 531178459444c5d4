"""Shared helpers for the harmonic-balance harnesses: the junction is a stand-in for qtcurrent."""


class Resp(object):
    def __init__(self, name):
        self.name = name


class Matrix(object):
    """stand-in for a pre-interpolated response matrix"""

    def __init__(self, cct, resp, num_b, npts):
        self.tag = (resp.name, str(num_b))
        self.vb = [x for x in cct.vb]
        self.ndim = cct.num_f + 1
        self.shape = (0,) * cct.num_f + (npts,)


def key_freq(f):
    return '%.4f' % round(float(f), 4)


def rate(f):
    return float(f.const()) if hasattr(f, 'const') and callable(getattr(f, 'const', None)) else float(f)


class Junction(object):
    """currents(f, i, re/im parts of every junction voltage at that point) as an arbitrary or affine function"""

    def __init__(self, c, kind='any', coef=None, offsets=False):
        self.c, self.kind, self.coef, self.offsets = c, kind, coef, offsets
        self.calls = 0

    def value(self, cct, tag, vb, i, f, vs):
        c = self.c
        args = []
        for v in vs:
            args += [v.real, v.imag]
        if self.kind == 'free':
            # one set of junction voltages in the whole run: the current is just a real number
            m = 'D%s.%d' % (key_freq(rate(f)), i)
            return c.real(m + 'r', lo=-3, hi=3) + 0j
        if self.kind == 'affine':
            a = self.coef(i, key_freq(rate(f)))
            s = a[0]
            for x, k in zip(args, a[1:]):
                s = s + k * x
            return s
        n = 'I.%s.%s.%s.%d' % (tag[0], tag[1], key_freq(rate(f)), i)
        # an arbitrary function plus an arbitrary offset is an arbitrary function: the offset is an input a counterexample can choose
        off = 0
        if self.offsets:
            m = 'D%s.%d' % (key_freq(rate(f)), i)
            off = c.real(m + 'r', lo=-50, hi=50) + 1j * c.real(m + 'i', lo=-50, hi=50)
        return c.fn(n + '.re')(vb, *args) + 1j * c.fn(n + '.im')(vb, *args) + off

    def qtcurrent(self, vj, cct, resp, freq_list, num_b=15, verbose=True, resp_matrix=None):
        np = self.c.np
        self.calls += 1
        try:
            fl = list(freq_list)
            scalar = False
        except TypeError:
            fl, scalar = [freq_list], True
        npts = cct.vb_npts
        out = np.zeros((len(fl), npts), dtype=complex)
        tag = (resp.name, str(num_b)) if resp_matrix is None else (resp_matrix.tag[0], str(num_b) if resp_matrix.tag[1] == str(num_b) else 'mixed limits')
        vb = cct.vb if resp_matrix is None else resp_matrix.vb
        assert vj.shape == (cct.num_f + 1, cct.num_p + 1, npts)
        for i in range(npts):
            vs = [vj[f, p, i] for f in range(1, cct.num_f + 1) for p in range(1, cct.num_p + 1)]
            for j, f in enumerate(fl):
                out[j, i] = self.value(cct, tag, vb[i], i, f, vs)
        if scalar:
            return out[0].real if rate(fl[0]) == 0 else out[0]
        return out

    def install(self, hb, npts):
        c = self.c
        qt = c.mod('qmix.qtcurrent')
        mk = lambda cct, resp, num_b: Matrix(cct, resp, num_b, npts)
        for m in (hb, qt):
            c.patch_if(m, 'qtcurrent', self.qtcurrent) if callable(getattr(m, 'qtcurrent', None)) else None
            c.patch_if(m, 'interpolate_respfn', mk)


def newton_step(c, count=[0]):
    """replace matrix inversion by an arbitrary matrix: any correction step at all"""
    np = c.np
    n = [0]

    def inv(a):
        n[0] += 1
        return c.reals('M%d' % n[0], np.shape(a), lo=-2, hi=2)

    def solve(a, b):
        n[0] += 1
        return c.reals('S%d' % n[0], np.shape(b), lo=-2, hi=2)
    c.patch(np.linalg, 'inv', inv)
    c.patch(np.linalg, 'solve', solve)
    return n


FREQ = [0.3, 0.37, 0.455, 0.512]


def circuit(c, nf, num_p, npts, zero_vt=(), zero_zt=(), vt='polar', zt='sym'):
    m = c.mod('qmix.circuit')
    cct = m.EmbeddingCircuit(nf, num_p, vb_npts=npts)
    cct.vb = c.reals('vb', npts, lo=-3, hi=3)
    for f in range(1, nf + 1):
        cct.freq[f] = FREQ[f - 1]
        for p in range(1, num_p + 1):
            if (f, p) not in zero_vt:
                cct.vt[f, p] = c.polar('VT%d%d' % (f, p), lo=1e-9, hi=2) if vt == 'polar' else vt(f, p)
            if (f, p) not in zero_zt:
                cct.zt[f, p] = (c.real('RT%d%d' % (f, p), lo=1e-3, hi=5) + 1j * c.real('XT%d%d' % (f, p), lo=-3, hi=3)) if zt == 'sym' else zt(f, p)
    return cct


def start(c, cct, name='V0', polar=True):
    np = c.np
    v = np.zeros((cct.num_f + 1, cct.num_p + 1, cct.vb_npts), dtype=complex)
    for f in range(1, cct.num_f + 1):
        for p in range(1, cct.num_p + 1):
            for i in range(cct.vb_npts):
                n = '%s_%d%d_%d' % (name, f, p, i)
                v[f, p, i] = c.polar(n, lo=1e-9, hi=2) if polar else c.real(n + 'r', lo=0.05, hi=1.5) + 1j * c.real(n + 'i', lo=-1, hi=1)
    return v


def residual(c, cct, jn, vj, resp, num_b, floor=1e-10):
    """V_T - Z_T*I(V_J) - V_J for every slot and point, source voltages that are exactly zero counted as 1e-10"""
    out = {}
    for f in range(1, cct.num_f + 1):
        for p in range(1, cct.num_p + 1):
            cur = jn.qtcurrent(vj, cct, resp, [round(FREQ[f - 1] * p, 4)], num_b)[0]
            vt = cct.vt[f, p]
            if c.truth(abs(vt) < floor):
                vt = floor
            for i in range(cct.vb_npts):
                out[f, p, i] = vt - cct.zt[f, p] * cur[i] - vj[f, p, i]
    return out


def snapshot(c, cct):
    return dict(freq=c.copy(cct.freq), vt=c.copy(cct.vt), zt=c.copy(cct.zt), vb=c.copy(cct.vb), num_f=cct.num_f, num_p=cct.num_p, num_n=cct.num_n,
                vb_npts=cct.vb_npts, vgap=cct.vgap, fgap=cct.fgap, rn=cct.rn, igap=cct.igap)


def same_circuit(c, cct, s):
    for k, v in s.items():
        c.check_eq('circuit unchanged: ' + k, getattr(cct, k), v, observe=False)
