"""Shared oracle for the tunneling-current harnesses."""
import itertools
from fractions import Fraction


def limits(num_b, nf):
    return [num_b] * nf if isinstance(num_b, int) else list(num_b)[:nf]


def jvec(c, v, p, freq, nb):
    """J_n(|v|/(p f)) exp(-i n arg v) for n = -nb..nb"""
    np = c.np
    a = abs(v) / (p * freq)
    if v is None:
        return {0: 1}
    u = v / abs(v)
    w = 1 / u
    out = {}
    for n in range(-nb, nb + 1):
        ph = c.k(1)
        for _ in range(abs(n)):
            ph = ph * (w if n > 0 else u)
        out[n] = c.bessel(n, a) * ph
    return out


def spectrum(c, vs, freq, nb, cap):
    """vs: list over harmonics of a complex voltage or None (no signal)"""
    out = None
    for p, v in enumerate(vs, 1):
        j = {0: c.k(1)} if v is None else jvec(c, v, p, freq, nb)
        if out is None:
            out = dict(j)
            continue
        new = {}
        for k, a in out.items():
            for l, b in j.items():
                if -cap <= k + p * l <= cap:
                    new[k + p * l] = new.get(k + p * l, 0) + a * b
        out = new
    return out


def conj(x):
    return x.conjugate() if hasattr(x, 'conjugate') else x


def coefficient(c, tones, resp, vb, freqs, spec, nb):
    """MTSDA coefficient for one combination of tone multiples"""
    s = [0, 0]
    for idx in itertools.product(*[range(-n, n + 1) for n in nb]):
        a = c.k(1)
        for f, k in enumerate(idx):
            if k not in spec[f]:
                a = None
                break
            a = a * spec[f][k]
        if a is None:
            continue
        r = None
        for h, sg in ((0, 1), (1, -1)):
            b = a
            for f, k in enumerate(idx):
                q = k + sg * tones[f]
                if not -nb[f] <= q <= nb[f] or q not in spec[f]:
                    b = None
                    break
                b = b * conj(spec[f][q])
            if b is None:
                continue
            if r is None:
                v = vb
                for f, k in enumerate(idx):
                    v = v + k * freqs[f]
                r = resp(v)
            s[h] = s[h] + b * r
    p, m = s[0] + 0j * c.k(1), s[1] + 0j * c.k(1)
    if not any(tones):
        return p.imag + 0j
    return p.imag + m.imag - 1j * (p.real - m.real)


def combos(freqs, num_p, fout):
    """combinations of tone multiples that form the output frequency (concrete frequencies, rounded to 4 decimals)"""
    return [t for t in itertools.product(range(-num_p, num_p + 1), repeat=len(freqs))
            if round(sum(k * f for k, f in zip(t, freqs)), 4) == round(fout, 4)]


def circuit(c, nf, num_p, npts, freqs, vb=None):
    m = c.mod('qmix.circuit')
    cct = m.EmbeddingCircuit(nf, num_p, vb_npts=npts)
    for f in range(nf):
        cct.freq[f + 1] = freqs[f]
    if vb is not None:
        cct.vb = c.copy(vb)
    return cct


def voltages(c, nf, num_p, npts, zero=(), junk=True, lo=1e-9, hi=2.5):
    """symbolic junction voltage array (f, p, point), zero for the slots in `zero`; the unused slots 0 hold junk"""
    np = c.np
    vj = np.zeros((nf + 1, num_p + 1, npts), dtype=complex)
    v = {}
    for f in range(nf + 1):
        for p in range(num_p + 1):
            for i in range(npts):
                if f == 0 or p == 0:
                    vj[f, p, i] = (0.3 - 0.1j) if junk else 0
                    continue
                if (f, p) in zero:
                    v[f, p, i] = None
                    continue
                v[f, p, i] = c.polar('V%d%d_%d' % (f, p, i), lo=lo, hi=hi)
                vj[f, p, i] = v[f, p, i]
    return vj, v
