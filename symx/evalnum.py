"""Numeric evaluation of symbolic values at a concrete point."""
import cmath
import math
import numpy as np
from fractions import Fraction as Fr
from scipy import special
from . import core, funcs
from .core import ATOMS, Sym, SymBool


class EvalError(Exception):
    pass


class Evaluator(object):
    """values: input name -> number; seed selects the opaque functions"""

    def __init__(self, values, seed, splines=None, hilberts=None):
        self.values = values
        self.seed = seed
        self.memo = {}
        self.bm = {}
        self.splines = splines or {}
        self.hilberts = hilberts or {}
        self.spl = {}
        self.hil = {}

    def sym(self, x):
        if isinstance(x, SymBool):
            return self.bool(x)
        if not isinstance(x, Sym):
            return x
        return self.poly(x.p)

    def real(self, x):
        v = self.sym(x)
        return v.real if isinstance(v, complex) else v

    def poly(self, p):
        s = 0.0
        for m, c in p.items():
            t = float(c) if abs(c) < 10 ** 300 else math.inf
            for a, e in m:
                v = self.atom(a)
                if e == 1:
                    t = t * v
                elif isinstance(v, complex):
                    t = t * v ** (int(e) if e == int(e) else float(e))
                else:
                    if v == 0 and e < 0:
                        raise EvalError('1/0')
                    if v < 0 and e != int(e):
                        raise EvalError('root of negative')
                    t = t * v ** (int(e) if e == int(e) else float(e))
            s = s + t
        if isinstance(s, complex) and s.imag == 0:
            s = s.real
        return s

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            v = self._atom(a)
            self.memo[a] = v
        return v

    def _r(self, p):
        v = self.poly(p)
        return v.real if isinstance(v, complex) else v

    def _atom(self, a):
        A = ATOMS[a]
        k = A.kind
        if k == 'I':
            return 1j
        if k == 'var':
            return self.values.get(A.data)
        if k == 'unit':
            if A.data[0] == 'expi':
                return cmath.exp(1j * self._r({A.data[1]: 1}))
            return cmath.exp(1j * self.values.get(A.data[1]))
        if k == 'const':
            return float(A.data)
        if k == 'pow':
            b, m = A.data
            x = self._r({m: 1})
            try:
                return math.exp(x) if b == 'e' else float(b) ** x
            except OverflowError:
                raise EvalError('overflow')
        if k == 'sqrt':
            if a in core._ABSARG:
                return abs(self._r(core._ABSARG[a]))
            x = self._r(A.data)
            if x < 0:
                if x > -1e-9:
                    return 0.0
                raise EvalError('sqrt of negative')
            return math.sqrt(x)
        if k == 'inv':
            x = self.poly(A.data)
            if x == 0:
                raise EvalError('1/0')
            return 1 / x
        if k == 'ite':
            c, x, y = A.data
            return self._r(x.p) if self.bool(c) else self._r(y.p)
        if k == 'rnd':
            x = self._r(A.data[1].p)
            if A.data[0] == 'floor':
                return float(math.floor(x))
            if A.data[0] == 'round':
                return round(x, A.data[2])
            return float('%.*f' % (A.data[3], x)) if A.data[0] == 'print' else float('%.*e' % (A.data[3], x))
        if k == 'uf':
            name = A.data[0]
            if name == 'angle':
                return cmath.phase(self.poly(A.data[1].p))
            if name.startswith('hilb'):
                return self._hilb(int(name[4:]), int(A.data[1].const()))
            args = [self._r(x.p) for x in A.data[1:]]
            if name[0] == 'J' and name[1:].isdigit():
                return float(special.jv(int(name[1:]), args[0]))
            if name in ('log', 'log10'):
                if args[0] <= 0:
                    raise EvalError('log')
                return math.log(args[0]) if name == 'log' else math.log10(args[0])
            if name.startswith('rpow_'):
                return args[0] ** float(Fr(name[5:]))
            if name.startswith('spl'):
                t, d = name[3:].split('_')
                return self._spl(int(t), int(d), args[0])
            if name.startswith('F:'):
                v = float(funcs.smooth(name[2:], self.seed, *args))
                return math.exp(v) if A.pos else v
            raise EvalError('uf ' + name)
        raise EvalError(k)

    def _spl(self, t, d, x):
        s = self.spl.get(t)
        if s is None:
            from scipy.interpolate import InterpolatedUnivariateSpline as S
            o = self.splines[t]
            xs = np.array([self.real(core.lift(v)) for v in np.asarray(o.x, dtype=object)], dtype=float)
            ys = np.array([self.real(core.lift(v)) for v in np.asarray(o.y, dtype=object)], dtype=float)
            s = self.spl[t] = S(xs, ys, k=o.k)
        return float(s(x, d)) if d else float(s(x))

    def _hilb(self, t, i):
        h = self.hil.get(t)
        if h is None:
            from scipy.signal import hilbert
            xs, N = self.hilberts[t]
            h = self.hil[t] = hilbert(np.array([self.real(core.lift(v)) for v in xs], dtype=float), N=N).imag
        return float(h[i])

    def bool(self, b):
        if b.const is not None:
            return b.const
        k = id(b)
        r = self.bm.get(k)
        if r is None:
            r = self.bm[k] = (self._bool(b), b)
        return r[0]

    def _bool(self, b):
        if b.op == 'and':
            return all(self.bool(x) for x in b.args)
        if b.op == 'or':
            return any(self.bool(x) for x in b.args)
        if b.op == 'not':
            i = b.args[0]
            if i.op == '==' and i.const is None:
                return abs(self.poly(i.args[0].p)) > 1e-13
            return not self.bool(i)
        v = self.poly(b.args[0].p)
        if b.op == '==':
            return abs(v) <= 1e-9
        v = v.real if isinstance(v, complex) else v
        return v < 0 if b.op == '<' else v <= 0


def toarr(ev, x):
    """numeric copy of a scalar/array/nested structure"""
    if isinstance(x, (Sym, SymBool)):
        return ev.sym(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return toarr(ev, x.item())
        f = [toarr(ev, v) for v in np.asarray(x, dtype=object).reshape(-1)] if x.dtype == object or True else None
        return f
    if isinstance(x, (list, tuple)):
        r = []
        for v in x:
            t = toarr(ev, v)
            r.extend(t if isinstance(t, list) else [t])
        return r
    return x
