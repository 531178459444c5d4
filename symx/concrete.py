"""Concrete twin of the symbolic context: the same harness runs against the real package."""
from .binding import as_called
import cmath
import importlib
import math
from fractions import Fraction
import random
import numpy as np
from . import funcs


class Skip(BaseException):
    """this point does not satisfy the harness's assumptions"""


class CRespFn(object):
    """arbitrary smooth response function"""
    symbolic = False

    def __init__(self, c, name):
        self.c, self.name = c, name

    def _f(self, part, v):
        return funcs.smooth(self.name + '.' + part, self.c.seed, np.asarray(v, dtype=float) if not np.isscalar(v) else float(v))

    def idc(self, v):
        return self._f('idc', v)

    def ikk(self, v):
        return self._f('ikk', v)

    def didc(self, v):
        return self._f('didc', v)

    def dikk(self, v):
        return self._f('dikk', v)

    def resp(self, v):
        return self.ikk(v) + 1j * self.idc(v)

    def resp_conj(self, v):
        return self.ikk(v) - 1j * self.idc(v)

    def resp_swap(self, v):
        return self.idc(v) + 1j * self.ikk(v)

    __call__ = resp


class ConcreteCtx(object):
    symbolic = False
    np = np
    pi = np.pi
    nan = float('nan')

    def __init__(self, values, choices, seed, rtol=1e-6):
        self.values = dict(values or {})
        self.choices = dict(choices or {})
        self.seed = seed
        self.rtol = rtol
        self.fails = []
        self.observed = {}
        self.nobs = {}
        self.used = {}
        self.patched = []

    # inputs
    def _val(self, name, gen):
        v = self.values.get(name)
        if v is None:
            v = gen(random.Random('%s|%s' % (name, self.seed)))
            self.values[name] = v
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False):
        v = float(self._val(name, lambda r: draw(r, lo, hi, pos, nonneg, nonzero)))
        eps = 1e-9
        if (lo is not None and v < lo - eps) or (hi is not None and v > hi + eps) or (pos and v <= 0) or (nonneg and v < 0) \
                or (nonzero and v == 0):
            raise Skip(name)
        return v

    def reals(self, name, shape, **kw):
        shape = (shape,) if isinstance(shape, int) else shape
        return np.array([self.real('%s[%s]' % (name, ','.join(map(str, i))), **kw) for i in np.ndindex(*shape)], dtype=float).reshape(shape)

    def cplx(self, name, **kw):
        return complex(self.real(name + '.re', **kw), self.real(name + '.im', **kw))

    def polar(self, name, lo=None, hi=None):
        r = self.real(name + '.r', lo=lo, hi=hi, pos=True)
        t = self._val(name + '.u', lambda g: g.uniform(-3.1, 3.1))
        return r * cmath.exp(1j * t)

    def unit(self, name):
        return cmath.exp(1j * self._val(name, lambda g: g.uniform(-3.1, 3.1)))

    def choice(self, name, n):
        return self.choices.get(name, 0)

    def resp(self, name):
        return CRespFn(self, name)

    def fn(self, name, pos=False):
        def f(*a):
            v = funcs.smooth(name, self.seed, *a)
            return np.exp(v) if pos else v
        return f

    def array(self, x, kind='f'):
        return np.array(x, dtype={'f': float, 'c': complex, 'i': int, 'b': bool}[kind])

    def mod(self, name):
        return importlib.import_module(name)

    def patch(self, module, attr, value):
        self.patched.append((module, attr, getattr(module, attr)))
        setattr(module, attr, as_called(getattr(module, attr), value))

    def patch_if(self, module, attr, value):
        if hasattr(module, attr):
            self.patch(module, attr, value)

    def deriv(self, f, x):
        h = 2e-6
        return (np.asarray(f(x + h)) - np.asarray(f(x - h))) / (2 * h)

    def cleanup(self):
        for m, a, v in reversed(self.patched):
            setattr(m, a, v)
        self.patched = []

    # maths used by oracles
    def bessel(self, n, x):
        from scipy.special import jv
        return jv(n, x)

    def ite(self, c, a, b):
        return a if c else b

    def max(self, *a):
        return max(a)

    def min(self, *a):
        return min(a)

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not a

    def k(self, x):
        return float(x) if isinstance(x, Fraction) else x

    def truth(self, c):
        return bool(c)

    def le(self, a, b, scale=1.0):
        return a <= b + 1e-9 * scale

    def copy(self, x):
        return np.array(x, copy=True) if isinstance(x, np.ndarray) else x

    def is_symbolic(self, x):
        return False

    # assertions
    def assume(self, cond):
        if not np.all(cond):
            raise Skip('assume')

    def observe(self, label, a):
        n = self.nobs[label] = self.nobs.get(label, 0) + 1
        if n > 1:
            if n > 30:
                return
            label = '%s~%d' % (label, n)
        try:
            f = np.asarray(a)
            if f.dtype.kind in 'fciub' and f.size <= 4000:
                self.observed[label] = [complex(v) if f.dtype.kind == 'c' else float(v) for v in f.reshape(-1)]
        except Exception:
            pass

    def check_eq(self, label, a, b, atol=1e-9, tol=None, observe=True, noise=0):
        if observe:
            self.observe(label, a)
        try:
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                ok = type(a) is type(b) and a == b
                det = '%r != %r' % (a, b)
            else:
                x, y = np.asarray(a), np.asarray(b)
                if x.shape != y.shape:
                    ok, det = False, 'shape %s, expected %s' % (x.shape, y.shape)
                else:
                    fin = np.isfinite(y)
                    sc = np.abs(y[fin]).max() if fin.any() else 0.0
                    t = self.rtol * sc + atol
                    if tol is not None:
                        t = max(t, 2 * tol)
                    bad = ~((np.abs(x - y) <= t) | (x == y) | (np.isnan(x) & np.isnan(y)))
                    ok = not bad.any()
                    det = ''
                    if not ok:
                        i = np.argwhere(np.atleast_1d(bad))[0]
                        det = 'at %s: got %s, expected %s' % (i.tolist(), np.atleast_1d(x)[tuple(i)], np.atleast_1d(y)[tuple(i)])
        except (TypeError, ValueError) as e:
            ok, det = False, 'not comparable: %s (%r vs %r)' % (e, type(a), type(b))
        if not ok:
            self.fails.append((label, det))
        return ok

    def check(self, label, cond, detail=''):
        ok = bool(np.all(cond))
        if not ok:
            self.fails.append((label, detail or 'condition is false'))
        return ok

    def check_shape(self, label, a, shape):
        self.check(label, np.shape(a) == tuple(shape), 'shape %s, expected %s' % (np.shape(a), tuple(shape)))

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        return False

    def text_number(self, s):
        return complex(s) if 'j' in s else float(s)

    def capture(self, fn):
        import contextlib
        import io
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            r = fn()
        return r, b.getvalue()

    def check_raises(self, label, fn, exc=Exception):
        self.check(label, self.raises(fn, exc), 'no exception raised')


def draw(r, lo, hi, pos, nonneg, nonzero):
    if lo is not None and hi is not None:
        a, b = float(lo), float(hi)
    elif lo is not None:
        a, b = float(lo), float(lo) + max(2.0, abs(float(lo)))
    elif hi is not None:
        a, b = float(hi) - max(2.0, abs(float(hi))), float(hi)
    elif pos or nonneg:
        a, b = 0.15, 2.2
    else:
        a, b = -2.0, 2.0
    if lo is not None and hi is not None and lo > 0 and hi / lo > 1e3 and r.random() < 0.3:
        v = math.exp(r.uniform(math.log(a), math.log(b)))
        return float('%.6g' % v)
    for _ in range(20):
        v = float('%.6g' % r.uniform(a, b))
        if a <= v <= b and not ((nonzero or pos) and v == 0):
            return v
    return (a + b) / 2


def run_point(harness, params, values, choices, seed):
    """one concrete run; returns dict(status, fails, observed)"""
    import contextlib
    import io
    import warnings
    c = ConcreteCtx(values, choices, seed)
    out = dict(status='ok')
    buf = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            harness.run(c, **params)
        except Skip as e:
            out['status'] = 'skip'
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            inlib = any('/qmix/' in f.filename for f in tb)
            c.fails.append(('exception', '%s: %s at %s:%s' % (type(e).__name__, str(e)[:200], tb[-1].filename.split('/')[-1], tb[-1].lineno)))
            out['inlib'] = inlib
        finally:
            c.cleanup()
    out['fails'] = c.fails
    out['observed'] = {k: [[v.real, v.imag] if isinstance(v, complex) else v for v in f] for k, f in c.observed.items()}
    out['values'] = c.used
    return out
