"""Load the real qmix source with the symbolic namespace instead of numpy/scipy/numba."""
import ast
import builtins
import importlib
import math
import os
import re
import sys
import types
from collections import namedtuple
import numpy as _np
from . import core, shim
from .core import (Sym, SymBool, lift, ite, smax, smin, as_bool, uf, bessel, Unsupported, ctx, norm, ZERO, ONE, IMAG,
                   new_atom, scmp)
from .shim import NP, SymArray, MaskedSel, sarr, raw, wrap, emap, emap2, FloatShim, IntShim, ComplexShim, _arr
from fractions import Fraction as Fr

REPO = os.environ.get('QMIX_REPO', '/repo')


class Dummy(object):
    """matplotlib and friends"""
    def __init__(self, name='dummy'):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Dummy(self._n + '.' + n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        return Dummy(self._n + '()')

    def __iter__(self):
        return iter((Dummy(), Dummy()))

    def __getitem__(self, i):
        return Dummy()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


# ---------------------------------------------------------------- numba

def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k and not isinstance(a[0], str):
        return a[0]
    return lambda f: f


class _NumbaTypes(object):
    def __getattr__(self, n):
        return _NumbaType()


class _NumbaType(object):
    def __call__(self, *a):
        return self

    def __getitem__(self, i):
        return self


NUMBA = mod('numba', njit=_jit, jit=_jit, vectorize=_jit, guvectorize=_jit, generated_jit=_jit, prange=range, types=_NumbaTypes(),
            **{t: _NumbaType() for t in ('float64', 'complex128', 'int32', 'int64', 'float32', 'boolean', 'void', 'intp')})


# ---------------------------------------------------------------- scipy

def _jv(n, x, out=None):
    if isinstance(n, (_np.ndarray, list)):
        return emap2(lambda a, b: bessel(a, b), n if isinstance(n, SymArray) else sarr(n), x, 'f')
    return emap(lambda v: v if type(v) is float else bessel(n, v), x, 'f')


SPECIAL = mod('scipy.special', jv=_jv, jn=_jv, j0=lambda x: _jv(0, x), j1=lambda x: _jv(1, x))
SPECIAL.jve = None


class LinMap(object):
    cache = {}

    @classmethod
    def get(cls, name, n, *args):
        key = (name, n) + args
        if key not in cls.cache:
            if name == 'hilbert':
                from scipy.signal import hilbert
                cls.cache[key] = hilbert(_np.eye(n), N=args[0], axis=0)
            elif name == 'savgol':
                from scipy.signal import savgol_filter
                cls.cache[key] = savgol_filter(_np.eye(n), *args, axis=0)
        return cls.cache[key]


def _apply_real(M, x):
    out = _np.empty(M.shape[0], dtype=object)
    xs = [lift(v) for v in x]
    for i in range(M.shape[0]):
        p = {}
        for j, v in enumerate(xs):
            c = M[i, j]
            if abs(c) < 1e-18:
                continue
            c = core.num(float(c))
            for m, cc in v.p.items():
                t = p.get(m, 0) + c * cc
                if t:
                    p[m] = t
                else:
                    p.pop(m, None)
        out[i] = Sym({m: norm(c) for m, c in p.items()})
    return wrap(out, 'f')


HUGE = 400


def _hilbert(x, N=None, axis=-1):
    x = _arr(x)
    if x.ndim != 1:
        raise Unsupported('hilbert nd')
    if x._kind == 'c':
        raise ValueError('x must be real.')
    n = x.shape[0]
    N = n if N is None else int(N)
    if N <= 0:
        raise ValueError('N must be positive.')
    xs = list(raw(x))
    if n > ctx().run.o.get('huge', HUGE):
        # opaque linear functional of the data (identified by its content)
        tag = ctx().intern(('hilbert', tuple(lift(v).key() for v in xs), N))
        out = _np.empty(N if N < 3 * n else n, dtype=object)
        ctx().opaque_calls.append(('hilbert', x, N, tag))
        for i in range(out.shape[0]):
            xi = lift(xs[i]) if i < n else ZERO
            out[i] = xi + IMAG * Sym({((new_atom('uf', 'hilb%d[%d]' % (tag, i), key=('hilb', tag, i),
                                                data=('hilb%d' % tag, lift(i))).id, 1),): 1})
        return wrap(out, 'c')
    M = LinMap.get('hilbert', n, N)
    if N < n:
        xs2 = xs[:N]
    else:
        xs2 = xs
    im = _apply_real(M.imag, xs)
    re = _np.array([lift(v) for v in xs2] + [ZERO] * max(0, N - n) + [None], dtype=object)[:-1]
    return wrap(re, 'f') + 1j * im


def _savgol(x, window_length, polyorder, deriv=0, delta=1.0, axis=-1, mode='interp', cval=0.0):
    x = _arr(x)
    if x.ndim != 1:
        raise Unsupported('savgol nd')
    M = LinMap.get('savgol', x.shape[0], int(window_length), int(polyorder), int(deriv), float(delta), -1, mode, float(cval)) \
        if False else _savgol_m(x.shape[0], int(window_length), int(polyorder), int(deriv), float(delta), mode)
    return _apply_real(M, list(raw(x)))


def _savgol_m(n, w, p, d, delta, mode):
    key = ('savgol', n, w, p, d, delta, mode)
    if key not in LinMap.cache:
        from scipy.signal import savgol_filter
        LinMap.cache[key] = savgol_filter(_np.eye(n), w, p, deriv=d, delta=delta, axis=0, mode=mode)
    return LinMap.cache[key]


def _gaussian_filter1d(*a, **k):
    raise Unsupported('gaussian_filter1d')


SIGNAL = mod('scipy.signal', hilbert=_hilbert, savgol_filter=_savgol)


class Spline(object):
    """interpolating spline: opaque function through its knots (contract of FITPACK interpolation)"""
    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, check_finite=False, _der=0, _tag=None):
        self.x, self.y, self.k = sarr(x), sarr(y), k
        self._der = _der
        xs, ys = list(raw(self.x)), list(raw(self.y))
        if len(xs) != len(ys):
            raise ValueError('x and y should have a same length')
        if _tag is None:
            tags = ctx().spline_tags
            _tag = ctx().intern(('spline', k, tuple(lift(v).key() for v in xs), tuple(lift(v).key() for v in ys)))
        self._tag = _tag
        self._knots = None
        ctx().opaque_calls.append(('spline', self))

    def __call__(self, v, nu=0, ext=None):
        d = self._der + nu
        if self._knots is None:
            self._knots = {lift(a).key(): lift(b) for a, b in zip(raw(self.x), raw(self.y))} if d == 0 else {}

        def one(q):
            q = lift(q)
            if type(q) is float:
                return q
            if d == 0:
                h = self._knots.get(q.key())
                if h is not None:
                    return h
            return uf('spl%d_%d' % (self._tag, d), q)
        return emap(one, v, 'f')

    def derivative(self, n=1):
        return Spline(self.x, self.y, k=self.k, _der=self._der + n, _tag=self._tag)

    def get_knots(self):
        return self.x


INTERPOLATE = mod('scipy.interpolate', InterpolatedUnivariateSpline=Spline, UnivariateSpline=Spline)


class OptResult(object):
    pass


def _minimize(fun, x0, *a, **k):
    """arbitrary result: whatever minimiser the library returns"""
    c = ctx()
    x0 = sarr(x0)
    r = OptResult()
    r.x = sarr([c.env_value('min%d' % i, near=x0[i]) for i in range(x0.shape[0])])
    r.success = True
    r.fun = fun(r.x) if c.eval_min_objective else None
    c.opaque_calls.append(('minimize', fun, x0, r))
    return r


OPTIMIZE = mod('scipy.optimize', minimize=_minimize)

LR = namedtuple('LinregressResult', 'slope intercept rvalue pvalue stderr')


def _linregress(x, y=None, *a, **k):
    xs, ys = list(raw(_arr(x))), list(raw(_arr(y)))
    if not xs:
        raise ValueError('Inputs must not be empty.')
    s, i = shim.lsq_line(xs, ys)
    c = ctx()
    return LR(s, i, c.fresh('rvalue'), c.fresh('pvalue'), c.fresh('stderr'))


STATS = mod('scipy.stats', linregress=_linregress)


def _constants():
    import scipy.constants as sc
    m = types.ModuleType('scipy.constants')
    for k, v in vars(sc).items():
        if not k.startswith('_'):
            m.__dict__[k] = (lift(core.PI) if k == 'pi' else lift(v)) if isinstance(v, float) else v
    return m


SCIPY = mod('scipy', special=SPECIAL, signal=SIGNAL, interpolate=INTERPOLATE, optimize=OPTIMIZE, stats=STATS,
            constants=_constants())

MATH = types.ModuleType('math')
MATH.__dict__.update({k: v for k, v in vars(math).items() if not k.startswith('__')})


def _m1(name, f):
    orig = getattr(math, name, None)
    MATH.__dict__[name] = lambda x, *a: f(x) if isinstance(x, (Sym, SymBool)) else orig(x, *a)


for _n, _f in dict(sqrt=core.ssqrt, exp=core.sexp, log=core.slog, log10=core.slog10, sin=core.ssin, cos=core.scos,
                   tanh=core.stanh, fabs=core.sabs, floor=lambda x: int(core.sfloor(x)), ceil=lambda x: int(-core.sfloor(-x)),
                   isnan=lambda x: False, isinf=lambda x: False, isfinite=lambda x: True,
                   tan=lambda x: core.ssin(x) / core.scos(x)).items():
    _m1(_n, _f)
MATH.pi = NP.pi
MATH.hypot = lambda a, b: core.ssqrt(lift(a) * a + lift(b) * b)
MATH.atan2 = lambda y, x: core.sangle(lift(x) + IMAG * y)
CMATH = types.ModuleType('cmath')
CMATH.__dict__.update(exp=core.sexp, phase=core.sangle, sqrt=core.ssqrt, pi=NP.pi, polar=lambda z: (core.sabs(lift(z)), core.sangle(lift(z))),
                      rect=lambda r, p: lift(r) * core.sexp(IMAG * p))


# ---------------------------------------------------------------- module loading

def _b_max(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    if any(isinstance(x, (Sym, SymBool)) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            r = smax(r, x)
        return r
    return builtins.max(a, **k)


def _b_min(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    if any(isinstance(x, (Sym, SymBool)) for x in a) and not k:
        r = a[0]
        for x in a[1:]:
            r = smin(r, x)
        return r
    return builtins.min(a, **k)


def _b_any(it):
    r = core.FALSE
    for x in it:
        if isinstance(x, (SymBool, Sym)):
            r = r | as_bool(x)
        elif x:
            return True
    return r if r.const is None else r.const


def _b_all(it):
    r = core.TRUE
    for x in it:
        if isinstance(x, (SymBool, Sym)):
            r = r & as_bool(x)
        elif not x:
            return False
    return r if r.const is None else r.const


def _b_round(x, n=None):
    if isinstance(x, Sym):
        r = core.sround(x, n or 0)
        return int(r) if n is None and r.is_const() else r
    if isinstance(x, SymArray):
        return x.round(n or 0)
    return builtins.round(x, n) if n is not None else builtins.round(x)


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def _pct(fmt, args):
    """'...' % args with symbolic arguments"""
    seq = [args] if not isinstance(args, (tuple, dict)) else args
    if not any(isinstance(a, (Sym, SymBool, SymArray)) for a in (seq.values() if isinstance(seq, dict) else seq)):
        return fmt % args
    it = iter(seq) if not isinstance(seq, dict) else None

    def one(m):
        name, flags, width, prec, ty = m.groups()
        if ty == '%':
            return '%'
        a = seq[name] if name else next(it)
        if isinstance(a, SymArray) and a.size == 1 and ty not in 'rs':
            a = a.reshape(-1)[0]
        if not isinstance(a, Sym):
            return ('%' + flags + (width or '') + ('.' + prec if prec else '') + ty) % (a,)
        if ty in 'di':
            return format(core.strunc(a), '')
        if ty in 'rsa':
            return str(a)
        return format(a, ('+' if '+' in flags else '') + (width or '') + ('.' + prec if prec else '') + ty)
    return _PCT.sub(one, fmt)


class _Rewrite(ast.NodeTransformer):
    """text formatting with % goes through _pct"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.JoinedStr) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return ast.copy_location(ast.Call(ast.Name('__symx_pct__', ast.Load()), [n.left, n.right], []), n)
        return n


class Loader(object):
    """one private, freshly loaded copy of the package"""

    def __init__(self, repo=None, stub=None):
        self.repo = repo or REPO
        self.mods = {}
        self.stdout = []
        self.files = {}
        self.encoded = set()
        self.b = dict(vars(builtins))
        self.b.update(__import__=self._import, print=self._print, float=FloatShim, int=IntShim, complex=ComplexShim,
                      max=_b_max, min=_b_min, any=_b_any, all=_b_all, round=_b_round, __symx_pct__=_pct)

    def _print(self, *a, **k):
        sep, end, f = (k.get(n) for n in ('sep', 'end', 'file'))
        sep, end = ' ' if sep is None else sep, '\n' if end is None else end
        if f is not None and hasattr(f, 'write') and f not in (sys.stdout, sys.stderr):
            f.write(sep.join(str(x) for x in a) + end)
            return
        self.stdout.append(sep.join(x if isinstance(x, str) or self.echo else '' for x in map(self._text, a)) + ('' if end == '\n' else end))

    echo = False

    def _text(self, x):
        if isinstance(x, str) or not self.echo:
            return x
        return str(x)

    EXT = None

    def _external(self, name):
        top = name.split('.')[0]
        if top == 'numpy':
            if name == 'numpy':
                return NP
            if name == 'numpy.linalg':
                return NP.linalg
            raise Unsupported('import ' + name)
        if top == 'numba':
            return NUMBA
        if top == 'scipy':
            m = SCIPY
            for p in name.split('.')[1:]:
                m = getattr(m, p, None)
                if m is None:
                    raise Unsupported('import ' + name)
            return m
        if top in ('matplotlib', 'pylab', 'mpl_toolkits'):
            return Dummy(name)
        if name == 'math':
            return MATH
        if name == 'cmath':
            return CMATH
        return None

    def _path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        return base + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        path, pkg = self._path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.b
        self.mods[name] = m
        src = open(path).read()
        self.files[path] = src
        code = compile(ast.fix_missing_locations(_Rewrite().visit(ast.parse(src, path))), path, 'exec')
        exec(code, m.__dict__)
        if '.' in name:
            p, _, c = name.rpartition('.')
            setattr(self.mods[p], c, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name.split('.')[0] == 'qmix':
            m = self.load(name)
            if not fromlist:
                return self.mods[name.split('.')[0]]
            for f in fromlist:
                if not hasattr(m, f):
                    try:
                        self.load(name + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        e = self._external(name)
        if e is not None:
            if not fromlist:
                top = name.split('.')[0]
                return self._external(top)
            return e
        return builtins.__import__(name, globals, locals, fromlist, level)
