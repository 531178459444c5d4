"""Symbolic NumPy: an object-array subclass plus a module-like namespace."""
import builtins
import math
import types
import numpy as _np
from fractions import Fraction as Fr
from .core import (Sym, SymBool, lift, num, ite, smax, smin, as_bool, scmp, TRUE, FALSE, ZERO, ONE, IMAG,
                   Unsupported, ctx, ssqrt, sexp, slog, slog10, ssin, scos, stanh, sabs, sangle, sround, sfloor,
                   strunc, spow, sdiv, uf, bessel, PI, norm, new_atom, is_nonzero)
from . import core

_obj = _np.dtype(object)


# ---------------------------------------------------------------- dtype kinds

class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)

    def __getattr__(cls, n):
        return getattr(cls._base, n)


class FloatShim(metaclass=_Meta):
    _base = float
    __name__ = 'float'

    @staticmethod
    def _check(x):
        if isinstance(x, Sym):
            c = ctx()
            return x.isreal() and not (x.is_integer() and id(x) in core_ints())
        return isinstance(x, float)

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            if not x.isreal():
                raise TypeError("float() argument must be a real number, not 'complex'")
            return x
        if isinstance(x, SymBool):
            return lift(x)
        if isinstance(x, _np.ndarray) and isinstance(x, SymArray):
            if x.size == 1:
                return FloatShim(x.reshape(-1)[0])
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        if isinstance(x, str):
            c = ctx()
            t = c.parse_token(x) if c is not None else None
            if t is not None:
                return t
        return float(x)


def core_ints():
    return ()


class ComplexShim(metaclass=_Meta):
    _base = complex
    __name__ = 'complex'

    @staticmethod
    def _check(x):
        if isinstance(x, Sym):
            return not x.isreal()
        return isinstance(x, complex)

    def __new__(cls, x=0.0, y=None):
        if isinstance(x, Sym) or isinstance(y, Sym):
            return lift(x) + (lift(y) * IMAG if y is not None else ZERO)
        if isinstance(x, str):
            c = ctx()
            t = c.parse_token(x) if c is not None else None
            if t is not None:
                return t
        return complex(x) if y is None else complex(x, y)


class IntShim(metaclass=_Meta):
    _base = int
    __name__ = 'int'

    @staticmethod
    def _check(x):
        return isinstance(x, int)

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            r = strunc(x)
            if r.is_const():
                return int(r)
            if not x.isreal():
                raise TypeError("int() argument must be a real number, not 'complex'")
            return core.pick_floor(x) if bool(x >= 0) else -core.pick_floor(-x)
        if isinstance(x, SymBool):
            return int(bool(x))
        return int(x, *a)


def kind_of(dt, default='f'):
    if dt is None:
        return default
    if dt is FloatShim or dt is float:
        return 'f'
    if dt is ComplexShim or dt is complex:
        return 'c'
    if dt is IntShim or dt is int:
        return 'i'
    if dt is bool:
        return 'b'
    if dt is object or dt == _obj:
        return 'o'
    k = _np.dtype(dt).kind
    return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'o'}.get(k, 'f')


_DT = {'f': _np.dtype(float), 'c': _np.dtype(complex), 'i': _np.dtype(int), 'b': _np.dtype(bool), 'o': _obj}


def cast_scalar(x, k):
    """cast one element to kind k (array-assignment semantics)"""
    if k == 'o':
        return x
    if k == 'b':
        return as_bool(x)
    x = lift(x)
    if type(x) is float:
        return x
    if k == 'f':
        return x if x.isreal() else x.real
    if k == 'i':
        return strunc(x if x.isreal() else x.real)
    return x


def lift_any(x):
    if type(x) is Sym or type(x) is SymBool:
        return x
    if isinstance(x, (bool, _np.bool_)):
        return TRUE if x else FALSE
    return lift(x)


def elem_kind(x):
    if isinstance(x, (SymBool, bool, _np.bool_)):
        return 'b'
    if isinstance(x, Sym):
        return 'f' if x.isreal() else 'c'
    if isinstance(x, (int, _np.integer)):
        return 'i'
    if isinstance(x, (complex, _np.complexfloating)):
        return 'c'
    return 'f'


_RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'o': 4}


def join(*ks):
    return max(ks, key=lambda k: _RANK[k]) if ks else 'f'


def kind(x):
    if isinstance(x, SymArray):
        return x._kind
    if isinstance(x, _np.ndarray):
        return kind_of(x.dtype)
    if isinstance(x, (list, tuple)):
        return join(*[kind(e) for e in x]) if len(x) else 'f'
    return elem_kind(x)


# ---------------------------------------------------------------- arrays

def sarr(x, k=None):
    """anything array-like -> SymArray (copy)"""
    if isinstance(x, MaskedSel):
        x = x._mat()
    if isinstance(x, SymArray):
        r = _np.array(x.view(_np.ndarray), dtype=object, copy=True).view(SymArray)
        r._kind = x._kind
        if k is not None and k != x._kind:
            r = _castarr(r, k)
        return r
    if isinstance(x, (list, tuple)):
        x = [_np.asarray(e.view(_np.ndarray) if isinstance(e, SymArray) else
                         (e._mat().view(_np.ndarray) if isinstance(e, MaskedSel) else e), dtype=object)
             if isinstance(e, (_np.ndarray, MaskedSel)) else e for e in x]
    a = _np.array(x, dtype=object)
    kk = kind(x) if not (isinstance(x, _np.ndarray) and x.dtype == _obj) else None
    flat = a.reshape(-1)
    out = _np.empty(flat.shape, dtype=object)
    ks = set()
    for i in range(flat.shape[0]):
        v = lift_any(flat[i])
        ks.add(elem_kind(v) if kk is None else kk)
        out[i] = v
    r = out.reshape(a.shape).view(SymArray)
    r._kind = join(*ks) if ks else (kk or 'f')
    if isinstance(x, list):
        r._kind = 'c' if any(elem_kind(v) == 'c' for v in out) else r._kind
    if k is not None and k != r._kind:
        r = _castarr(r, k)
    elif r._kind == 'f' or r._kind == 'c':
        pass
    return r


def _castarr(r, k):
    out = _np.empty(r.shape, dtype=object)
    o, s = out.reshape(-1), r.view(_np.ndarray).reshape(-1)
    for i in range(s.shape[0]):
        o[i] = cast_scalar(s[i], k)
    out = out.view(SymArray)
    out._kind = k
    return out


def wrap(x, k=None):
    """wrap result of a real-numpy call"""
    if isinstance(x, _np.ndarray) and x.dtype == _obj:
        r = x.view(SymArray)
        if k is None:
            k = 'f'
            for v in r.view(_np.ndarray).reshape(-1):
                k2 = elem_kind(v)
                if k2 == 'c':
                    k = 'c'
                    break
                if k2 == 'b':
                    k = 'b'
        r._kind = k
        return r
    if isinstance(x, tuple):
        return tuple(wrap(e) for e in x)
    if isinstance(x, list):
        return [wrap(e) for e in x]
    return x


def raw(x):
    if isinstance(x, MaskedSel):
        x = x._mat()
    if isinstance(x, SymArray):
        return x.view(_np.ndarray)
    if isinstance(x, tuple):
        return tuple(raw(e) for e in x)
    if isinstance(x, list):
        return [raw(e) for e in x]
    return x


def emap(f, x, k=None):
    """elementwise map"""
    if isinstance(x, MaskedSel):
        x = x._mat()
    if isinstance(x, (list, tuple)):
        x = sarr(x)
    if isinstance(x, _np.ndarray):
        s = x.view(_np.ndarray).reshape(-1)
        out = _np.empty(s.shape[0], dtype=object)
        for i in range(s.shape[0]):
            out[i] = f(lift_any(s[i]))
        return wrap(out.reshape(x.shape), k)
    return f(lift_any(x))


def emap2(f, x, y, k=None):
    xs, ys = isinstance(x, (_np.ndarray, list, tuple, MaskedSel)), isinstance(y, (_np.ndarray, list, tuple, MaskedSel))
    if not xs and not ys:
        return f(lift_any(x), lift_any(y))
    a = raw(sarr(x)) if xs else x
    b = raw(sarr(y)) if ys else y
    if not xs:
        t = _np.empty((), dtype=object)
        t[()] = lift_any(x)
        a = t
    if not ys:
        t = _np.empty((), dtype=object)
        t[()] = lift_any(y)
        b = t
    a, b = _np.broadcast_arrays(a, b)
    out = _np.empty(a.shape, dtype=object)
    o, p, q = out.reshape(-1), a.reshape(-1), b.reshape(-1)
    for i in range(p.shape[0]):
        o[i] = f(lift_any(p[i]), lift_any(q[i]))
    if out.ndim == 0:
        return wrap(out, k)[()]
    return wrap(out, k)


def _cmpf(op):
    return lambda a, b: as_bool(scmp(op, a, b) if not (isinstance(a, SymBool) and isinstance(b, SymBool))
                                else (~(a ^ b) if op == '==' else (a ^ b) if op == '!=' else scmp(op, lift(a), lift(b))))


_CMP = {'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}
_U1 = {}
_U2 = {}


def _pass(f):
    def g(x):
        if type(x) is SymBool:
            x = lift(x)
        return f(x)
    return g


def _ninv(x):
    if isinstance(x, SymBool):
        return ~x
    raise TypeError("ufunc 'invert' not supported for the input types")


def _sign(x):
    if type(x) is float:
        return x if x != x else math.copysign(1, x)
    return ite(x > 0, ONE, ite(x < 0, -ONE, ZERO))


_U1.update(dict(sqrt=(_pass(ssqrt), None), exp=(_pass(sexp), None), log=(_pass(slog), 'f'), log10=(_pass(slog10), 'f'),
                sin=(_pass(ssin), None), cos=(_pass(scos), None), tanh=(_pass(stanh), None),
                tan=(_pass(lambda x: ssin(x) / scos(x)), None),
                sinh=(_pass(lambda x: lift(x).sinh()), None), cosh=(_pass(lambda x: lift(x).cosh()), None),
                absolute=(_pass(sabs), 'f'), fabs=(_pass(sabs), 'f'),
                conjugate=(_pass(lambda x: x.conjugate()), None), square=(_pass(lambda x: x * x), None),
                reciprocal=(_pass(lambda x: 1 / x), None),
                negative=(_pass(lambda x: -x), None), positive=(lambda x: x, None),
                rint=(_pass(lambda x: sround(x, 0)), None), floor=(_pass(sfloor), None),
                ceil=(_pass(lambda x: -sfloor(-x)), None), trunc=(_pass(lambda x: strunc(x)), None),
                isnan=(lambda x: TRUE if type(x) is float and x != x else FALSE, 'b'),
                isinf=(lambda x: TRUE if type(x) is float and x == x else FALSE, 'b'),
                isfinite=(lambda x: FALSE if type(x) is float else TRUE, 'b'),
                invert=(_ninv, 'b'), logical_not=(lambda x: ~as_bool(x), 'b'),
                sign=(_pass(_sign), None), deg2rad=(_pass(lambda x: x * PI / 180), None),
                rad2deg=(_pass(lambda x: x * 180 / PI), None),
                log2=(_pass(lambda x: slog(x) / slog(lift(2))), 'f'),
                log1p=(_pass(lambda x: slog(1 + x)), 'f'), expm1=(_pass(lambda x: sexp(x) - 1), None),
                exp2=(_pass(lambda x: spow(lift(2), x)), None)))


def _ldiv(a, b):
    a, b = lift(a), lift(b)
    if type(a) is float and type(b) is float:
        if b in (math.inf, -math.inf):
            return math.nan
        return a / b
    return a / b


def _hypot(a, b):
    return ssqrt(a * a + b * b)


def _lpow(a, b):
    return lift(a) ** lift(b)


_U2.update(dict(add=(lambda a, b: lift(a) + lift(b) if not (isinstance(a, SymBool) and isinstance(b, SymBool)) else a | b, None),
                subtract=(lambda a, b: lift(a) - lift(b), None),
                multiply=(lambda a, b: lift(a) * lift(b) if not (isinstance(a, SymBool) and isinstance(b, SymBool)) else a & b, None),
                divide=(_ldiv, None), true_divide=(_ldiv, None), power=(_lpow, None), float_power=(_lpow, None),
                floor_divide=(lambda a, b: lift(a) // lift(b), None),
                remainder=(lambda a, b: lift(a) % lift(b), None),
                maximum=(smax, None), minimum=(smin, None),
                fmax=(lambda a, b: b if type(a) is float and a != a else a if type(b) is float and b != b else smax(a, b), None),
                fmin=(lambda a, b: b if type(a) is float and a != a else a if type(b) is float and b != b else smin(a, b), None),
                hypot=(_hypot, 'f'),
                logical_and=(lambda a, b: as_bool(a) & as_bool(b), 'b'),
                logical_or=(lambda a, b: as_bool(a) | as_bool(b), 'b'),
                logical_xor=(lambda a, b: as_bool(a) ^ as_bool(b), 'b'),
                bitwise_and=(lambda a, b: as_bool(a) & as_bool(b), 'b'),
                bitwise_or=(lambda a, b: as_bool(a) | as_bool(b), 'b'),
                bitwise_xor=(lambda a, b: as_bool(a) ^ as_bool(b), 'b'),
                copysign=(lambda a, b: ite(lift(b) >= 0, sabs(lift(a)), -sabs(lift(a))), None)))
for _n, _o in _CMP.items():
    _U2[_n] = (_cmpf(_o), 'b')


def apply_ufunc(name, args, out=None, where=True):
    if name in _U1:
        f, k = _U1[name]
        a = args[0]
        if k is None:
            k = kind(a)
            if k in 'ib':
                k = 'f'
        r = emap(f, a, k)
    elif name in _U2:
        f, k = _U2[name]
        if k is None:
            k = join(kind(args[0]), kind(args[1]))
            if k == 'b' and name not in ('add', 'multiply'):
                k = 'f'
            elif k == 'b':
                k = 'b'
            if name in ('divide', 'true_divide') and k == 'i':
                k = 'f'
        r = emap2(f, args[0], args[1], k)
        if k == 'i' and name in ('power', 'multiply') and isinstance(r, _np.ndarray) and r.size:
            raw(r)[...] = _np.frompyfunc(_wrap64, 1, 1)(raw(r))
    elif name in ('matmul',):
        r = dot(args[0], args[1])
    elif name == 'arctan2':
        r = emap2(lambda y, x: sangle(lift(x) + IMAG * y), args[0], args[1], 'f')
    elif name == 'divmod':
        return apply_ufunc('floor_divide', args), apply_ufunc('remainder', args)
    else:
        raise Unsupported('ufunc ' + name)
    if where is not True:
        if out is None:
            raise Unsupported('where= without out=')
        w = sarr(where)
        r2 = emap2(lambda c, ab: ite(c, ab[0], ab[1]), w, _pair(r, out))
        r = r2
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        if isinstance(out, SymArray):
            if out._kind in 'fi' and _RANK[kind(r)] > _RANK[out._kind]:
                raise TypeError('Cannot cast ufunc output from kind %s to %s' % (kind(r), out._kind))
            rr = r
            _np.copyto(out.view(_np.ndarray), _np.broadcast_to(raw(rr) if isinstance(rr, _np.ndarray) else _box(rr), out.shape))
            return out
        if out.dtype == bool and kind(r) == 'b':
            out[...] = _np.frompyfunc(bool, 1, 1)(raw(r)).astype(bool)
            return out
        if out.dtype.kind in 'iu' and _RANK[kind(r)] > 1:
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        raise Unsupported('out= native array')
    return r


def _wrap64(v):
    """int64 arrays wrap around"""
    if isinstance(v, Sym) and v.is_const() and type(v.const()) is int and not -2 ** 63 <= v.const() < 2 ** 63:
        return lift((v.const() + 2 ** 63) % 2 ** 64 - 2 ** 63)
    return v


def _pair(a, b):
    raise Unsupported('ufunc where=')


def _box(x):
    t = _np.empty((), dtype=object)
    t[()] = lift_any(x)
    return t


class SymArray(_np.ndarray):
    _kind = 'f'
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, '_kind', 'f')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        inputs = [i._mat() if isinstance(i, MaskedSel) else i for i in inputs]
        if method == '__call__':
            out = kw.pop('out', None)
            where = kw.pop('where', True)
            dt = kw.pop('dtype', None)
            kw.pop('casting', None)
            kw.pop('subok', None)
            r = apply_ufunc(name, inputs, out, where)
            if dt is not None and isinstance(r, SymArray):
                r = _castarr(r, kind_of(dt))
            return r
        if method == 'reduce':
            a = inputs[0]
            axis = kw.get('axis', 0)
            keep = kw.get('keepdims', False)
            return reduce_uf(name, a, axis, keep)
        if method == 'accumulate':
            f = _U2[name][0]
            return accumulate(f, inputs[0], kw.get('axis', 0))
        if method == 'outer':
            a, b = sarr(inputs[0]), sarr(inputs[1])
            return apply_ufunc(name, (a.reshape(a.shape + (1,) * b.ndim), b))
        if method == 'at':
            raise Unsupported('ufunc.at')
        raise Unsupported('ufunc method ' + method)

    def __array_function__(self, func, types_, args, kwargs):
        f = getattr(NP, func.__name__, None)
        if f is None or not callable(f):
            raise Unsupported('numpy.' + func.__name__)
        return f(*args, **kwargs)

    @property
    def dtype(self):
        return _DT[self._kind]

    @property
    def real(self):
        return emap(lambda x: lift(x).real if type(lift(x)) is Sym else x, self, 'f')

    @real.setter
    def real(self, v):
        self[...] = v + 1j * self.imag

    @property
    def imag(self):
        return emap(lambda x: lift(x).imag if type(lift(x)) is Sym else 0 * x, self, 'f')

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * v

    # -- indexing
    def _conc_index(self, idx):
        """replace symbolic boolean masks / symbolic ints by concrete ones"""
        if isinstance(idx, tuple):
            return tuple(self._conc_index(i) for i in idx)
        if isinstance(idx, MaskedSel):
            idx = idx._mat()
        if isinstance(idx, SymArray):
            s = idx.view(_np.ndarray)
            if idx._kind == 'b':
                return _np.frompyfunc(bool, 1, 1)(s).astype(bool)
            return _np.frompyfunc(lambda v: int(v), 1, 1)(s).astype(int)
        if isinstance(idx, SymBool):
            return bool(idx)
        if isinstance(idx, Sym):
            return int(idx)
        if isinstance(idx, list) and any(isinstance(i, (Sym, SymBool)) for i in idx):
            return [bool(i) if isinstance(i, SymBool) else int(i) for i in idx]
        return idx

    def __getitem__(self, idx):
        if isinstance(idx, SymArray) and idx._kind == 'b' and idx.shape == self.shape and \
                any(v.const is None for v in idx.view(_np.ndarray).reshape(-1)):
            return MaskedSel(self, idx)
        r = _np.ndarray.__getitem__(self, self._conc_index(idx))
        if isinstance(r, SymArray):
            r._kind = self._kind
        return r

    def __setitem__(self, idx, val):
        if isinstance(idx, SymArray) and idx._kind == 'b' and \
                any(v.const is None for v in idx.view(_np.ndarray).reshape(-1)):
            if idx.shape == self.shape and isinstance(val, MaskedSel) and val._same(idx):
                self._merge(idx, val._full)
                return
            if not isinstance(val, (_np.ndarray, list, tuple, MaskedSel)) or \
                    (isinstance(val, _np.ndarray) and val.ndim == 0):
                if idx.shape == self.shape:
                    self._merge(idx, val)
                    return
                if idx.ndim < self.ndim and idx.shape == self.shape[:idx.ndim]:
                    m = idx.view(_np.ndarray).reshape(idx.shape + (1,) * (self.ndim - idx.ndim))
                    self._merge(wrap(_np.broadcast_to(m, self.shape), 'b'), val)
                    return
        if isinstance(val, MaskedSel):
            val = val._mat()
        idx = self._conc_index(idx)
        k = self._kind
        if isinstance(val, (list, tuple)):
            val = sarr(val)
        if isinstance(val, _np.ndarray):
            if not isinstance(val, SymArray):
                val = sarr(val)
            if val._kind != k:
                val = _castarr(val, k)
            if val.ndim == 0:
                _np.ndarray.__setitem__(self, idx, val.view(_np.ndarray).item())
                return
            _np.ndarray.__setitem__(self, idx, val.view(_np.ndarray))
        else:
            v = lift_any(val) if k != 'o' else val
            if k in 'fi' and isinstance(v, Sym) and not v.isreal():
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            if k == 'i' and type(v) is float:
                raise ValueError('cannot convert float NaN to integer')
            _np.ndarray.__setitem__(self, idx, cast_scalar(v, k))

    def _merge(self, mask, val):
        k = self._kind
        m = mask.view(_np.ndarray).reshape(-1)
        full = isinstance(val, SymArray)
        if not full:
            if isinstance(val, _np.ndarray):
                val = val.item() if val.dtype != _obj else val[()]
            v = cast_scalar(lift_any(val), k)
        else:
            vv = val.view(_np.ndarray).reshape(-1)
        old = self.view(_np.ndarray).reshape(-1)
        out = _np.empty(old.shape, dtype=object)
        for i in range(old.shape[0]):
            nv = cast_scalar(vv[i], k) if full else v
            out[i] = ite(m[i], nv, old[i])
        _np.ndarray.__setitem__(self, Ellipsis, out.reshape(self.shape))

    # -- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_uf('add', self, axis, keepdims)

    def prod(self, axis=None, *a, keepdims=False, **kw):
        return reduce_uf('multiply', self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_uf('maximum', self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_uf('minimum', self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_uf('logical_or', self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_uf('logical_and', self, axis, keepdims)

    def mean(self, axis=None, *a, **kw):
        return NP.mean(self, axis=axis)

    def std(self, *a, **k):
        return NP.std(self, *a, **k)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, **k):
        return NP.argmax(self, axis)

    def argmin(self, axis=None, **k):
        return NP.argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return NP.argsort(self, axis)

    def sort(self, axis=-1, **k):
        if self.ndim != 1:
            raise Unsupported('sort nd')
        self[...] = self[NP.argsort(self)]

    def conj(self):
        return apply_ufunc('conjugate', (self,))

    conjugate = conj

    def cumsum(self, axis=None, *a, **k):
        return NP.cumsum(self, axis)

    def round(self, n=0, out=None):
        return emap(lambda x: sround(lift(x), n), self, self._kind)

    def clip(self, lo=None, hi=None, **k):
        return NP.clip(self, lo, hi)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def trace(self, *a):
        r = ZERO
        for i in range(min(self.shape)):
            r = r + self[i, i]
        return r

    def astype(self, dt, *a, **k):
        return sarr(self, kind_of(dt))

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return self.reshape(-1)[0]

    def tolist(self):
        return raw(self).tolist()

    def fill(self, v):
        self[...] = v

    def nonzero(self):
        return _np.frompyfunc(lambda v: bool(as_bool(v)), 1, 1)(raw(self)).astype(bool).nonzero()

    def copy(self, order='C'):
        return sarr(self)

    def __copy__(self):
        return sarr(self)

    def __deepcopy__(self, memo):
        return sarr(self)

    def __reduce__(self):
        raise Unsupported('pickle')

    def __contains__(self, x):
        return bool((self == x).any())

    def __repr__(self):
        return 'SymArray<%s>%s' % (self._kind, _np.array2string(raw(self).astype(str) if self.size < 20 else _np.array([str(self.shape)])))

    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self[()], spec)
        return repr(self)

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        if self.size == 1:
            return bool(as_bool(self.reshape(-1)[0]))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')


class MaskedSel(object):
    """arr[mask] for a symbolic mask: keeps the full array until its length is needed."""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, arr, mask, full=None):
        self._arr = arr
        self._mask = mask
        self._full = sarr(arr) if full is None else full
        self._m = None

    def _same(self, mask):
        if mask is self._mask:
            return True
        a, b = raw(mask).reshape(-1), raw(self._mask).reshape(-1)
        return len(a) == len(b) and all(core.bkey(x) == core.bkey(y) for x, y in zip(a, b))

    def _mat(self):
        if self._m is None:
            idx = _np.frompyfunc(bool, 1, 1)(raw(self._mask)).astype(bool)
            r = _np.ndarray.__getitem__(self._full, idx)
            r._kind = self._full._kind
            self._m = r
        return self._m

    def _op(self, o, f):
        if isinstance(o, MaskedSel) and o._same(self._mask):
            return MaskedSel(None, self._mask, f(self._full, o._full))
        if isinstance(o, (MaskedSel,)):
            return f(self._mat(), o._mat())
        if isinstance(o, (_np.ndarray, list, tuple)) and _np.ndim(o) > 0:
            return f(self._mat(), o)
        return MaskedSel(None, self._mask, f(self._full, o))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._mat() / (o._mat() if isinstance(o, MaskedSel) else o)
    def __rtruediv__(self, o): return o / self._mat()
    def __neg__(self): return MaskedSel(None, self._mask, -self._full)
    def __pow__(self, o): return self._mat() ** o
    def __lt__(self, o): return self._mat() < o
    def __le__(self, o): return self._mat() <= o
    def __gt__(self, o): return self._mat() > o
    def __ge__(self, o): return self._mat() >= o
    def __eq__(self, o): return self._mat() == o
    def __ne__(self, o): return self._mat() != o
    def __abs__(self): return abs(self._mat())
    def __len__(self): return len(self._mat())
    def __iter__(self): return iter(self._mat())
    def __getitem__(self, i): return self._mat()[i]
    def __setitem__(self, i, v): self._mat()[i] = v
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._mat(), n)


# ---------------------------------------------------------------- reductions

def _fold(f, seq, init=None):
    it = list(seq)
    if not it:
        if init is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        return init
    r = it[0]
    for x in it[1:]:
        r = f(r, x)
    return r


def _sum_list(xs):
    p = {}
    bad = None
    for x in xs:
        x = lift(x)
        if type(x) is float:
            bad = x if bad is None else bad + x
            continue
        for m, c in x.p.items():
            v = p.get(m, 0) + c
            if v:
                p[m] = v
            else:
                p.pop(m, None)
    if bad is not None:
        return bad
    return Sym({m: norm(c) for m, c in p.items()})


_RED = {'add': (_sum_list, None), 'multiply': (lambda xs: _fold(lambda a, b: lift(a) * lift(b), xs, ONE), None),
        'maximum': (lambda xs: _fold(smax, xs), None), 'minimum': (lambda xs: _fold(smin, xs), None),
        'logical_or': (lambda xs: _fold(lambda a, b: as_bool(a) | as_bool(b), xs, FALSE), 'b'),
        'logical_and': (lambda xs: _fold(lambda a, b: as_bool(a) & as_bool(b), xs, TRUE), 'b'),
        'bitwise_or': (lambda xs: _fold(lambda a, b: as_bool(a) | as_bool(b), xs, FALSE), 'b'),
        'bitwise_and': (lambda xs: _fold(lambda a, b: as_bool(a) & as_bool(b), xs, TRUE), 'b')}


def reduce_uf(name, a, axis=None, keepdims=False):
    f, k = _RED[name]
    return reduce_f(f, a, axis, keepdims, k)


def reduce_f(f, a, axis=None, keepdims=False, k=None):
    a = a if isinstance(a, SymArray) else sarr(a)
    k = k or (a._kind if a._kind != 'b' else 'i')
    s = a.view(_np.ndarray)
    if keepdims is _np._NoValue:
        keepdims = False
    if axis is None:
        r = f(list(s.reshape(-1)))
        if r is not None and keepdims:
            return wrap(_box(r).reshape((1,) * a.ndim), k)
        return lift_any(r)
    if isinstance(axis, tuple):
        axs = sorted([x % a.ndim for x in axis])
        rest = [i for i in range(a.ndim) if i not in axs]
        s = s.transpose(rest + axs).reshape([a.shape[i] for i in rest] + [-1])
        if keepdims:
            raise Unsupported('keepdims tuple')
    else:
        s = _np.moveaxis(s, axis, -1)
    shp = s.shape[:-1]
    flat = s.reshape(-1, s.shape[-1]) if s.size else s.reshape(int(_np.prod(shp)), s.shape[-1])
    out = _np.empty(flat.shape[0], dtype=object)
    for i in range(flat.shape[0]):
        out[i] = lift_any(f(list(flat[i])))
    out = out.reshape(shp)
    if keepdims:
        out = _np.expand_dims(out, axis)
    if out.ndim == 0:
        return out[()]
    return wrap(out, k)


def accumulate(f, a, axis=0):
    a = sarr(a)
    s = _np.moveaxis(a.view(_np.ndarray), axis, 0)
    out = _np.empty(s.shape, dtype=object)
    for i in range(s.shape[0]):
        if i == 0:
            out[0] = s[0]
        else:
            out[i] = raw(emap2(f, wrap(_np.array(out[i - 1], dtype=object)), wrap(_np.array(s[i], dtype=object)))) \
                if s.ndim > 1 else f(out[i - 1], s[i])
    return wrap(_np.moveaxis(out, 0, axis), a._kind)


def dot(a, b):
    a, b = sarr(a), sarr(b)
    k = join(a._kind, b._kind)
    A, B = raw(a), raw(b)
    if A.ndim == 0 or B.ndim == 0:
        return a * b
    if A.ndim == 1 and B.ndim == 1:
        return _sum_list([lift(x) * lift(y) for x, y in zip(A, B)])
    if B.ndim == 1:
        out = _np.empty(A.shape[:-1], dtype=object)
        for i in _np.ndindex(*A.shape[:-1]):
            out[i] = _sum_list([lift(x) * lift(y) for x, y in zip(A[i], B)])
        return wrap(out, k)
    if A.ndim == 1:
        return dot(a[None, :], b)[0]
    if A.ndim == 2 and B.ndim == 2:
        if A.shape[1] != B.shape[0]:
            raise ValueError('matmul shape mismatch')
        out = _np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                out[i, j] = _sum_list([lift(x) * lift(y) for x, y in zip(A[i], B[:, j])])
        return wrap(out, k)
    # stacked matmul
    lead = _np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = _np.broadcast_to(A, lead + A.shape[-2:])
    B = _np.broadcast_to(B, lead + B.shape[-2:])
    out = _np.empty(lead + (A.shape[-2], B.shape[-1]), dtype=object)
    for i in _np.ndindex(*lead):
        out[i] = raw(dot(wrap(A[i]), wrap(B[i])))
    return wrap(out, k)


# ---------------------------------------------------------------- the numpy namespace

class _NP(object):
    """stands for the module numpy inside the code under test"""
    ndarray = _np.ndarray
    newaxis = None
    pi = lift(PI)
    e = lift(core.mp2fr(core.mpmath.e))
    inf = math.inf
    Inf = math.inf
    nan = math.nan
    NaN = math.nan
    float64 = _np.float64
    complex128 = _np.complex128
    bool_ = _np.bool_
    __version__ = '2.3.5'

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in _U1 or name in _U2:
            uf_real = getattr(_np, name, None)
            n = name

            def f(*args, out=None, where=True, dtype=None, **kw):
                return apply_or_native(n, uf_real, args, out, where)
            f.__name__ = n
            f.reduce = lambda a, axis=0, **k: reduce_uf(n, a, axis, k.get('keepdims', False))
            f.accumulate = lambda a, axis=0, **k: accumulate(_U2[n][0], a, axis)
            f.outer = lambda a, b: apply_ufunc(n, (sarr(a).reshape(-1, 1), sarr(b).reshape(1, -1)))
            return f
        r = getattr(_np, name)
        if isinstance(r, type) or not callable(r):
            return r
        if isinstance(r, _np.ufunc):
            def g(*args, **kw):
                return apply_ufunc(name, args, kw.get('out'))
            return g

        def h(*args, **kw):
            args = [raw(a) for a in args]
            kw = {k: raw(v) for k, v in kw.items()}
            if name == 'clip' or any(_hassym(a) for a in args):
                note_delegate(name)
            return wrap(r(*args, **kw))
        h.__name__ = name
        return h

    # ---- creation
    def _mk(self, shape, v, dt):
        k = kind_of(dt)
        if isinstance(shape, (Sym,)):
            shape = int(shape)
        if isinstance(shape, tuple):
            shape = tuple(int(s) for s in shape)
        if k == 'i':
            return _np.full(shape, int(v), dtype=int)
        r = _np.empty(shape, dtype=object)
        r[...] = _box(cast_scalar(lift_any(v), k))
        return wrap(r, k)

    def zeros(self, shape, dtype=None, order=None, **k):
        return self._mk(shape, 0, dtype)

    def ones(self, shape, dtype=None, order=None, **k):
        return self._mk(shape, 1, dtype)

    def empty(self, shape, dtype=None, order=None, **k):
        k = kind_of(dtype)
        r = self._mk(shape, 0, dtype)
        if k in 'fc':
            s = r.view(_np.ndarray).reshape(-1)
            c = ctx()
            for i in range(s.shape[0]):
                s[i] = c.fresh('uninit') if c is not None else ZERO
        return r

    def full(self, shape, fill_value, dtype=None, **k):
        if dtype is None:
            kk = kind(fill_value)
            dtype = {'f': float, 'c': complex, 'i': int, 'b': bool}[kk]
            if isinstance(fill_value, (Sym, _np.ndarray)) and kk == 'i':
                dtype = float
        if isinstance(fill_value, (_np.ndarray, list)):
            r = self._mk(shape, 0, dtype)
            r[...] = fill_value
            return r
        return self._mk(shape, fill_value, dtype)

    def _lk(self, a, dtype):
        return dtype if dtype is not None else {'f': float, 'c': complex, 'i': int, 'b': bool, 'o': float}[kind(a)]

    def zeros_like(self, a, dtype=None, **k):
        return self._mk(_np.shape(raw(a)), 0, self._lk(a, dtype))

    def ones_like(self, a, dtype=None, **k):
        return self._mk(_np.shape(raw(a)), 1, self._lk(a, dtype))

    def empty_like(self, a, dtype=None, **k):
        return self.empty(_np.shape(raw(a)), self._lk(a, dtype))

    def full_like(self, a, fill_value, dtype=None, **k):
        return self.full(_np.shape(raw(a)), fill_value, self._lk(a, dtype))

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        r = self.zeros((n, m or n), dtype)
        for i in range(n):
            if 0 <= i + k < (m or n):
                r[i, i + k] = 1
        return r

    identity = eye

    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(x, _np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in 'iuSU' and kind_of(dtype, 'i') == 'i':
            return _np.array(x, dtype=dtype)
        if isinstance(x, range):
            x = list(x)
        if isinstance(x, (list, tuple)) and len(x) and dtype is None and _allint(x):
            return _np.array(x)
        if isinstance(x, (list, tuple)) and kind_of(dtype, 'x') == 'i':
            return _np.array(raw(list(x)), dtype=int)
        if isinstance(x, str) or (isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], str)):
            return _np.array(x)
        r = sarr(x, None if dtype is None else kind_of(dtype))
        while r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray) and (dtype is None or kind_of(dtype) == x._kind):
            return x
        if isinstance(x, _np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in 'iu' and kind_of(dtype, 'i') == 'i':
            return x
        return self.array(x, dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    def asfarray(self, x):
        return self.asarray(x, float)

    def atleast_1d(self, *xs):
        r = [self.asarray(x) for x in xs]
        r = [x.reshape(1) if x.ndim == 0 else x for x in r]
        return r[0] if len(r) == 1 else r

    def copy(self, x, **k):
        return sarr(x) if not (isinstance(x, _np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in 'iu') else x.copy()

    def arange(self, *a, dtype=None, **k):
        if all(isinstance(x, (int, _np.integer)) and not isinstance(x, bool) for x in a) and kind_of(dtype, 'i') == 'i':
            return _np.arange(*[int(x) for x in a])
        v = [lift(x) for x in a]
        if len(v) == 1:
            start, stop, step = ZERO, v[0], ONE
        elif len(v) == 2:
            start, stop, step = v[0], v[1], ONE
        else:
            start, stop, step = v
        if (stop - start).is_const() and step.is_const():
            n = max(0, math.ceil(Fr((stop - start).const()) / Fr(step.const())))
        else:
            n = 0
            up = bool(step > 0)
            while bool(start + step * n < stop) if up else bool(start + step * n > stop):
                n += 1
                if n > 100:
                    raise Unsupported('arange of symbolic limits')
        r = _np.empty(n, dtype=object)
        for i in range(n):
            r[i] = start + step * i
        return wrap(r, kind_of(dtype))

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, **k):
        num_ = int(num)
        start, stop = lift(start), lift(stop)
        r = _np.empty(num_, dtype=object)
        div = (num_ - 1) if endpoint else num_
        step = (stop - start) / div if div > 0 else ZERO
        for i in range(num_):
            r[i] = start + step * i
        r = wrap(r, 'f')
        return (r, step) if retstep else r

    def logspace(self, a, b, n=50, **k):
        return emap(lambda x: spow(lift(10), x), self.linspace(a, b, n))

    def meshgrid(self, *xs, **k):
        return [wrap(m) for m in _np.meshgrid(*[raw(self.asarray(x)) for x in xs], **k)]

    # ---- joining
    def _cat(self, fn, xs, **k):
        xs = list(xs)
        if all(isinstance(x, _np.ndarray) and not isinstance(x, SymArray) for x in xs):
            return fn(xs, **k)
        xs = [sarr(x) for x in xs]
        return wrap(fn([raw(x) for x in xs], **k), join(*[x._kind for x in xs]))

    def concatenate(self, xs, axis=0, **k):
        return self._cat(_np.concatenate, xs, axis=axis)

    def vstack(self, xs, **k):
        return self._cat(_np.vstack, xs)

    def hstack(self, xs, **k):
        return self._cat(_np.hstack, xs)

    def column_stack(self, xs):
        return self._cat(_np.column_stack, xs)

    def dstack(self, xs):
        return self._cat(_np.dstack, xs)

    def stack(self, xs, axis=0, **k):
        return self._cat(_np.stack, xs, axis=axis)

    def append(self, a, v, axis=None):
        a, v = sarr(a), sarr(v)
        if axis is None:
            a, v = a.reshape(-1), v.reshape(-1)
            axis = 0
        return self.concatenate([a, v], axis=axis)

    def insert(self, a, i, v, axis=None):
        v = sarr(v)
        return wrap(_np.insert(raw(sarr(a)), i, raw(v) if v.ndim else v[()], axis=axis), kind(a))

    def delete(self, a, i, axis=None):
        if isinstance(i, SymArray):
            i = self._ci(i)
        return wrap(_np.delete(raw(sarr(a)), i, axis), kind(a))

    def _ci(self, i):
        return SymArray._conc_index(None, i) if False else SymArray._conc_index(_DUMMY, i)

    # ---- simple views
    def real(self, x):
        x = _um(x)
        return x.real if isinstance(x, (SymArray, Sym)) else _np.real(x)

    def imag(self, x):
        x = _um(x)
        return x.imag if isinstance(x, (SymArray, Sym)) else _np.imag(x)

    def angle(self, x, deg=False):
        r = emap(sangle, x, 'f')
        return r * 180 / lift(PI) if deg else r

    def abs(self, x, **k):
        return apply_or_native('absolute', _np.absolute, (x,), k.get('out'), True)

    def conj(self, x, **k):
        return apply_ufunc('conjugate', (x,))

    def isreal(self, x):
        return emap(lambda v: (lift(v).imag == 0), x, 'b')

    def iscomplexobj(self, x):
        return kind(x) == 'c'

    def isrealobj(self, x):
        return kind(x) != 'c'

    def isscalar(self, x):
        return isinstance(x, (Sym, SymBool)) or _np.isscalar(x)

    def ndim(self, x):
        return _np.ndim(raw(x)) if not isinstance(x, (Sym, SymBool)) else 0

    def shape(self, x):
        return _np.shape(raw(x)) if not isinstance(x, (Sym, SymBool)) else ()

    def size(self, x, axis=None):
        return _np.size(raw(x), axis) if not isinstance(x, (Sym, SymBool)) else 1

    def transpose(self, x, axes=None):
        x = self.asarray(x)
        return x.transpose(axes) if axes is not None else x.T

    def reshape(self, x, shape, *a, **k):
        return self.asarray(x).reshape(shape)

    def ravel(self, x, *a):
        return self.asarray(x).ravel()

    def squeeze(self, x, axis=None):
        return self.asarray(x).squeeze()

    def broadcast_to(self, x, shape, **k):
        return wrap(_np.broadcast_to(raw(self.asarray(x)), shape), kind(x))

    # ---- reductions
    def sum(self, a, axis=None, dtype=None, keepdims=False, **k):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        return reduce_uf('add', _arr(a), axis, keepdims)

    nansum_ = None

    def prod(self, a, axis=None, keepdims=False, **k):
        return reduce_uf('multiply', _arr(a), axis, keepdims)

    def max(self, a, axis=None, keepdims=False, **k):
        return reduce_uf('maximum', _arr(a), axis, keepdims)

    amax = max

    def min(self, a, axis=None, keepdims=False, **k):
        return reduce_uf('minimum', _arr(a), axis, keepdims)

    amin = min

    def ptp(self, a, axis=None):
        return self.max(a, axis) - self.min(a, axis)

    def any(self, a, axis=None, keepdims=False, **k):
        return reduce_uf('logical_or', _arr(a), axis, keepdims)

    def all(self, a, axis=None, keepdims=False, **k):
        return reduce_uf('logical_and', _arr(a), axis, keepdims)

    alltrue = all
    sometrue = any

    def count_nonzero(self, a, axis=None, **k):
        return reduce_f(lambda xs: _sum_list([lift(as_bool(x)) for x in xs]), _arr(a), axis)

    def mean(self, a, axis=None, keepdims=False, **k):
        a = _arr(a)
        n = a.size if axis is None else a.shape[axis]
        return reduce_uf('add', a, axis, keepdims) / n

    def average(self, a, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(a, axis)
        w = _arr(weights)
        return (_arr(a) * w).sum(axis) / w.sum(axis)

    def var(self, a, axis=None, ddof=0, **k):
        a = _arr(a)
        n = a.size if axis is None else a.shape[axis]
        m = self.mean(a, axis, keepdims=axis is not None)
        d = self.abs(a - m)
        return (d * d).sum(axis) / (n - ddof)

    def std(self, a, axis=None, ddof=0, **k):
        return emap(ssqrt, self.var(a, axis, ddof))

    def median(self, a, axis=None, **k):
        def f(xs):
            if any(type(lift(x)) is float and x != x for x in xs):
                return math.nan
            xs = net_sort(xs)
            n = len(xs)
            if not n:
                return math.nan
            return xs[n // 2] if n % 2 else (lift(xs[n // 2 - 1]) + xs[n // 2]) / 2
        return reduce_f(f, _arr(a), axis)

    def _nanred(self, f):
        def g(a, axis=None, **k):
            def h(xs):
                ys = [x for x in xs if not (type(x) is float and x != x)]
                return f(ys)
            return reduce_f(h, _arr(a), axis)
        return g

    @property
    def nanmin(self):
        return self._nanred(lambda ys: _fold(smin, ys) if ys else math.nan)

    @property
    def nanmax(self):
        return self._nanred(lambda ys: _fold(smax, ys) if ys else math.nan)

    @property
    def nansum(self):
        return self._nanred(_sum_list)

    @property
    def nanmean(self):
        return self._nanred(lambda ys: _sum_list(ys) / len(ys) if ys else math.nan)

    def _argext(self, better, a, axis, skipnan=False):
        a = _arr(a)
        if axis is not None and a.ndim > 1:
            s = _np.moveaxis(raw(a), axis, -1)
            out = _np.empty(s.shape[:-1], dtype=int)
            for i in _np.ndindex(*s.shape[:-1]):
                out[i] = self._argext(better, wrap(s[i]), None, skipnan)
            return out
        xs = list(raw(a).reshape(-1))
        if not xs:
            raise ValueError('attempt to get argmin of an empty sequence')
        best = None
        for i, x in enumerate(xs):
            x = lift(x)
            isn = type(x) is float and x != x
            if isn:
                if skipnan:
                    continue
                return i       # numpy: first nan wins
            if best is None or bool(better(x, xs[best])):
                best = i
        if best is None:
            raise ValueError('All-NaN slice encountered')
        return best

    def argmin(self, a, axis=None, **k):
        return self._argext(lambda x, y: scmp('<', x, y), a, axis)

    def argmax(self, a, axis=None, **k):
        return self._argext(lambda x, y: scmp('<', y, x), a, axis)

    def nanargmin(self, a, axis=None, **k):
        return self._argext(lambda x, y: scmp('<', x, y), a, axis, True)

    def nanargmax(self, a, axis=None, **k):
        return self._argext(lambda x, y: scmp('<', y, x), a, axis, True)

    def argsort(self, a, axis=-1, kind=None, **k):
        a = _arr(a)
        if a.ndim != 1:
            raise Unsupported('argsort nd')
        xs = list(raw(a))
        return _np.array(fork_argsort(xs), dtype=int)

    def sort(self, a, axis=-1, **k):
        a = _arr(a)
        if a.ndim != 1:
            raise Unsupported('sort nd')
        return a[self.argsort(a)]

    def lexsort(self, keys, axis=-1):
        ks = [list(raw(_arr(k))) for k in keys]
        idx = list(range(len(ks[-1])))
        for k in ks:
            o = fork_argsort([k[i] for i in idx])
            idx = [idx[i] for i in o]
        return _np.array(idx, dtype=int)

    def unique(self, a, return_index=False, return_inverse=False, return_counts=False, **k):
        a = _arr(a).reshape(-1)
        idx = self.argsort(a)
        xs = a[idx]
        keep, first, cnt, inv = [], [], [], _np.zeros(len(a), dtype=int)
        for i in range(len(xs)):
            if i == 0 or bool(xs[i] != xs[i - 1]):
                keep.append(i)
                first.append(idx[i])
                cnt.append(1)
            else:
                first[-1] = min(first[-1], idx[i])
                cnt[-1] += 1
            inv[idx[i]] = len(keep) - 1
        r = xs[_np.array(keep, dtype=int)]
        out = (r,)
        if return_index:
            out += (_np.array(first, dtype=int),)
        if return_inverse:
            out += (inv,)
        if return_counts:
            out += (_np.array(cnt),)
        return out if len(out) > 1 else r

    def cumsum(self, a, axis=None, **k):
        a = _arr(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        return accumulate(lambda x, y: lift(x) + lift(y), a, axis)

    def cumprod(self, a, axis=None, **k):
        a = _arr(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        return accumulate(lambda x, y: lift(x) * lift(y), a, axis)

    def diff(self, a, n=1, axis=-1, prepend=None, append=None):
        a = _arr(a)
        if prepend is not None:
            p = sarr(prepend)
            a = self.concatenate([p.reshape(1) if p.ndim == 0 else p, a])
        if append is not None:
            p = sarr(append)
            a = self.concatenate([a, p.reshape(1) if p.ndim == 0 else p])
        for _ in range(n):
            s = [slice(None)] * a.ndim
            t = list(s)
            s[axis], t[axis] = slice(1, None), slice(None, -1)
            a = a[tuple(s)] != a[tuple(t)] if a._kind == 'b' else a[tuple(s)] - a[tuple(t)]
        return a

    def ediff1d(self, a):
        return self.diff(_arr(a).reshape(-1))

    def gradient(self, f, *args, axis=None, edge_order=1):
        f = _arr(f)
        if f.ndim != 1 or edge_order != 1:
            raise Unsupported('gradient')
        n = f.shape[0]
        x = _arr(args[0]) if args and _np.ndim(raw(args[0])) else (self.arange(n) * (args[0] if args else 1))
        x = sarr(x)
        out = self.zeros(n)
        for i in range(1, n - 1):
            hd, hs = x[i + 1] - x[i], x[i] - x[i - 1]
            out[i] = (hs * hs * f[i + 1] + (hd * hd - hs * hs) * f[i] - hd * hd * f[i - 1]) / (hs * hd * (hd + hs))
        out[0] = (f[1] - f[0]) / (x[1] - x[0])
        out[-1] = (f[-1] - f[-2]) / (x[-1] - x[-2])
        return out

    # ---- logic
    def where(self, c, x=None, y=None):
        if x is None:
            c = _arr(c)
            return c.nonzero()
        if not isinstance(c, _np.ndarray) and not isinstance(x, _np.ndarray) and not isinstance(y, _np.ndarray):
            return ite(as_bool(c), x, y)
        c, x, y = sarr(c), sarr(x), sarr(y)
        k = join(x._kind, y._kind)
        C, X, Y = _np.broadcast_arrays(raw(c), raw(x), raw(y))
        out = _np.empty(C.shape, dtype=object)
        for i in _np.ndindex(*C.shape):
            out[i] = ite(as_bool(C[i]), X[i], Y[i])
        return wrap(out, k)

    def nonzero(self, c):
        return _arr(c).nonzero()

    def flatnonzero(self, c):
        return _arr(c).reshape(-1).nonzero()[0]

    def argwhere(self, c):
        return _np.transpose(_arr(c).nonzero())

    def clip(self, x, a_min=None, a_max=None, out=None, **k):
        a_min = k.get('min', a_min)
        a_max = k.get('max', a_max)
        r = x
        if a_min is not None:
            r = apply_ufunc('maximum', (r, a_min))
        if a_max is not None:
            r = apply_ufunc('minimum', (r, a_max))
        if out is not None:
            out[...] = r
            return out
        return r

    def nan_to_num(self, x, copy=True, nan=0.0, posinf=None, neginf=None):
        def f(v):
            if type(v) is float:
                if v != v:
                    return lift(nan)
                return lift(1.797e308 if v > 0 else -1.797e308) if (posinf is None) else lift(posinf if v > 0 else neginf)
            return v
        return emap(f, x, kind(x))

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return self.all(self.isclose(a, b, rtol, atol))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return emap2(lambda x, y: scmp('<=', sabs(lift(x) - lift(y)), lift(atol) + lift(rtol) * sabs(lift(y))), a, b, 'b')

    def array_equal(self, a, b, **k):
        a, b = _arr(a), _arr(b)
        if a.shape != b.shape:
            return FALSE
        return (a == b).all()

    def isin(self, a, b, **k):
        bs = list(raw(_arr(b)).reshape(-1))
        return emap(lambda x: _fold(lambda p, q: p | q, [as_bool(scmp('==', x, v)) for v in bs], FALSE), a, 'b')

    def select(self, conds, choices, default=0):
        r = default
        for c, v in reversed(list(zip(conds, choices))):
            r = self.where(c, v, r)
        return r

    def piecewise(self, x, conds, funcs, *a, **k):
        x = _arr(x)
        out = self.zeros(x.shape)
        if len(funcs) == len(conds) + 1:
            rest = None
            for c in conds:
                rest = _arr(c) if rest is None else rest | _arr(c)
            conds = list(conds) + [~rest]
        for c, f in zip(conds, funcs):
            v = f(x) if callable(f) else f
            out = self.where(c, v, out)
        return out

    # ---- numerics
    def round(self, x, n=0, out=None, **k):
        return emap(lambda v: sround(lift(v), n), x, kind(x))

    around = round
    round_ = round

    def power(self, a, b, **k):
        return apply_ufunc('power', (a, b), k.get('out'))

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        xp, fp = list(raw(_arr(xp))), list(raw(_arr(fp)))
        if len(xp) != len(fp):
            raise ValueError('fp and xp are not of the same length.')
        if not len(xp):
            raise ValueError('array of sample points is empty')
        if period is not None:
            raise Unsupported('interp period')
        xp = [lift(v) for v in xp]
        fp = [lift(v) for v in fp]
        L = fp[0] if left is None else lift(left)
        R = fp[-1] if right is None else lift(right)
        conc = all(type(v) is Sym and v.is_const() for v in xp)
        xc = [Fr(v.const()) for v in xp] if conc else None
        import bisect
        segs = {}

        def seg(j, x):
            s = segs.get(j)
            if s is None:
                s = (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j])
                segs[j] = s
            return s * (x - xp[j]) + fp[j]

        def one(x):
            x = lift(x)
            n = len(xp)
            if type(x) is float and x != x:
                return x
            if conc and type(x) is Sym and x.is_const():
                v = Fr(x.const())
                if v > xc[-1]:
                    return R
                if v < xc[0]:
                    return L
                j = bisect.bisect_right(xc, v) - 1
                if j >= n - 1:
                    return fp[-1]
                if v == xc[j]:
                    return fp[j]
                return seg(j, x)
            # numpy: x > xp[-1] -> right, x < xp[0] -> left (checked by the last/first element)
            r = ite(scmp('<', xp[-1], x), R, fp[-1])
            for j in range(n - 2, -1, -1):
                if any(type(t) is float for t in (xp[j], xp[j + 1])):
                    raise Unsupported('interp with nan abscissa')
                if type(fp[j]) is float or type(fp[j + 1]) is float:
                    if bool(scmp('<', x, xp[j + 1])):
                        r = seg(j, x)
                    continue
                c = scmp('<', x, xp[j + 1])
                if c.const is False:
                    continue
                eqn = scmp('==', xp[j], xp[j + 1])
                if eqn.const is True:
                    continue
                r = ite(c, seg(j, x), r)
            return ite(scmp('<', x, xp[0]), L, r)
        return emap(one, x, 'c' if any(type(f) is Sym and not f.isreal() for f in fp) else 'f')

    def polyfit(self, x, y, deg, **k):
        x, y = list(raw(_arr(x))), list(raw(_arr(y)))
        if len(x) != len(y):
            raise TypeError('expected x and y to have same length')
        if not len(x):
            raise TypeError('expected non-empty vector for x')
        deg = int(deg)
        if deg == 0:
            return sarr([_sum_list(y) / len(y)])
        if deg == 1:
            s, i = lsq_line(x, y)
            return sarr([s, i], 'f')
        xs = [lift(v) for v in x]
        if not all(v.is_const() for v in xs):
            raise Unsupported('polyfit of symbolic x')
        V = [[Fr(v.const()) ** (deg - j) for j in range(deg + 1)] for v in xs]
        A = [[sum(V[i][a] * V[i][b] for i in range(len(xs))) for b in range(deg + 1)] for a in range(deg + 1)]
        Ainv = inv_exact(A)
        rhs = [_sum_list([lift(norm(V[i][a])) * lift(y[i]) for i in range(len(xs))]) for a in range(deg + 1)]
        return sarr([_sum_list([lift(norm(Ainv[a][b])) * rhs[b] for b in range(deg + 1)]) for a in range(deg + 1)], 'f')

    def polyval(self, p, x):
        r = None
        for c in list(p):
            r = c if r is None else r * x + c
        return r + 0 * x

    def trapezoid(self, y, x=None, dx=1.0, axis=-1):
        y = _arr(y)
        if y.ndim != 1:
            raise Unsupported('trapz nd')
        if x is None:
            d = [lift(dx)] * (y.shape[0] - 1)
        else:
            x = _arr(x)
            d = list(raw(x[1:] - x[:-1]))
        return _sum_list([d[i] * (y[i + 1] + y[i]) / 2 for i in range(y.shape[0] - 1)])

    trapz = trapezoid

    def convolve(self, a, v, mode='full'):
        a, v = _arr(a), _arr(v)
        if a.ndim != 1 or v.ndim != 1:
            raise ValueError('object too deep for desired array')
        if a.size == 0 or v.size == 0:
            raise ValueError('a cannot be empty')
        A, V = list(raw(a)), list(raw(v))
        if len(V) > len(A):
            A, V = V, A
        n, m = len(A), len(V)
        full = []
        rng = range(n + m - 1)
        if mode == 'valid':
            rng = range(m - 1, n)
        elif mode == 'same':
            s = (m - 1) // 2
            rng = range(s, s + n)
        for k in rng:
            full.append(_sum_list([lift(A[k - j]) * lift(V[j]) for j in range(m) if 0 <= k - j < n]))
        return wrap(_np.array(full + [None], dtype=object)[:-1], join(a._kind, v._kind))

    def correlate(self, a, v, mode='valid'):
        v = _arr(v)
        return self.convolve(a, apply_ufunc('conjugate', (v[::-1],)), mode)

    def dot(self, a, b, **k):
        return dot(a, b)

    matmul = dot

    def inner(self, a, b):
        a, b = _arr(a), _arr(b)
        if a.ndim == 1 and b.ndim == 1:
            return dot(a, b)
        return dot(a, b.T)

    def vdot(self, a, b):
        return dot(apply_ufunc('conjugate', (_arr(a).reshape(-1),)), _arr(b).reshape(-1))

    def outer(self, a, b, **k):
        return sarr(a).reshape(-1, 1) * sarr(b).reshape(1, -1)

    def tensordot(self, a, b, axes=2):
        a, b = sarr(a), sarr(b)
        if isinstance(axes, int):
            aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
        else:
            aa, bb = axes
            aa = [aa] if isinstance(aa, int) else list(aa)
            bb = [bb] if isinstance(bb, int) else list(bb)
        na = [i for i in range(a.ndim) if i not in aa]
        nb = [i for i in range(b.ndim) if i not in bb]
        A = a.transpose(na + aa).reshape(-1, int(_np.prod([a.shape[i] for i in aa])))
        B = b.transpose(bb + nb).reshape(int(_np.prod([b.shape[i] for i in bb])), -1)
        return dot(A, B).reshape([a.shape[i] for i in na] + [b.shape[i] for i in nb])

    def einsum(self, spec, *ops, **k):
        ops = [sarr(o) for o in ops]
        spec = spec.replace(' ', '')
        if '...' in spec:
            raise Unsupported('einsum ellipsis')
        lhs, _, out = spec.partition('->')
        ins = lhs.split(',')
        if '->' not in spec:
            allc = ''.join(ins)
            out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
        dims = {}
        for s, o in zip(ins, ops):
            for c, d in zip(s, o.shape):
                if dims.setdefault(c, d) == 1:
                    dims[c] = d
        summed = [c for c in dims if c not in out]
        res = _np.empty([dims[c] for c in out], dtype=object)
        R = [raw(o) for o in ops]
        for idx in _np.ndindex(*res.shape):
            env = dict(zip(out, idx))
            terms = []
            for sidx in _np.ndindex(*[dims[c] for c in summed]):
                env.update(zip(summed, sidx))
                t = None
                for s, o in zip(ins, R):
                    v = lift(o[tuple(env[c] if o.shape[q] > 1 else 0 for q, c in enumerate(s))])
                    t = v if t is None else t * v
                terms.append(t)
            res[idx] = _sum_list(terms)
        return wrap(res, join(*[o._kind for o in ops])) if res.ndim else res[()]

    def kron(self, a, b):
        raise Unsupported('kron')

    def fft(self):
        raise Unsupported('fft')

    def unravel_index(self, i, shape, **k):
        return _np.unravel_index(int(i), shape)

    def searchsorted(self, a, v, side='left', sorter=None):
        xs = [lift(q) for q in raw(_arr(a))]

        def one(x):
            op = '<' if side == 'left' else '<='
            lo, hi = 0, len(xs)
            while lo < hi:
                mid = (lo + hi) // 2
                if bool(scmp(op, xs[mid], x)):
                    lo = mid + 1
                else:
                    hi = mid
            return lo
        if isinstance(v, (_np.ndarray, list)):
            return _np.array([one(lift(q)) for q in raw(_arr(v))], dtype=int)
        return one(lift(v))

    def digitize(self, x, bins, right=False):
        return self.searchsorted(bins, x, 'left' if right else 'right')

    def errstate(self, **k):
        return _Null()

    def seterr(self, **k):
        return {}

    def geterr(self):
        return {}

    def vectorize(self, f, *a, **k):
        def g(*args):
            if len(args) == 1:
                return emap(f, args[0])
            return emap2(f, *args)
        return g

    def frompyfunc(self, f, nin, nout):
        return self.vectorize(f)

    def apply_along_axis(self, f, axis, a, *args, **k):
        a = _arr(a)
        s = _np.moveaxis(raw(a), axis, -1)
        out = None
        for i in _np.ndindex(*s.shape[:-1]):
            r = f(wrap(s[i].copy(), a._kind), *args, **k)
            if out is None:
                out = _np.empty(s.shape[:-1] + _np.shape(raw(r)), dtype=object)
            out[i] = raw(r)
        if _np.ndim(out) > s.ndim - 1:
            out = _np.moveaxis(out, -1, axis)
        return wrap(out)

    def nditer(self, *a, **k):
        raise Unsupported('nditer')

    def savetxt(self, fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
        X = _arr(X)
        if not isinstance(fmt, str) or fmt.count('%') != 1 or X.ndim not in (1, 2) or k.get('encoding'):
            raise Unsupported('savetxt options')
        rows = [[v] for v in raw(X)] if X.ndim == 1 else [list(r) for r in raw(X)]
        body = [delimiter.join(format(v, fmt.lstrip('%')) if isinstance(v, Sym) else fmt % (v,) for v in r) for r in rows]
        text = (comments + header + newline if header else '') + ''.join(b + newline for b in body) + (comments + footer + newline if footer else '')
        if hasattr(fname, 'write'):
            fname.write(text)
        else:
            with open(fname, 'w') as f:
                f.write(text)

    def genfromtxt(self, fname, dtype=float, comments='#', delimiter=None, skip_header=0, encoding=None, unpack=False, **k):
        if k or dtype not in (float, FloatShim):
            raise Unsupported('genfromtxt options')
        if hasattr(fname, 'read'):
            text = fname.read()
        elif isinstance(fname, (list, tuple)):
            text = '\n'.join(fname)
        else:
            with open(fname) as f:
                text = f.read()
        rows = []
        for l in text.splitlines()[skip_header:]:
            l = l.split(comments)[0] if comments else l
            if l.strip():
                rows.append([FloatShim(w.strip()) for w in l.split(delimiter) if w.strip() or delimiter])
        if len(set(len(r) for r in rows)) > 1:
            raise ValueError('rows of different length')
        x = sarr(rows) if rows else wrap(_np.empty(0, dtype=object), 'f')
        x = x.squeeze() if x.ndim > 1 else x
        return x.T if unpack else x

    def loadtxt(self, fname, dtype=float, comments='#', delimiter=None, skiprows=0, unpack=False, ndmin=0, encoding=None, **k):
        x = self.genfromtxt(fname, dtype, comments, delimiter, skiprows, unpack=False, **k)
        while x.ndim < ndmin:
            x = x.reshape((1,) + x.shape)
        return x.T if unpack else x

    class _Linalg(object):
        LinAlgError = _np.linalg.LinAlgError

        @staticmethod
        def inv(a):
            return lin_inv(a)

        @staticmethod
        def solve(a, b):
            a, b = sarr(a), sarr(b)
            ai = lin_inv(a)
            if b.ndim == a.ndim - 1 and b.ndim == 1:
                return dot(ai, b)
            if b.ndim == a.ndim:
                return dot(ai, b)
            # stacked vectors (numpy>=2: only 1-D b treated as vector)
            return dot(ai, b)

        @staticmethod
        def det(a):
            return det_sym(raw(sarr(a)))

        @staticmethod
        def norm(a, ord=None, axis=None, **k):
            if ord not in (None, 2):
                raise Unsupported('norm ord')
            d = NP.abs(_arr(a))
            return emap(ssqrt, (d * d).sum(axis))

        @staticmethod
        def lstsq(A, b, rcond=None):
            A, b = sarr(A), sarr(b)
            At = A.T
            return dot(lin_inv(dot(At, A)), dot(At, b)), None, None, None

    linalg = _Linalg()

    class _R(object):
        def __getitem__(self, key):
            if not isinstance(key, tuple):
                key = (key,)
            parts = []
            for k in key:
                if isinstance(k, slice):
                    if isinstance(k.step, complex):
                        parts.append(NP.linspace(k.start, k.stop, int(abs(k.step))))
                    else:
                        parts.append(NP.arange(k.start or 0, k.stop, k.step if k.step is not None else 1))
                elif isinstance(k, str):
                    raise Unsupported('r_ string')
                elif isinstance(k, MaskedSel):
                    parts.append(k._mat())
                elif isinstance(k, _np.ndarray):
                    parts.append(k if k.ndim else k.reshape(1))
                elif isinstance(k, (list, tuple)):
                    parts.append(NP.array(k))
                elif isinstance(k, int):
                    parts.append(_np.array([k]))
                else:
                    parts.append(sarr([k]))
            if all(not isinstance(p, SymArray) for p in parts):
                return _np.concatenate(parts)
            return NP.concatenate(parts)

    r_ = _R()

    class _C(object):
        def __getitem__(self, key):
            if not isinstance(key, tuple):
                key = (key,)
            return NP.column_stack([NP.r_[k] if isinstance(k, slice) else k for k in key])

    c_ = _C()
    s_ = _np.s_
    index_exp = _np.index_exp
    random = _np.random
    testing = _np.testing


class _Null(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


DELEGATED = set()


def note_delegate(name):
    DELEGATED.add(name)


def _um(x):
    return x._mat() if isinstance(x, MaskedSel) else x


def _arr(a):
    a = _um(a)
    if isinstance(a, SymArray):
        return a
    return sarr(a)


def _allint(x):
    for e in x:
        if isinstance(e, (list, tuple)):
            if not _allint(e):
                return False
        elif isinstance(e, _np.ndarray):
            if isinstance(e, SymArray) or e.dtype.kind not in 'iu':
                return False
        elif isinstance(e, bool) or not isinstance(e, (int, _np.integer)):
            return False
    return True


def _hassym(a):
    if isinstance(a, _np.ndarray):
        return a.dtype == _obj
    return isinstance(a, (Sym, SymBool))


def apply_or_native(n, real, args, out, where):
    if all(isinstance(a, _np.ndarray) and not isinstance(a, SymArray) and a.dtype.kind in 'iub' or isinstance(a, (int, bool, _np.integer)) for a in args) \
            and any(isinstance(a, _np.ndarray) for a in args) and n in ('add', 'subtract', 'multiply', 'absolute', 'negative', 'maximum', 'minimum',
                                                                       'less', 'greater', 'equal', 'not_equal', 'less_equal', 'greater_equal',
                                                                       'invert', 'logical_and', 'logical_or', 'logical_not', 'bitwise_and', 'bitwise_or'):
        return real(*args) if out is None else real(*args, out=out)
    if n == 'invert' and isinstance(args[0], bool):
        return not args[0]
    return apply_ufunc(n, args, out, where)


NP = _NP()
_DUMMY = SymArray.__new__(SymArray, (0,), dtype=object)


# ---------------------------------------------------------------- algorithms

def _lt_nan(a, b):
    a, b = lift(a), lift(b)
    an, bn = type(a) is float and a != a, type(b) is float and b != b
    if an:
        return FALSE
    if bn:
        return TRUE
    return scmp('<', a, b)


def fork_argsort(xs):
    """stable insertion sort; every comparison decided by path forking"""
    order = []
    for i, x in enumerate(xs):
        pos = len(order)
        while pos > 0 and bool(_lt_nan(x, xs[order[pos - 1]])):
            pos -= 1
        order.insert(pos, i)
    return order


def net_sort(xs):
    """sorting network with min/max (no forking)"""
    xs = [lift(x) for x in xs]
    n = len(xs)
    mono = {m for x in xs if type(x) is not float for m in x.p}
    if n > 1 and len(mono) == 1 and all(type(x) is not float and all(isinstance(v, (int, Fr)) for v in x.p.values()) for x in xs):
        m, = mono
        if not m or core.scmp('>', Sym({m: 1}), 0) is core.TRUE:
            # multiples of one positive quantity
            return sorted(xs, key=lambda x: x.p.get(m, 0))
    if n > 24:
        raise Unsupported('median of a long symbolic array')
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = smin(a, b), smax(a, b)
    return xs


def lsq_line(x, y):
    x = [lift(v) for v in x]
    y = [lift(v) for v in y]
    n = len(x)
    if any(type(v) is float for v in x + y):
        return math.nan, math.nan
    sx, sy = _sum_list(x), _sum_list(y)
    mx = sx / n
    dx = [v - mx for v in x]
    sxx = _sum_list([d * d for d in dx])
    sxy = _sum_list([d * v for d, v in zip(dx, y)])
    s = sxy / sxx
    return s, (sy - s * sx) / n


def inv_exact(A):
    n = len(A)
    M = [[Fr(v) for v in row] + [Fr(int(i == j)) for j in range(n)] for i, row in enumerate(A)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise _np.linalg.LinAlgError('Singular matrix')
        M[c], M[p] = M[p], M[c]
        pv = M[c][c]
        M[c] = [v / pv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return [row[n:] for row in M]


def det_sym(A):
    n = A.shape[0]
    if n == 1:
        return lift(A[0, 0])
    if n == 2:
        return lift(A[0, 0]) * A[1, 1] - lift(A[0, 1]) * A[1, 0]
    r = ZERO
    for j in range(n):
        a = lift(A[0, j])
        if not a.p:
            continue
        m = _np.delete(_np.delete(A, 0, 0), j, 1)
        t = a * det_sym(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def lin_inv(a):
    a = sarr(a)
    if a.ndim > 2:
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(*a.shape[:-2]):
            out[i] = raw(lin_inv(a[i]))
        return wrap(out, a._kind)
    A = raw(a)
    n = A.shape[0]
    L = [[lift(v) for v in row] for row in A]
    if all(v.is_const() for row in L for v in row):
        B = inv_exact([[v.const() for v in row] for row in L])
        return sarr([[lift(norm(v)) for v in row] for row in B], 'f')
    if n > 4:
        raise Unsupported('symbolic matrix inverse of size %d' % n)
    d = det_sym(A)
    if not d.p:
        raise _np.linalg.LinAlgError('Singular matrix')
    out = _np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = ONE / d
        return wrap(out, a._kind)
    for i in range(n):
        for j in range(n):
            m = _np.delete(_np.delete(A, j, 0), i, 1)
            c = det_sym(m)
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return wrap(out, a._kind)


def _scalar_ufunc(self, ufunc, method, *inputs, **kw):
    if method != '__call__':
        return SymArray.__array_ufunc__(_DUMMY, ufunc, method, *inputs, **kw)
    r = apply_ufunc(ufunc.__name__, inputs, kw.get('out'), kw.get('where', True))
    return r


Sym.__array_ufunc__ = _scalar_ufunc
SymBool.__array_ufunc__ = _scalar_ufunc
