"""Symbolic scalars: exact polynomial normal form over atoms, and symbolic booleans.

A Sym is a finite sum of  coeff * monomial ; coeff is an exact rational, a
monomial is a product of powers of atoms.  Atoms: the imaginary unit, real input
variables, unit phase factors e^{i phi}, formal complex variables, uninterpreted
function applications (Bessel functions, response functions ...), exp/10**x of a
monomial, square roots, inverses of composite denominators, if-then-else values.
The normal form is only a simplifier; verdicts come from z3 (see solve.py).
"""
from fractions import Fraction as Fr
import math
import numpy as _np
import z3
import mpmath

mpmath.mp.dps = 45


class Unsupported(BaseException):
    """The encoder cannot represent this operation."""


# --------------------------------------------------------------------------
# numbers

def norm(c):
    if type(c) is Fr and c.denominator == 1:
        return c.numerator
    return c


def num(x):
    """Exact rational from a Python/numpy number: floats by their shortest repr."""
    t = type(x)
    if t is int:
        return x
    if t is Fr:
        return norm(x)
    if t is bool:
        return int(x)
    if isinstance(x, (_np.integer, int)):
        return int(x)
    if isinstance(x, (_np.bool_,)):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return norm(Fr(repr(x)))
    raise TypeError(x)


def mp2fr(x):
    q = Fr(int(mpmath.nint(x * mpmath.mpf(10) ** 42)), 10 ** 42)
    return norm(q)


def fr2mp(c):
    c = Fr(c)
    return mpmath.mpf(c.numerator) / mpmath.mpf(c.denominator)


PI = mp2fr(mpmath.pi)

# --------------------------------------------------------------------------
# atoms


class Atom(object):
    __slots__ = ('id', 'name', 'kind', 'pos', 'nonneg', 'conj', 'data', 'key')
    # kind: 'I','var','unit','cplx','uf','pow','sqrt','inv','ite','const','rnd','uabs'


ATOMS = []
_BYKEY = {}


def new_atom(kind, name, key=None, pos=False, nonneg=False, data=None):
    if key is not None:
        a = _BYKEY.get(key)
        if a is not None:
            return a
    a = Atom()
    a.id = len(ATOMS)
    a.name = name
    a.kind = kind
    a.pos = pos
    a.nonneg = nonneg or pos
    a.data = data
    a.key = key
    a.conj = None    # None: real; 'inv': conj = inverse; int: id of conj atom
    ATOMS.append(a)
    if key is not None:
        _BYKEY[key] = a
    return a


NEAR = Fr(1, 10 ** 12)
_NEAR = {}


def near_atom(tag, polys):
    """key of an atom defined by polynomials: an atom whose definition has the same terms with coefficients that agree
    to 1e-12 (rounded constants computed in another order) is the same atom"""
    key = (tag, tuple(pkey(p) for p in polys))
    if key in _BYKEY:
        return key
    sig = (tag, tuple(frozenset(p) for p in polys))
    for k2, old in _NEAR.setdefault(sig, []):
        if all(abs(v - o[m]) <= NEAR * abs(v) for p, o in zip(polys, old) for m, v in p.items()):
            _BYKEY[key] = _BYKEY[k2]
            return key
    _NEAR[sig].append((key, [dict(p) for p in polys]))
    return key


I_ATOM = new_atom('I', 'I')
assert I_ATOM.id == 0
ONE_M = ()
I_M = ((0, 1),)


def reset_atoms():
    """Forget all atoms (between cases)."""
    del ATOMS[1:]
    _ABSARG.clear()
    _ABSSQ.clear()
    _BYKEY.clear()
    _NEAR.clear()
    _MULC.clear()
    _CONJC.clear()


_MULC = {}
_CONJC = {}


def _red(merged):
    """Reduce dict aid->exp to (coeff, mono, extra poly or None)."""
    coeff = 1
    extra = None
    out = []
    for aid in sorted(merged):
        e = merged[aid]
        if e == 0:
            continue
        if aid == 0:
            e = e % 4
            if e == 0:
                continue
            if e == 1:
                out.append((0, 1))
            elif e == 2:
                coeff = -coeff
            else:
                coeff = -coeff
                out.append((0, 1))
            continue
        a = ATOMS[aid]
        k = a.kind
        if k == 'const':      # positive rational constant base, fractional exponent
            f = math.floor(e)
            if f:
                coeff = norm(coeff * Fr(a.data) ** f)
                e = e - f
            if e:
                out.append((aid, norm(e)))
            continue
        if k == 'sqrt':
            h, r = divmod(e, 2)
            if h:
                q = ppow(a.data, int(h))
                extra = q if extra is None else pmul(extra, q)
            if r:
                out.append((aid, norm(r)))
            continue
        if k == 'inv' and e < 0:
            q = ppow(a.data, -int(e))
            extra = q if extra is None else pmul(extra, q)
            continue
        out.append((aid, norm(e)))
    return coeff, tuple(out), extra


def mmul(m1, m2):
    key = (m1, m2)
    r = _MULC.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        if a in d:
            d[a] = d[a] + e
        else:
            d[a] = e
    r = _red(d)
    _MULC[key] = r
    return r


# polynomials: dict mono -> coeff (no zeros) -------------------------------

def padd(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = norm(v)
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    if len(p) > len(q):
        p, q = q, p
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                k, m, ex = 1, m2, None
            elif not m2:
                k, m, ex = 1, m1, None
            else:
                k, m, ex = mmul(m1, m2)
            c = c1 * c2 * k
            if ex is not None:
                for mm, cc in pmul({m: 1}, ex).items():
                    v = r.get(mm, 0) + c * cc
                    if v:
                        r[mm] = norm(v)
                    else:
                        r.pop(mm, None)
                continue
            v = r.get(m, 0) + c
            if v:
                r[m] = norm(v)
            else:
                r.pop(m, None)
    return r


def pscale(p, c):
    if c == 1:
        return p
    if c == 0:
        return {}
    return {m: norm(v * c) for m, v in p.items()}


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    r = {ONE_M: 1}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def mconj(m):
    r = _CONJC.get(m)
    if r is not None:
        return r
    d = {}
    for a, e in m:
        A = ATOMS[a]
        if a == 0:
            d[0] = d.get(0, 0) + 3 * e
        elif A.conj is None:
            d[a] = d.get(a, 0) + e
        elif A.conj == 'inv':
            d[a] = d.get(a, 0) - e
        else:
            d[A.conj] = d.get(A.conj, 0) + e
    r = _red(d)
    _CONJC[m] = r
    return r


def pconj(p):
    r = {}
    for m, c in p.items():
        k, mm, ex = mconj(m)
        if ex is not None:
            r = padd(r, pscale(pmul({mm: 1}, ex), c * k))
            continue
        v = r.get(mm, 0) + c * k
        if v:
            r[mm] = norm(v)
        else:
            r.pop(mm, None)
    return r


def allreal_atoms(p):
    for m in p:
        for a, e in m:
            if a and ATOMS[a].conj is not None:
                return False
    return True


def preal(p):
    if allreal_atoms(p):
        return {m: c for m, c in p.items() if not m or m[0][0] != 0}
    return pscale(padd(p, pconj(p)), Fr(1, 2))


def pimag(p):
    if allreal_atoms(p):
        return {m[1:]: c for m, c in p.items() if m and m[0][0] == 0}
    q = padd(p, pconj(p), -1)
    return pscale(pmul(q, {I_M: 1}), Fr(-1, 2))


def is_real_poly(p):
    if allreal_atoms(p):
        return all(not m or m[0][0] != 0 for m in p)
    return not pimag(p)


def pkey(p):
    return frozenset(p.items())


def is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)


def const_val(p):
    return p.get(ONE_M, 0)


def msort_key(m):
    return (len(m), m)


def lead(p):
    return min(p, key=lambda m: (sum(1 for _ in m), [(a, Fr(e)) for a, e in m]))


def pinv(p):
    """1/p as polynomial over (possibly new) inverse atoms; p != 0 assumed by caller."""
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        d = {a: -e for a, e in m}
        k, mm, ex = _red(d)
        r = {mm: norm(Fr(k) / Fr(c))}
        if ex is not None:
            r = pmul(r, ex)
        return r
    if not is_real_poly(p):
        pc = pconj(p)
        n2 = pmul(p, pc)
        return pmul(pc, pinv(n2))
    # content: common monomial factor with minimal exponents
    allm = list(p)
    common = dict(allm[0])
    for m in allm[1:]:
        d = dict(m)
        for a in list(common):
            e1, e2 = common[a], d.get(a, 0)
            if e2 == 0 or (e1 > 0) != (e2 > 0):
                if e2 == 0 and e1 > 0:
                    del common[a]
                elif e2 == 0:
                    pass           # e1 < 0: keep (multiply through)
                else:
                    common[a] = min(e1, e2)
            else:
                common[a] = min(e1, e2)
        for a, e2 in d.items():
            if a not in common and e2 < 0:
                common[a] = e2
    common.pop(0, None)
    for a in list(common):
        if ATOMS[a].kind in ('sqrt', 'const', 'inv') or ATOMS[a].conj is not None:
            del common[a]
    cm = tuple(sorted((a, e) for a, e in common.items() if e))
    if cm:
        inv_cm = {tuple((a, -e) for a, e in cm): 1}
        q = pmul(p, inv_cm)
    else:
        inv_cm = {ONE_M: 1}
        q = p
    l = lead(q)
    c = q[l]
    q = pscale(q, Fr(1) / Fr(c))
    a = new_atom('inv', 'inv', key=near_atom('inv', [q]), data=q)
    r = {((a.id, 1),): norm(Fr(1) / Fr(c))}
    return pmul(r, inv_cm)


# --------------------------------------------------------------------------
# current engine context (set by explore.py)

CTX = [None]


def ctx():
    return CTX[0]


# --------------------------------------------------------------------------
# scalars

def _special(x):
    return isinstance(x, (float, _np.floating)) and (x != x or x in (math.inf, -math.inf))


def lift(x):
    """Python/numpy number -> Sym (or special float nan/inf unchanged)."""
    t = type(x)
    if t is Sym:
        return x
    if t is int or t is Fr:
        return Sym({ONE_M: x} if x else {})
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return x
        c = num(x)
        return Sym({ONE_M: c} if c else {})
    if isinstance(x, (int, _np.integer, _np.bool_)):
        c = int(x)
        return Sym({ONE_M: c} if c else {})
    if isinstance(x, (complex, _np.complexfloating)):
        x = complex(x)
        re, im = x.real, x.imag
        if re != re or im != im or abs(re) == math.inf or abs(im) == math.inf:
            if re != re or im != im:
                return math.nan
            return math.inf
        p = {}
        re, im = num(re), num(im)
        if re:
            p[ONE_M] = re
        if im:
            p[I_M] = im
        return Sym(p)
    if isinstance(x, SymBool):
        if x.const is not None:
            return lift(int(x.const))
        return ite(x, lift(1), lift(0))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if t is FmtStr:
        raise Unsupported('string arithmetic')
    raise TypeError('cannot lift %r' % (type(x),))


class FmtStr(str):
    pass


class Sym(object):
    __slots__ = ('p', '_h')

    def __init__(self, p):
        self.p = p
        self._h = None

    # -- structure
    def key(self):
        if self._h is None:
            self._h = pkey(self.p)
        return self._h

    __hash__ = None

    def is_const(self):
        return is_const(self.p)

    def is_num(self):
        """constant Gaussian rational"""
        return all(m == ONE_M or m == I_M for m in self.p)

    def const(self):
        return const_val(self.p)

    def is_zero(self):
        return not self.p

    @property
    def real(self):
        return Sym(preal(self.p))

    @property
    def imag(self):
        return Sym(pimag(self.p))

    def conjugate(self):
        return Sym(pconj(self.p))

    conj = conjugate

    def isreal(self):
        return is_real_poly(self.p)

    # numpy scalar-like API
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return _np.dtype(float) if self.isreal() else _np.dtype(complex)

    def copy(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def astype(self, t, *a, **k):
        from . import shim
        return shim.cast_scalar(self, shim.kind_of(t))

    def _self(self, *a, **k):
        return self

    max = min = sum = mean = ravel = flatten = squeeze = tolist = _self

    def round(self, n=0):
        return self.__round__(n)

    def any(self):
        return self != 0

    all = any

    # -- arithmetic
    def _bin(self, o):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            return NotImplemented
        try:
            return lift(o)
        except TypeError:
            return NotImplemented

    def __add__(self, o):
        o = o if type(o) is Sym else self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return o
        return Sym(padd(self.p, o.p))

    __radd__ = __add__

    def __sub__(self, o):
        o = o if type(o) is Sym else self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return -o
        return Sym(padd(self.p, o.p, -1))

    def __rsub__(self, o):
        o = o if type(o) is Sym else self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return o
        return Sym(padd(o.p, self.p, -1))

    def __mul__(self, o):
        o = o if type(o) is Sym else self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            if o != o:
                return o
            s = self._sign_fork()
            return math.nan if s == 0 else s * o
        return Sym(pmul(self.p, o.p))

    __rmul__ = __mul__

    def _sign_fork(self):
        if not self.isreal():
            return 1
        if bool(self == 0):
            return 0
        return 1 if bool(self > 0) else -1

    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def _inv(self):
        return Sym(pinv(self.p))

    def __truediv__(self, o):
        o = o if type(o) is Sym else self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return math.nan if o != o else Sym({})
        return sdiv(self, o)

    def __rtruediv__(self, o):
        o = o if type(o) is Sym else self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            if o != o:
                return o
            s = self._sign_fork()
            return o if s >= 0 else -o
        return sdiv(o, self)

    def __floordiv__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        q = sdiv(self, o)
        return sfloor(q)

    def __rfloordiv__(self, o):
        return sfloor(sdiv(lift(o), self))

    def __mod__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        return self - o * sfloor(sdiv(self, o))

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            raise Unsupported('pow inf')
        return spow(self, o)

    def __rpow__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            raise Unsupported('pow inf')
        return spow(o, self)

    def __abs__(self):
        return sabs(self)

    def __round__(self, n=0):
        return sround(self, n or 0)

    def rint(self):
        return sround(self, 0)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __trunc__(self):
        return strunc(self)

    floor = __floor__
    ceil = __ceil__
    trunc = __trunc__

    # -- comparisons
    def __eq__(self, o):
        return scmp('==', self, o)

    def __ne__(self, o):
        return scmp('!=', self, o)

    def __lt__(self, o):
        return scmp('<', self, o)

    def __le__(self, o):
        return scmp('<=', self, o)

    def __gt__(self, o):
        return scmp('>', self, o)

    def __ge__(self, o):
        return scmp('>=', self, o)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(Fr(self.const()))
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        if self.is_num():
            return complex(float(Fr(self.p.get(ONE_M, 0))), float(Fr(self.p.get(I_M, 0))))
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(Fr(self.const()))
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.is_const() and type(self.const()) is int:
            return self.const()
        raise TypeError('not an integer')

    def is_integer(self):
        return self.is_const() and type(self.const()) is int

    # -- elementary functions (numpy calls these on object arrays)
    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def log10(self):
        return slog10(self)

    def sin(self):
        return ssin(self)

    def cos(self):
        return scos(self)

    def tan(self):
        return sdiv(ssin(self), scos(self))

    def tanh(self):
        return stanh(self)

    def sinh(self):
        e = sexp(self)
        return (e - 1 / e) / 2

    def cosh(self):
        e = sexp(self)
        return (e + 1 / e) / 2

    def square(self):
        return self * self

    def angle(self):
        return sangle(self)

    # -- output
    def __repr__(self):
        return 'Sym(%s)' % pstr(self.p)

    def __str__(self):
        return self.__format__('')

    def __format__(self, spec):
        c = ctx()
        if self.is_num() and c is not None and not c.token_consts:
            if self.is_const():
                v = float(Fr(self.const()))
                if spec.endswith('d'):
                    v = int(v)
            else:
                v = complex(self)
            return format(v, spec)
        return c.format_token(self, spec) if c is not None else 'sym'


def cstr(c):
    if type(c) is Fr and c.denominator > 10 ** 12 or abs(c) > 10 ** 20:
        try:
            return '%.9g' % float(c)
        except OverflowError:
            return 'big'
    return str(c)


def pstr(p, n=6):
    if not p:
        return '0'
    s = []
    for i, (m, c) in enumerate(p.items()):
        if i >= n:
            s.append('...(%d terms)' % len(p))
            break
        t = '*'.join((ATOMS[a].name if e == 1 else '%s^%s' % (ATOMS[a].name, e)) for a, e in m)
        s.append('%s%s' % ('' if c == 1 and t else cstr(c) if not t else '%s*' % cstr(c), t))
    return ' + '.join(s)


ZERO = Sym({})
ONE = Sym({ONE_M: 1})
IMAG = Sym({I_M: 1})


# --------------------------------------------------------------------------
# division and elementary functions

def sdiv(a, b):
    if not b.p:
        if not a.p:
            return math.nan
        if a.isreal():
            return math.inf * a._sign_fork() if a._sign_fork() else math.nan
        return math.inf
    if not b.is_num():
        c = ctx()
        if c is not None and not is_nonzero(b.p):
            if c.div_mode == 'fork' and b.isreal():
                if bool(b == 0):
                    return sdiv(a, ZERO)
            elif c.note_nonzero(b):
                return sdiv(a, ZERO)
    return Sym(pmul(a.p, pinv(b.p)))


def is_nonzero(p):
    """syntactically non-zero"""
    if len(p) == 1:
        (m, c), = p.items()
        return all(atom_nonzero(ATOMS[a]) for a, e in m)
    if p and all(c > 0 for c in p.values()) and all(mono_nonneg(m) for m in p) \
            and any(mono_nonneg(m) and all(atom_nonzero(ATOMS[a]) for a, e in m) for m in p):
        return True
    return False


def atom_nonzero(A):
    return A.pos or A.kind in ('I', 'unit', 'const', 'pow', 'inv')


def mono_nonneg(m):
    for a, e in m:
        A = ATOMS[a]
        if a == 0:
            return False
        if A.conj is not None:
            return False
        if A.nonneg:
            continue
        if isinstance(e, int) and e % 2 == 0:
            continue
        return False
    return True


def syn_nonneg(p):
    return all(c > 0 for c in p.values()) and all(mono_nonneg(m) for m in p)


def _apoly(a, e=1):
    return {((a.id, e),): 1}


def const_root(c, e):
    """positive rational c to the rational power e -> poly"""
    c = Fr(c)
    e = Fr(e)
    if e.denominator == 1:
        return {ONE_M: norm(c ** int(e))}
    q = e.denominator
    r = _iroot(c, q)
    if r is not None:
        return {ONE_M: norm(Fr(r) ** e.numerator)}
    if ctx() is not None and ctx().run.o.get('float_roots'):
        return {ONE_M: Fr(repr(float(c) ** float(e)))}
    a = new_atom('const', 'c%s' % (c,), key=('const', c), pos=True, data=c)
    f = math.floor(e)
    k = c ** f
    return {((a.id, norm(e - f)),): norm(k)}


def _iroot(c, q):
    n = round(c.numerator ** (1.0 / q)) if c.numerator < 10 ** 300 else 0
    d = round(c.denominator ** (1.0 / q)) if c.denominator < 10 ** 300 else 0
    if n and d and n ** q == c.numerator and d ** q == c.denominator:
        return Fr(n, d)
    return None


def ssqrt(x):
    if type(x) is float:
        return math.sqrt(x) if x >= 0 else math.nan
    return _rpow(x, Fr(1, 2))


def _rpow(x, e, known=False):
    """x ** e for rational non-integer e (principal value, real x >= 0)"""
    if not x.p:
        if e > 0:
            return ZERO
        return math.inf
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c > 0:
            rest = []
            out = const_root(c, e)
            ok = True
            for a, ee in m:
                A = ATOMS[a]
                if A.pos or (A.nonneg and e > 0):
                    pass
                elif A.conj is None and isinstance(ee, int) and ee % 2 == 0 and a:
                    # (v^2k)^e = |v|^(2k e)
                    ab = sabs(Sym({((a, 1),): 1}))
                    q = spow(ab, lift(norm(Fr(ee) * e)))
                    out = pmul(out, q.p)
                    continue
                else:
                    ok = False
                    break
                ne = norm(Fr(ee) * e)
                if A.kind == 'sqrt':
                    k, mm, ex = _red({a: ee})
                    ok = False
                    break
                out = pmul(out, {((a, ne),): 1})
            if ok:
                return Sym(out)
        elif x.is_const():   # negative constant: numpy gives nan for reals
            return math.nan
    if e == Fr(1, 2) or e == Fr(-1, 2):
        if not x.isreal():
            raise Unsupported('sqrt of complex')
        # common monomial content:  sqrt(a^2k q) = |a|^k sqrt(q)
        com = None
        for m in x.p:
            d = {a: ee for a, ee in m if isinstance(ee, int) and a and ATOMS[a].conj is None and ATOMS[a].kind != 'unit'}
            com = d if com is None else {a: min(ee, d[a], key=abs) for a, ee in com.items() if a in d and (ee > 0) == (d[a] > 0)}
            if not com:
                break
        com = {a: int(ee / 2) * 2 for a, ee in (com or {}).items() if abs(ee) >= 2}
        if com and len(x.p) > 1:
            out = ONE
            q = x
            for a, ee in com.items():
                out = out * sabs(Sym({((a, 1),): 1})) ** (ee // 2)
                q = Sym(_divm(q.p, a, ee))
            r = out * _rpow(q, Fr(1, 2), known)
            return r if e > 0 else sdiv(ONE, r)
        # factor rational content
        l = lead(x.p)
        c = x.p[l]
        if len(x.p) > 1 and c < 0:
            c = -c
        q = pscale(x.p, Fr(1) / Fr(abs(c)))
        a = new_atom('sqrt', 'sqrt', key=near_atom('sqrt', [q]), nonneg=True, data=q)
        if ctx() is not None and not known and not syn_nonneg(q):
            ctx().note_nonneg(Sym(q))
        r = pmul(const_root(abs(c), Fr(1, 2)), _apoly(a))
        if e < 0:
            return sdiv(ONE, Sym(r))
        return Sym(r)
    if e.denominator == 2:
        return _rpow(x, Fr(1, 2)) ** e.numerator
    # general real power: uf
    a = uf('rpow_%s' % e, x, pos=False)
    a2 = ATOMS[next(iter(a.p))[0][0]]
    a2.nonneg = True
    return a


def _divm(p, a, e):
    """p / a^e where a^e divides every monomial"""
    out = {}
    for m, c in p.items():
        mm = tuple((b, (ee - e if b == a else ee)) for b, ee in m)
        mm = tuple(x for x in mm if x[1])
        out[mm] = out.get(mm, 0) + c
    return out


def spow(b, e):
    if e.is_const():
        n = e.const()
        if type(n) is int:
            if n >= 0:
                if n > 1 and len(b.p) > 1 and n > 12:
                    raise Unsupported('large power of a sum')
                return Sym(ppow(b.p, n))
            if not b.p:
                return math.inf
            return sdiv(ONE, Sym(ppow(b.p, -n)))
        if b.is_const() and b.const() > 0:
            return Sym(const_root(b.const(), Fr(n)))
        return _rpow(b, Fr(n))
    if b.is_const():
        c = b.const()
        if c > 0:
            return _powbase(norm(c), e)
    raise Unsupported('symbolic exponent')


def _powbase(base, x):
    """base ** x for constant base ('e' or positive rational), split per monomial"""
    out = {ONE_M: 1}
    for m, c in x.p.items():
        if m == ONE_M:
            if base == 'e':
                out = pmul(out, {ONE_M: mp2fr_rel(mpmath.exp(fr2mp(c)))})
            else:
                out = pmul(out, const_root(base, c))
            continue
        if m[0][0] == 0 and base == 'e':
            # exp(I * c * mono)
            out = pmul(out, _expi(m[1:], c))
            continue
        if any(ATOMS[a].conj is not None or a == 0 for a, e in m):
            raise Unsupported('exp of complex monomial')
        if len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.kind == 'uf' and A.data[0] == ('log' if base == 'e' else 'log10') and base in ('e', 10):
                # b ** (c * log_b(y)) = y ** c   (y > 0 is assumed by the logarithm)
                y = A.data[1]
                if type(norm(c)) is int:
                    out = pmul(out, spow(y, lift(norm(c))).p)
                else:
                    out = pmul(out, _rpow(y, Fr(c)).p)
                continue
        a = new_atom('pow', '%s^%s' % (base, pstr({m: 1})), key=('pow', base, m), pos=True, data=(base, m))
        out = pmul(out, {((a.id, norm(c)),): 1})
    return Sym(out)


def mp2fr_rel(x):
    """40 significant digits"""
    if x == 0:
        return 0
    ex = int(mpmath.floor(mpmath.log10(abs(x))))
    sh = 40 - ex
    n = int(mpmath.nint(x * mpmath.mpf(10) ** sh))
    return norm(Fr(n) / Fr(10) ** sh)


def _expi(m, c):
    """exp(I*c*m), m a real monomial"""
    if m == ONE_M:
        z = mpmath.expj(fr2mp(c))
        p = {}
        if z.real:
            p[ONE_M] = mp2fr(z.real)
        if z.imag:
            p[I_M] = mp2fr(z.imag)
        return p
    if len(m) == 1 and m[0][1] == 1:
        A = ATOMS[m[0][0]]
        if A.kind == 'uf' and A.data[0] == 'angle':
            if type(norm(c)) is int:
                return ppow(A.data[1].p, int(c)) if c >= 0 else ppow(pconj(A.data[1].p), -int(c))
    a = new_atom('unit', 'expi(%s)' % pstr({m: 1}), key=('expi', m), data=('expi', m))
    a.conj = 'inv'
    return {((a.id, norm(c)),): 1}


def sexp(x):
    if type(x) is float:
        return math.exp(x) if x == x and x < 700 else (0.0 if x == -math.inf else x)
    # complex: exp of angle atoms with PI multiples handled by caller
    return _powbase('e', x)


def scos(x):
    if x.is_const():
        return lift(mp2fr(mpmath.cos(fr2mp(x.const()))))
    e = sexp(IMAG * x)
    return (e + e.conjugate()) / 2


def ssin(x):
    if x.is_const():
        return lift(mp2fr(mpmath.sin(fr2mp(x.const()))))
    e = sexp(IMAG * x)
    return (e - e.conjugate()) / (2 * IMAG)


def stanh(x):
    if x.is_const():
        return lift(mp2fr(mpmath.tanh(fr2mp(x.const()))))
    e = sexp(x * 2)
    return (e - 1) / (e + 1)


def _logmono(base, x):
    """log_base of a positive monomial"""
    if len(x.p) != 1:
        return None
    (m, c), = x.p.items()
    if c <= 0:
        return None
    out = ZERO
    if c != 1:
        if base == '10':
            k = _log10_exact(c)
            out = lift(k) if k is not None else lift(mp2fr(mpmath.log10(fr2mp(c))))
        else:
            out = lift(mp2fr(mpmath.log(fr2mp(c))))
    for a, e in m:
        A = ATOMS[a]
        if A.kind == 'pow' and ((base == 'e' and A.data[0] == 'e') or (base == '10' and A.data[0] == 10)):
            out = out + Sym({A.data[1]: e})
        elif A.kind == 'const':
            f = mpmath.log10 if base == '10' else mpmath.log
            k = _log10_exact(A.data) if base == '10' else None
            out = out + (lift(k) * norm(e) if k is not None else lift(mp2fr(f(fr2mp(A.data)) * fr2mp(e))))
        elif A.kind == 'inv' and pkey(A.data) in _ABSSQ:
            b = ATOMS[_ABSSQ[pkey(A.data)]]
            out = out - lift(2 * e) * uf('log10' if base == '10' else 'log', Sym({((b.id, 1),): 1}))
        elif A.pos or (A.nonneg and A.conj is None):
            out = out + lift(e) * uf('log10' if base == '10' else 'log', Sym({((a, 1),): 1}))
        elif A.kind == 'unit' or a == 0:
            return None
        else:
            return None
    return out


def _log10_exact(c):
    c = Fr(c)
    n, d = c.numerator, c.denominator
    for v, s in ((n, 1), (d, -1)):
        pass
    k = 0
    while n % 10 == 0:
        n //= 10
        k += 1
    while d % 10 == 0:
        d //= 10
        k -= 1
    return k if n == 1 and d == 1 else None


def slog10(x):
    if type(x) is float:
        return math.log10(x) if x > 0 else math.nan
    if not x.p:
        return -math.inf
    if x.is_const() and x.const() < 0:
        return math.nan
    if ctx() is not None and ctx().note_positive(x):
        return -math.inf
    r = _logmono('10', x)
    if r is not None:
        return r
    k = _decade(x)
    if k:
        return lift(k) + uf('log10', x * lift(Fr(10) ** -k))
    return uf('log10', x)


def _decade(x):
    """power of ten of the leading coefficient: equal arguments up to a power of ten share one logarithm"""
    c = x.p[max(x.p)]
    if not isinstance(c, (int, Fr)) or not c:
        return 0
    c, k = abs(Fr(c)), 0
    while c >= 10:
        c, k = c / 10, k + 1
    while c < 1:
        c, k = c * 10, k - 1
    return k


def slog(x):
    if type(x) is float:
        return math.log(x) if x > 0 else math.nan
    if not x.p:
        return -math.inf
    if x.is_const() and x.const() < 0:
        return math.nan
    if ctx() is not None and ctx().note_positive(x):
        return -math.inf
    r = _logmono('e', x)
    if r is not None:
        return r
    return uf('log', x)


def sabs(x):
    if type(x) is float:
        return abs(x)
    p = x.p
    if not p:
        return ZERO
    if x.is_const():
        return Sym({ONE_M: abs(p[ONE_M])})
    if len(p) == 1:
        (m, c), = p.items()
        out = {ONE_M: abs(c)}
        for a, e in m:
            A = ATOMS[a]
            if a == 0 or A.kind == 'unit':
                continue
            if A.conj is not None:
                out = pmul(out, const_pow_abs_cplx(a, e))
                continue
            if A.nonneg or A.kind in ('pow', 'const'):
                out = pmul(out, {((a, e),): 1})
            elif A.kind == 'inv':
                out = pmul(out, ppow(pinv(sabs(Sym(A.data)).p), int(e)))
            elif isinstance(e, int) and e % 2 == 0:
                out = pmul(out, {((a, e),): 1})
            else:
                out = pmul(out, ppow(_absreal({((a, 1),): 1}).p, int(e)))
        return Sym(out)
    if x.isreal():
        if syn_nonneg(p):
            return x
        inv = {}
        for m in p:
            for a, e in m:
                if ATOMS[a].kind == 'inv' and e > inv.get(a, 0):
                    inv[a] = e
        if inv:
            # |numerator| / |denominators|
            q = p
            for a, e in inv.items():
                q = _clear1(q, a, e)
            out = sabs(Sym(q)).p
            for a, e in inv.items():
                out = pmul(out, ppow(pinv(sabs(Sym(ATOMS[a].data)).p), int(e)))
            return Sym(out)
        # pull out a common structure: |x| canonical up to sign
        return _absreal(p)
    n2 = Sym(pmul(p, pconj(p)))
    return _rpow(n2, Fr(1, 2), known=True)


def _clear1(p, inv, top):
    """p times (denominator of the inverse atom) ** top"""
    out = {}
    S = ATOMS[inv].data
    for m, c in p.items():
        k = 0
        rest = []
        for a, e in m:
            if a == inv:
                k = e
            else:
                rest.append((a, e))
        out = padd(out, pscale(pmul({tuple(rest): 1}, ppow(S, int(top - k))), c))
    return out


def const_pow_abs_cplx(a, e):
    A = ATOMS[a]
    b = min(a, A.conj)
    bb = ATOMS[b]
    z = {((b, 1),): 1}
    n2 = pmul(z, pconj(z))
    s = new_atom('sqrt', '|%s|' % bb.name, key=near_atom('sqrt', [n2]), nonneg=True, data=n2)
    if isinstance(e, int):
        return ppow({((s.id, 1),): 1}, e) if e >= 0 else ppow(pinv({((s.id, 1),): 1}), -e)
    raise Unsupported('abs')


def _absreal(p):
    l = lead(p)
    c = p[l]
    k = abs(c)
    q = pscale(p, Fr(1) / Fr(c))
    q2 = pmul(q, q)
    a = new_atom('sqrt', '|%s|' % pstr(q, 3), key=near_atom('abs', [q]), nonneg=True, data=q2)
    if a.data is q2:
        _ABSARG[a.id] = q
        _ABSSQ[pkey(q2)] = a.id
    return Sym({((a.id, 1),): k})


_ABSARG = {}
_ABSSQ = {}


def sangle(x):
    """argument of a complex number"""
    if type(x) is float:
        return x
    p = x.p
    if not p:
        return ZERO
    if x.is_num():
        re, im = fr2mp(p.get(ONE_M, 0)), fr2mp(p.get(I_M, 0))
        if im == 0:
            return ZERO if re > 0 else lift(PI)
        return uf_angle(Sym(pmul(p, pinv(sabs(x).p))))
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(ATOMS[a].nonneg and a for a, e in m):
            return ZERO
        u = {ONE_M: 1 if c > 0 else -1}
        ok = True
        for a, e in m:
            A = ATOMS[a]
            if a == 0:
                u = pmul(u, {I_M: 1})
            elif A.nonneg:
                pass
            elif A.kind == 'unit':
                u = pmul(u, {((a, e),): 1})
            else:
                ok = False
        if ok:
            return uf_angle(Sym(u))
    if x.isreal():
        return ite(x < 0, lift(PI), ZERO)
    ab = sabs(x)
    return uf_angle(sdiv(x, ab))


def uf_angle(u):
    a = new_atom('uf', 'arg(%s)' % pstr(u.p, 3), key=('uf', 'angle', u.key()), data=('angle', u))
    return Sym(_apoly(a))


def uf(name, *args, **kw):
    """real-valued uninterpreted function application"""
    args = tuple(lift(a) for a in args)
    key = near_atom(('uf', name), [x.p for x in args])
    a = new_atom('uf', '%s(%s)' % (name, ','.join(pstr(x.p, 3) for x in args)), key=key,
                 pos=kw.get('pos', False), nonneg=kw.get('nonneg', False), data=(name,) + args)
    return Sym(_apoly(a))


def bessel(n, x):
    """J_n(x), integer n"""
    x = lift(x)
    n = lift(n)
    if not n.is_const() or type(n.const()) is not int:
        raise Unsupported('Bessel order')
    n = n.const()
    s = 1
    if n < 0:
        n = -n
        s *= -1 if n % 2 else 1
    if not x.p:
        return ONE if n == 0 else ZERO
    l = lead(x.p)
    if x.p[l] < 0:
        x = -x
        s *= -1 if n % 2 else 1
    r = uf('J%d' % n, x)
    return r if s == 1 else -r


def sfloor(x):
    if type(x) is float:
        return x
    if x.is_const():
        return lift(math.floor(Fr(x.const())))
    c = ctx()
    if c is not None and c.run.o.get('fork_floor'):
        return lift(pick_floor(x))
    a = new_atom('rnd', 'floor(%s)' % pstr(x.p, 3), key=('floor', x.key()), data=('floor', x, 0))
    return Sym(_apoly(a))


def pick_floor(x):
    """the integer floor(x), decided by path forking"""
    if x.is_const():
        return math.floor(Fr(x.const()))
    for j in range(40):
        k = (j + 1) // 2 if j % 2 else -(j // 2)
        if bool((x >= k) & (x < k + 1)):
            return k
    raise Unsupported('integer part of an unbounded symbolic value')


def strunc(x):
    if x.is_const():
        return lift(math.trunc(Fr(x.const())))
    return ite(x >= 0, sfloor(x), -sfloor(-x))


def sround(x, n):
    if type(x) is float:
        return x
    n = int(n)
    if x.is_const():
        q = Fr(10) ** n
        return lift(norm(Fr(round(Fr(x.const()) * q)) / q))
    if x.is_num():
        return sround(x.real, n) + IMAG * sround(x.imag, n)
    if not x.isreal():
        return sround(x.real, n) + IMAG * sround(x.imag, n)
    # canonical sign: round(-x) = -round(x)
    l = lead(x.p)
    if x.p[l] < 0:
        return -sround(-x, n)
    a = new_atom('rnd', 'round%d(%s)' % (n, pstr(x.p, 3)), key=('round', n, x.key()), data=('round', x, n))
    return Sym(_apoly(a))


# --------------------------------------------------------------------------
# booleans

class SymBool(object):
    __slots__ = ('const', 'op', 'args')
    # const: True/False or None; op in ('<','<=','==','and','or','not','nz')

    def __init__(self, const=None, op=None, args=()):
        self.const = const
        self.op = op
        self.args = args

    def __bool__(self):
        if self.const is not None:
            return self.const
        c = ctx()
        if c is None:
            raise Unsupported('branch outside a run')
        return c.branch(self)

    def __and__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        if self.const is False or o.const is True:
            return self
        if o.const is False or self.const is True:
            return o
        return SymBool(None, 'and', (self, o))

    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if o is NotImplemented:
            return o
        if self.const is True or o.const is False:
            return self
        if o.const is True or self.const is False:
            return o
        return SymBool(None, 'or', (self, o))

    __ror__ = __or__

    def __invert__(self):
        if self.const is not None:
            return TRUE if not self.const else FALSE
        if self.op == 'not':
            return self.args[0]
        return SymBool(None, 'not', (self,))

    def logical_not(self):
        return ~self

    def __xor__(self, o):
        o = as_bool(o)
        return (self & ~o) | (~self & o)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return ~(self ^ as_bool(o))
        return scmp('==', lift(self), o)

    def __ne__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return self ^ as_bool(o)
        return scmp('!=', lift(self), o)

    __hash__ = None

    def _num(self):
        return lift(self)

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        return lift(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return lift(o) - lift(self)

    def __lt__(self, o):
        return lift(self) < o

    def __gt__(self, o):
        return lift(self) > o

    def __le__(self, o):
        return lift(self) <= o

    def __ge__(self, o):
        return lift(self) >= o

    def __truediv__(self, o):
        return lift(self) / o

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def all(self, *a, **k):
        return self

    any = all
    item = all
    copy = all
    shape = ()
    ndim = 0

    def __format__(self, spec):
        return 'symbool'

    def __repr__(self):
        if self.const is not None:
            return 'SymBool(%s)' % self.const
        return 'SymBool(%s %s)' % (self.op, ' , '.join(repr(a) for a in self.args))


TRUE = SymBool(True)
FALSE = SymBool(False)


def as_bool(x):
    if type(x) is SymBool:
        return x
    if isinstance(x, (bool, _np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, Sym):
        return x != 0
    if isinstance(x, _np.ndarray):
        if x.ndim == 0:
            return as_bool(x.item())
        return NotImplemented
    if isinstance(x, (int, float, _np.number)):
        return TRUE if x else FALSE
    return NotImplemented


def _ivmul(a, b):
    """product of two intervals (None: unbounded)"""
    (l, h), (x, y) = a, b
    if None not in (l, h, x, y):
        v = (l * x, l * y, h * x, h * y)
        return min(v), max(v)
    if l is not None and l >= 0 and x is not None and x >= 0:
        return l * x, (None if h is None or y is None else h * y)
    return None, None


def _ivpow(b, e):
    x, y = b
    if e == 1:
        return b
    if type(e) is not int:
        return (0, None) if x is not None and x >= 0 and e > 0 else (None, None)
    if x is not None and x >= 0:
        if e > 0:
            return x ** e, None if y is None else y ** e
        return (0 if y is None or y == 0 else y ** e), (None if x == 0 else x ** e)
    if e > 0:
        if e % 2 == 0:
            if x is None or y is None:
                return (0 if y is None or y >= 0 else y ** e), None
            return (0 if y >= 0 else y ** e), max(x ** e, y ** e)
        return (None if x is None else x ** e), (None if y is None else y ** e)
    return None, None


def _isqrt(v, up):
    """rational bound of a square root from below (above)"""
    if v is None:
        return None
    v = Fr(v)
    if v <= 0:
        return Fr(0)
    K = 10 ** 24
    r = math.isqrt(v.numerator * K * K // v.denominator)
    return Fr(r + (1 if up else 0), K)


def _ivatom(A, depth):
    d = ctx().run.domains.get(A.data) if A.kind == 'var' else None
    if d is not None:
        x = None if d['lo'] is None else Fr(num(d['lo']))
        y = None if d['hi'] is None else Fr(num(d['hi']))
        return (0 if A.nonneg and x is None else x), y
    if A.kind == 'sqrt' and depth < 3 and isinstance(A.data, dict) and allreal_atoms(A.data):
        q = A.data
        if is_real_poly(q):
            lo, hi = interval(q, depth + 1)
            return _isqrt(lo, False) if lo is not None else 0, _isqrt(hi, True)
    return (0, None) if A.nonneg else (None, None)


def interval(p, depth=0):
    """bounds of a real polynomial from the declared ranges of its input variables (None: unbounded)"""
    if ctx() is None or len(p) > 8:
        return None, None
    lo = hi = 0
    for m, c in p.items():
        b = (1, 1)
        for a, e in m:
            b = _ivmul(b, _ivpow(_ivatom(ATOMS[a], depth), e)) if b != (1, 1) else _ivpow(_ivatom(ATOMS[a], depth), e)
            if b == (None, None):
                return None, None
        l, h = b
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
        if lo is None and hi is None:
            return None, None
    return lo, hi


def strip_pos(d):
    """divide by a monomial of positive atoms common to all terms (keeps the sign and the zeros)"""
    p = d.p
    if len(p) < 2:
        return d
    it = iter(p)
    com = {a: e for a, e in next(it) if ATOMS[a].pos}
    for m in it:
        if not com:
            return d
        mm = dict(m)
        com = {a: (min(e, mm[a]) if (e > 0) == (mm[a] > 0) and e > 0 else max(e, mm[a])) for a, e in com.items()
               if a in mm and (e > 0) == (mm[a] > 0)}
    com = {a: e for a, e in com.items() if e}
    if not com:
        return d
    q = {}
    for m, k in p.items():
        nm = tuple((a, norm(Fr(e) - Fr(com[a])) if a in com else e) for a, e in m)
        q[tuple(x for x in nm if x[1])] = k
    return Sym(q)


def clear_signed(d):
    """multiply by composite denominators whose sign is known (keeps the sign of the expression)"""
    p = d.p
    for _ in range(6):
        inv = {a for m in p for a, e in m if ATOMS[a].kind == 'inv'}
        if not inv or len(p) > 40:
            break
        hit = None
        for a in sorted(inv, reverse=True):
            S = ATOMS[a].data
            if len(S) > 24 or not allreal_atoms(S):
                continue
            lo, hi = interval(S)
            if lo is not None and lo > 0:
                hit = (a, S, 1)
            elif hi is not None and hi < 0:
                hit = (a, pscale(S, -1), -1)
            if hit:
                break
        if not hit:
            break
        a, S, sg = hit
        top, byk = 0, {}
        for m, c in p.items():
            k = 0
            rest = []
            for x, e in m:
                if x == a:
                    k = e
                else:
                    rest.append((x, e))
            byk.setdefault(k, {})[tuple(rest)] = c if sg > 0 or k % 2 == 0 else -c
            top = max(top, k)
        if top > 4 or any(k < 0 for k in byk):
            break
        out, pw = {}, {ONE_M: 1}
        for k in range(top, -1, -1):
            if k in byk:
                out = padd(out, pmul(byk[k], pw))
            pw = pmul(pw, S)
        if len(out) > 200:
            break
        p = out
    return d if p is d.p else strip_pos(Sym(p))


def scmp(op, a, b):
    if isinstance(b, _np.ndarray) and b.ndim:
        return NotImplemented
    if b is None or isinstance(b, str):
        if op == '==':
            return FALSE
        if op == '!=':
            return TRUE
        raise TypeError
    try:
        b = lift(b)
    except TypeError:
        if op == '==':
            return FALSE
        if op == '!=':
            return TRUE
        raise
    a = lift(a)
    if type(a) is float or type(b) is float:
        if type(a) is float and type(b) is float:
            r = {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            return TRUE if r else FALSE
        # Sym vs special
        s = a if type(a) is float else b
        if s != s:
            return TRUE if op == '!=' else FALSE
        big = s if type(b) is float else -s   # a finite: compare a ? inf
        if op == '==':
            return FALSE
        if op == '!=':
            return TRUE
        if op in ('<', '<='):
            return TRUE if big > 0 else FALSE
        return TRUE if big < 0 else FALSE
    if op == '>':
        return scmp('<', b, a)
    if op == '>=':
        return scmp('<=', b, a)
    if op == '!=':
        return ~scmp('==', a, b)
    d = a - b
    if d.is_num():
        if op == '==':
            return TRUE if not d.p else FALSE
        if not d.is_const():
            raise TypeError('ordering of complex numbers')
        c = d.const()
        return TRUE if (c < 0 if op == '<' else c <= 0) else FALSE
    d = strip_pos(d)
    if op == '==':
        if is_nonzero(d.p):
            return FALSE
        if len(d.p) <= 8 and allreal_atoms(d.p):
            for q in (preal(d.p), pimag(d.p)):
                lo, hi = interval(q)
                eps = max([abs(k) for k in q.values()] or [0]) * Fr(1, 10 ** 9)
                if (lo is not None and lo > eps) or (hi is not None and hi < -eps):
                    return FALSE
        return SymBool(None, '==', (d,))
    if not d.isreal():
        raise TypeError('ordering of complex numbers')
    if len(d.p) > 1:
        d = clear_signed(d)
    if syn_nonneg(d.p):
        if op == '<':
            return FALSE
        if is_nonzero(d.p):
            return FALSE
    n = (-d).p
    if syn_nonneg(n):
        if op == '<=':
            return TRUE
        if is_nonzero(n):
            return TRUE
    lo, hi = interval(d.p)
    if lo is not None and (lo > 0 or (lo == 0 and op == '<')):
        return FALSE
    if hi is not None and (hi < 0 or (hi == 0 and op == '<=')):
        return TRUE
    return SymBool(None, op, (near_poly(d),))


def near_poly(d):
    """an earlier polynomial that is a positive multiple of this one (coefficients agree to 1e-12)"""
    if len(d.p) < 2:
        return d
    p = d.p
    l = _NEAR.setdefault(('cmp', frozenset(p)), [])
    m0 = min(p)
    for o in l:
        r = Fr(p[m0]) / Fr(o.p[m0])
        if r > 0 and all(abs(v - r * o.p[m]) <= NEAR * abs(v) for m, v in p.items()):
            return o
    l.append(d)
    return d


def ite(c, a, b):
    """if c then a else b on scalars (numbers, Syms or booleans)"""
    c = as_bool(c)
    if c.const is not None:
        return a if c.const else b
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        a, b = as_bool(a), as_bool(b)
        if a is b:
            return a
        return (c & a) | (~c & b)
    a, b = lift(a), lift(b)
    if type(a) is float or type(b) is float:
        if type(a) is float and type(b) is float and (a == b or (a != a and b != b)):
            return a
        return a if bool(c) else b       # fork
    if a.key() == b.key():
        return a
    if not (a.isreal() and b.isreal()):
        return ite(c, a.real, b.real) + IMAG * ite(c, a.imag, b.imag)
    at = new_atom('ite', 'ite', key=('ite', bkey(c), a.key(), b.key()), data=(c, a, b),
                  nonneg=syn_nonneg(a.p) and syn_nonneg(b.p),
                  pos=(syn_nonneg(a.p) and syn_nonneg(b.p) and is_nonzero(a.p) and is_nonzero(b.p)))
    return Sym(_apoly(at))


def bkey(c):
    if c.const is not None:
        return c.const
    return (c.op,) + tuple(bkey(x) if isinstance(x, SymBool) else x.key() for x in c.args)


def smax(a, b):
    a, b = lift(a), lift(b)
    if type(a) is float and a != a:
        return a
    if type(b) is float and b != b:
        return b
    if ctx() is not None and ctx().run.o.get('fork_minmax'):
        return b if bool(scmp('<', a, b)) else a
    return ite(scmp('<', a, b), b, a)


def smin(a, b):
    a, b = lift(a), lift(b)
    if type(a) is float and a != a:
        return a
    if type(b) is float and b != b:
        return b
    if ctx() is not None and ctx().run.o.get('fork_minmax'):
        return b if bool(scmp('<', b, a)) else a
    return ite(scmp('<', b, a), b, a)
