"""Translation of symbolic values to z3 and the decision pipeline."""
import math
import time
from fractions import Fraction as Fr
import z3
from . import core
from .core import ATOMS, Sym, SymBool, ONE_M, I_M, pmul, ppow, pconj, padd, norm, preal, pimag, is_real_poly, mono_nonneg, atom_nonzero


def q(c):
    c = Fr(c)
    if c.denominator == 1:
        return z3.RealVal(c.numerator)
    return z3.Q(c.numerator, c.denominator)


class Tr(object):
    """one translation session; mode 'lin' abstracts non-linear monomials, 'nl' is exact"""

    def __init__(self, mode, den=None):
        self.mode = mode
        self.mono = {}
        self.atom = {}
        self.side = []          # side constraints (z3)
        self.bmemo = {}
        self.imemo = {}
        self.den = den or {}
        self.funcs = {}
        self.has_uf = False
        self.has_int = False
        self.exps = {}

    # ---- booleans
    def b(self, x):
        if x.const is not None:
            return z3.BoolVal(x.const)
        k = core.bkey(x)
        r = self.bmemo.get(k)
        if r is None:
            r = self._b(x)
            self.bmemo[k] = r
        return r

    def _b(self, x):
        if x.op == 'and':
            return z3.And(*[self.b(a) for a in x.args])
        if x.op == 'or':
            return z3.Or(*[self.b(a) for a in x.args])
        if x.op == 'not':
            return z3.Not(self.b(x.args[0]))
        if x.op == 'bvar':
            return z3.Bool(x.args[0])
        d = x.args[0]
        if x.op == '==':
            if d.isreal():
                return self.r(d.p) == 0
            return self.zero(d.p)
        e = self.r(d.p)
        return e < 0 if x.op == '<' else e <= 0

    def zero(self, p):
        """complex polynomial equals zero"""
        if is_real_poly(p):
            return self.r(p) == 0
        if core.allreal_atoms(p):
            return z3.And(self.r(preal(p)) == 0, self.r(pimag(p)) == 0)
        if self.mode == 'lin':
            # formal: unit / complex atoms as independent symbols, split by the power of I
            a = {m: c for m, c in p.items() if not (m and m[0][0] == 0)}
            b = {m[1:]: c for m, c in p.items() if m and m[0][0] == 0}
            # formal zero implies zero (not conversely: unit factors mix the parts)
            v = z3.Bool('z%d' % len(self.side))
            self.side.append(z3.Implies(z3.And(self.lin(a) == 0, self.lin(b) == 0), v))
            return v
        return z3.And(self.r(preal(p)) == 0, self.r(pimag(p)) == 0)

    # ---- reals
    def r(self, p):
        if self.mode == 'lin':
            return self.lin(p)
        return self.nl(p)

    def lin(self, p):
        p = self._nolead_i(p)
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            if m == ONE_M:
                ts.append(q(c))
                continue
            v = self.lin_mono(m)
            ts.append(v if c == 1 else q(c) * v)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def _nolead_i(self, p):
        return p

    def lin_mono(self, m):
        r = self.mono.get(m)
        if r is not None:
            return r
        # expand an if-then-else factor
        for i, (a, e) in enumerate(m):
            A = ATOMS[a]
            if A.kind == 'ite' and (len(m) == 1 or (isinstance(e, int) and e > 0)) and isinstance(e, int):
                c, x, y = A.data
                rest = {m[:i] + m[i + 1:]: 1}
                if e > 0:
                    px, py = ppow(x.p, e), ppow(y.p, e)
                    r = z3.If(self.b(c), self.lin(pmul(px, rest)), self.lin(pmul(py, rest)))
                    self.mono[m] = r
                    return r
        if len(m) == 1 and m[0][1] == 1:
            r = self.atomvar(m[0][0])
        else:
            r = z3.Real('m%d' % len(self.mono))
            if mono_nonneg(m):
                nz = all(atom_nonzero(ATOMS[a]) for a, e in m)
                self.side.append(r > 0 if nz else r >= 0)
        self.mono[m] = r
        return r

    def atomvar(self, a):
        r = self.atom.get(a)
        if r is not None:
            return r
        A = ATOMS[a]
        r = z3.Real('a%d' % a)
        self.atom[a] = r
        if A.pos:
            self.side.append(r > 0)
        elif A.nonneg:
            self.side.append(r >= 0)
        if A.kind == 'rnd':
            self._rnd(A, r, self.r(A.data[1].p))
        if A.kind == 'pow':
            self._powrange(A, r, 1)
        if a in core._ABSARG:
            x = self.lin(core._ABSARG[a])
            self.side.append(z3.Or(r == x, r == -x))
        return r

    def _powrange(self, A, r, d):
        """base**x lies between base**lo and base**hi when x has a declared range"""
        base, m = A.data
        if len(m) != 1 or m[0][1] != 1 or core.CTX[0] is None:
            return
        dom = core.CTX[0].run.domains.get(ATOMS[m[0][0]].data) if ATOMS[m[0][0]].kind == 'var' else None
        if not dom:
            return
        B = core.mpmath.e if base == 'e' else core.fr2mp(base)
        for k, up in (('lo', False), ('hi', True)):
            if dom[k] is None:
                continue
            v = Fr(core.mp2fr_rel(B ** (core.fr2mp(core.num(dom[k])) / d)))
            self.side.append(r <= q(v * Fr(10001, 10000)) if up else r >= q(v * Fr(9999, 10000)))

    def _rnd(self, A, r, x):
        k = z3.Int('k%d' % A.id)
        self.has_int = True
        if A.data[0] == 'floor':
            self.side += [r == z3.ToReal(k), r <= x, x < r + 1]
        elif A.data[0] == 'round':
            n = A.data[2]
            s = Fr(10) ** n
            self.side += [r * q(s) == z3.ToReal(k), r - x <= q(Fr(1, 2) / s), x - r <= q(Fr(1, 2) / s)]
        elif A.data[0] == 'print':
            h = q(A.data[2])
            self.side += [r - x <= h, x - r <= h]
        elif A.data[0] == 'printrel':
            h = q(A.data[2]) * z3.If(x < 0, -x, x)
            self.side += [r - x <= h, x - r <= h]

    # exact non-linear translation ------------------------------------------
    def nl(self, p):
        if not is_real_poly(p):
            raise core.Unsupported('complex value in a real context')
        if core.allreal_atoms(p):
            ts = [self._term(m, c) for m, c in p.items()]
            if not ts:
                return z3.RealVal(0)
            return ts[0] if len(ts) == 1 else z3.Sum(*ts)
        re, im = self.cnl(p)
        return re

    def _term(self, m, c):
        t = None if c == 1 and m else q(c)
        for a, e in m:
            f = self.power(a, e)
            t = f if t is None else t * f
        return t

    def cnl(self, p):
        """(re, im) of a polynomial with unit/complex atoms"""
        R, I = [], []
        for m, c in p.items():
            x, y = q(c), None
            for a, e in m:
                if a == 0:
                    x, y = (-y if y is not None else None), x
                    continue
                A = ATOMS[a]
                if A.conj is None:
                    f = self.power(a, e)
                    x = x * f if x is not None else None
                    y = y * f if y is not None else None
                else:
                    u, v = self.cpower(a, e)
                    nx, ny = [], []
                    if x is not None:
                        nx.append(x * u)
                        ny.append(x * v)
                    if y is not None:
                        nx.append(-y * v)
                        ny.append(y * u)
                    x = z3.Sum(*nx) if len(nx) > 1 else nx[0]
                    y = z3.Sum(*ny) if len(ny) > 1 else ny[0]
            if x is not None:
                R.append(x)
            if y is not None:
                I.append(y)
        f = lambda t: z3.RealVal(0) if not t else (t[0] if len(t) == 1 else z3.Sum(*t))
        return f(R), f(I)

    def cpower(self, a, e):
        A = ATOMS[a]
        key = ('c', a if A.conj == 'inv' else min(a, A.conj))
        r = self.atom.get(key)
        if r is None:
            r = (z3.Real('re%d' % key[1]), z3.Real('im%d' % key[1]))
            self.atom[key] = r
            if A.kind == 'unit':
                self.side.append(r[0] * r[0] + r[1] * r[1] == 1)
        x, y = r
        if A.kind == 'unit':
            if e < 0:
                y, e = -y, -e
            d = self.den.get(a, 1)
            e = e * d
            if not isinstance(norm(Fr(e)), int):
                raise core.Unsupported('fractional phase')
        else:
            if a != key[1]:
                y = -y
            if e < 0:
                raise core.Unsupported('inverse complex variable')
        u, v = z3.RealVal(1), z3.RealVal(0)
        for _ in range(int(e)):
            u, v = u * x - v * y, u * y + v * x
        return u, v

    def power(self, a, e):
        base = self.base(a)
        d = self.den.get(a, 1)
        k = Fr(e) * d
        if k.denominator != 1:
            raise core.Unsupported('exponent')
        k = int(k)
        if abs(k) > 64:
            # too large to unfold: an arbitrary positive number (sound for 'unsat')
            key = ('pw', a, k)
            if key not in self.atom:
                self.atom[key] = z3.Real('w%d_%s' % (a, str(k).replace('-', 'm')))
                if ATOMS[a].pos:
                    self.side.append(self.atom[key] > 0)
            return self.atom[key]
        if k >= 0:
            r = None
            for _ in range(k):
                r = base if r is None else r * base
            return r if r is not None else z3.RealVal(1)
        key = ('inv', a)
        iv = self.atom.get(key)
        if iv is None:
            iv = z3.Real('i%d' % a)
            self.atom[key] = iv
            self.side.append(iv * base == 1)
            if ATOMS[a].pos:
                self.side.append(iv > 0)
        r = None
        for _ in range(-k):
            r = iv if r is None else r * iv
        return r

    def base(self, a):
        """z3 term for atom^(1/den)"""
        r = self.atom.get(a)
        if r is not None:
            return r
        A = ATOMS[a]
        d = self.den.get(a, 1)
        if A.kind == 'ite':
            c, x, y = A.data
            r = z3.If(self.b(c), self.nl(x.p), self.nl(y.p))
            self.atom[a] = r
            return r
        if A.kind == 'uf' and A.data[0] not in ('angle',) and not A.data[0].startswith('hilb'):
            name = A.data[0]
            args = [self.nl(x.p) for x in A.data[1:] if x.isreal()]
            if len(args) == len(A.data) - 1 and args and d == 1:
                self.has_uf = True
                f = self.funcs.get((name, len(args)))
                if f is None:
                    f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
                    self.funcs[(name, len(args))] = f
                r = f(*args)
                self.atom[a] = r
                if A.pos:
                    self.side.append(r > 0)
                elif A.nonneg:
                    self.side.append(r >= 0)
                return r
        r = z3.Real('a%d' % a if d == 1 else 'a%d_%d' % (a, d))
        self.atom[a] = r
        if A.pos:
            self.side.append(r > 0)
        elif A.nonneg:
            self.side.append(r >= 0)
        if A.kind == 'sqrt':
            self.side.append(r * r == self.nl(A.data))
        elif A.kind == 'inv':
            self.side.append(r * self.nl(A.data) == 1)
        elif A.kind == 'pow':
            self._powrange(A, r, d)
        elif A.kind == 'const':
            t = r
            for _ in range(d - 1):
                t = t * r
            self.side.append(t == q(A.data))
        elif A.kind == 'rnd':
            self._rnd(A, r, self.nl(A.data[1].p))
        return r


def collect_den(bools, polys=()):
    """least common denominators of the exponents of every atom"""
    den = {}
    seenp, seenb = set(), set()

    def P(p):
        for m in p:
            for a, e in m:
                if isinstance(e, Fr) and e.denominator != 1:
                    den[a] = math.lcm(den.get(a, 1), e.denominator)
                if a and a not in seenp:
                    seenp.add(a)
                    A = ATOMS[a]
                    if A.kind in ('sqrt', 'inv'):
                        P(A.data)
                    elif A.kind == 'ite':
                        B(A.data[0])
                        P(A.data[1].p)
                        P(A.data[2].p)
                    elif A.kind == 'uf':
                        for x in A.data[1:]:
                            P(x.p)
                    elif A.kind == 'rnd':
                        P(A.data[1].p)

    def B(b):
        k = core.bkey(b)
        if k in seenb or b.const is not None:
            return
        seenb.add(k)
        for a in b.args:
            if isinstance(a, SymBool):
                B(a)
            elif isinstance(a, Sym):
                P(a.p)
    for b in bools:
        B(b)
    for p in polys:
        P(p)
    for a in list(den):
        if ATOMS[a].kind == 'const':
            pass
    return den


def clear_inv(p, limit=4000):
    """multiply by all composite denominators (they are non-zero); coefficients that cancel to 1e-12 of the sum of their
    contributions only stem from rounded constants and are dropped"""
    mag = {m: abs(c) for m, c in p.items()}
    p0 = p
    for _ in range(40):
        inv = None
        for m in p:
            for a, e in m:
                if ATOMS[a].kind == 'inv' and (inv is None or a > inv):
                    inv = a
        if inv is None:
            if p is p0:
                return p
            return {m: c for m, c in p.items() if abs(c) > core.NEAR * abs(mag.get(m, 0))}
        byk = {}
        magk = {}
        top = 0
        for m, c in p.items():
            k = 0
            rest = []
            for a, e in m:
                if a == inv:
                    k = e
                else:
                    rest.append((a, e))
            byk.setdefault(k, {})[tuple(rest)] = c
            magk.setdefault(k, {})[tuple(rest)] = mag.get(m, 0)
            top = max(top, k)
        S = ATOMS[inv].data
        T = {m: abs(c) for m, c in S.items()}
        out, mag = {}, {}
        pw, tw = {ONE_M: 1}, {ONE_M: 1}
        for k in range(top, -1, -1):
            if k in byk:
                out = padd(out, pmul(byk[k], pw))
                mag = padd(mag, pmul(magk[k], tw))
            pw = pmul(pw, S)
            tw = pmul(tw, T)
            if len(out) > limit or len(pw) > limit:
                return None
        p = out
    return None


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.cvc5 = 0


STATS = Stats()


def _check(s, timeout_ms):
    s.set('timeout', int(timeout_ms))
    t = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    k = str(r)
    if k == 'unsat':
        STATS.unsat += 1
    elif k == 'sat':
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return k


def solve(mode, hyps, goal_neg, timeout_ms, want_model=False, cross=False):
    """satisfiability of hyps and goal_neg (z3-level builder functions)"""
    den = collect_den(hyps + goal_neg) if mode == 'nl' else {}
    tr = Tr(mode, den)
    fs = [tr.b(h) for h in hyps] + [tr.b(g) for g in goal_neg]
    s = z3.Solver() if mode == 'lin' or tr.has_uf or tr.has_int else z3.Tactic('qfnra-nlsat').solver()
    if mode == 'nl' and not (tr.has_uf or tr.has_int):
        pass
    for f in fs:
        s.add(f)
    # side constraints may grow while translating, so add them last
    for f in tr.side:
        s.add(f)
    r = _check(s, timeout_ms)
    if r == 'unknown' and mode == 'nl':
        s2 = z3.SolverFor('QF_NRA') if not (tr.has_uf or tr.has_int) else z3.SimpleSolver()
        s2.add(s.assertions())
        r = _check(s2, timeout_ms)
        s = s2
    if cross and r == 'unsat':
        if cvc5_check(s) == 'sat':
            raise RuntimeError('solver disagreement: z3 unsat, cvc5 sat')
    if want_model and r == 'sat':
        return r, s.model(), tr
    return r, None, tr


def cvc5_check(s, timeout_ms=10000):
    try:
        import cvc5
    except ImportError:
        return 'absent'
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout_ms))
    slv.setLogic('ALL')
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.sexpr() + '\n(check-sat)\n', 'q')
    sm = p.getSymbolManager()
    out = ''
    try:
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out += c.invoke(slv, sm)
    except Exception:
        return 'error'
    STATS.cvc5 += 1
    return out.strip().splitlines()[-1] if out.strip() else 'unknown'


def z3num(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fr(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fr(v.as_long())
    return None
