"""Symbolic context, path exploration and the decision of obligations."""
import math
import random
import re
import sys
import time
import traceback
import numpy as _np
import z3
from fractions import Fraction as Fr
from .binding import as_called
from . import core, shim, solve, loader, concrete
from .core import (ATOMS, Sym, SymBool, lift, new_atom, scmp, as_bool, bkey, uf, Unsupported, ZERO, ONE, IMAG, ite, TRUE, FALSE,
                   padd, norm)
from .evalnum import Evaluator, EvalError, toarr
from .shim import NP, SymArray, sarr, raw, wrap, emap


class Infeasible(BaseException):
    pass


class OutOfBudget(BaseException):
    pass


class Inconclusive(BaseException):
    pass


class SRespFn(object):
    """arbitrary response function: idc, ikk and their derivatives are uninterpreted"""
    symbolic = True

    def __init__(self, c, name):
        self.c, self.name = c, name

    def _f(self, part, v):
        n = 'F:' + self.name + '.' + part
        return emap(lambda x: x if type(lift(x)) is float else uf(n, x), v, 'f')

    def idc(self, v):
        return self._f('idc', v)

    def ikk(self, v):
        return self._f('ikk', v)

    def didc(self, v):
        return self._f('didc', v)

    def dikk(self, v):
        return self._f('dikk', v)

    def resp(self, v):
        return self.ikk(v) + 1j * self.idc(v)

    def resp_conj(self, v):
        return self.ikk(v) - 1j * self.idc(v)

    def resp_swap(self, v):
        return self.idc(v) + 1j * self.ikk(v)

    __call__ = resp


class Obligation(object):
    __slots__ = ('label', 'goal', 'pair', 'npc', 'tol')

    def __init__(self, label, goal, npc, pair=None, tol=None):
        self.label, self.goal, self.npc, self.pair, self.tol = label, goal, npc, pair, tol


def scalars(x):
    """flat list of scalars + shape"""
    if isinstance(x, shim.MaskedSel):
        x = x._mat()
    if isinstance(x, _np.ndarray):
        return list(_np.asarray(raw(x) if isinstance(x, SymArray) else x, dtype=object).reshape(-1)), x.shape
    if isinstance(x, (list, tuple)):
        a = sarr(x)
        return list(raw(a).reshape(-1)), a.shape
    return [x], ()


class SymCtx(object):
    """one path through one harness"""
    symbolic = True
    np = NP
    nan = float('nan')

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.trace = []           # (kind, value, n)
        self.pend = []            # alternative prefixes
        self.pc = []              # list of (SymBool, why)
        self.known = {}
        self.token_consts = False
        self.div_mode = 'assume'
        self.spline_tags = run.interned
        self.opaque_calls = []
        self.eval_min_objective = False
        self.obls = []
        self.observed = {}
        self.nobs = {}
        self.nfresh = 0
        self.solver = None
        self.choices = {}
        self.patched = []
        self.loader = loader.Loader(run.repo)
        self.pi = lift(core.PI)
        self.tokens = run.tokens
        self.printed = 0

    # ---------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False):
        pos = pos or (lo is not None and lo > 0)
        nonneg = nonneg or (lo is not None and lo >= 0)
        a = new_atom('var', name, key=('var', name), pos=pos, nonneg=nonneg, data=name)
        self.run.domains[name] = dict(lo=lo, hi=hi, pos=pos, nonneg=nonneg, nonzero=nonzero)
        x = Sym({((a.id, 1),): 1})
        if lo is not None and lo != 0:
            self._fact(SymBool(None, '<=', (lift(lo) - x,)))
        if hi is not None:
            self._fact(SymBool(None, '<=', (x - lift(hi),)))
        if nonzero and not pos:
            self._fact(~SymBool(None, '==', (x,)))
        return x

    def _fact(self, b):
        if b.const is None:
            self._add(b, 'domain')

    def reals(self, name, shape, **kw):
        shape = (shape,) if isinstance(shape, int) else shape
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            out[i] = self.real('%s[%s]' % (name, ','.join(map(str, i))), **kw)
        return wrap(out, 'f')

    def cplx(self, name, **kw):
        return self.real(name + '.re', **kw) + IMAG * self.real(name + '.im', **kw)

    def unit(self, name):
        u = new_atom('unit', name, key=('unit', name), data=('in', name))
        u.conj = 'inv'
        self.run.units[name] = True
        return Sym({((u.id, 1),): 1})

    def polar(self, name, lo=None, hi=None):
        return self.real(name + '.r', lo=lo, hi=hi, pos=True) * self.unit(name + '.u')

    def choice(self, name, n):
        v = self._decide('choice:' + name, n)
        self.choices[name] = v
        return v

    def resp(self, name):
        return SRespFn(self, name)

    def fn(self, name, pos=False):
        def f(*a):
            if len(a) == 1:
                return emap(lambda x: uf('F:' + name, x, pos=pos), a[0], 'f')
            return uf('F:' + name, *a, pos=pos)
        return f

    def array(self, x, kind='f'):
        return shim.SymArray.__new__ and sarr(x, kind)

    def mod(self, name):
        return self.loader.load(name)

    def patch(self, module, attr, value):
        getattr(module, attr)
        setattr(module, attr, as_called(getattr(module, attr), value))

    def patch_if(self, module, attr, value):
        if hasattr(module, attr):
            self.patch(module, attr, value)

    def deriv(self, f, x):
        """derivative of a curve built from interpolating splines, at x"""
        y = f(x)
        xs, ys = scalars(x)[0], scalars(y)[0]
        out = []
        for u, v in zip(xs, ys):
            r = {}
            for m, k in lift(v).p.items():
                rest = [(a, e) for a, e in m if ATOMS[a].kind != 'uf']
                fs = [(a, e) for a, e in m if ATOMS[a].kind == 'uf']
                if any(ATOMS[a].kind not in ('I',) for a, e in rest) or len(fs) > 1 or (fs and fs[0][1] != 1):
                    raise Unsupported('derivative of a composite curve')
                if not fs:
                    continue
                A = ATOMS[fs[0][0]]
                n, q = A.data[0], A.data[1]
                if not n.startswith('spl') or q.key() != lift(u).key():
                    raise Unsupported('derivative of a composite curve')
                t, d = n[3:].split('_')
                r = padd(r, core.pmul((uf('spl%s_%d' % (t, int(d) + 1), q)).p, {tuple(rest): k}))
            out.append(Sym(r))
        if isinstance(y, _np.ndarray):
            return sarr(out).reshape(y.shape)
        return out[0]

    # engine services
    def fresh(self, name):
        self.nfresh += 1
        n = '%s#%d' % (name, self.nfresh)
        self.run.domains.setdefault(n, dict(lo=None, hi=None, pos=False, nonneg=False, nonzero=False))
        return Sym({((new_atom('var', n, key=('var', n), data=n).id, 1),): 1})

    def env_value(self, name, near=None):
        return self.fresh('env.' + name)

    def intern(self, key):
        return self.run.intern(key)

    def note_nonzero(self, b):
        """assume b != 0 (definedness); True when the path condition already forces b = 0"""
        k = ('nz', b.key())
        if k in self.known:
            return not self.known[k]
        c = scmp('!=', b, 0)
        z = False
        if c.const is None:
            kn = self.known.get(bkey(~c))
            if kn is not None:
                z = kn
            elif any(w in ('branch', 'assume') for _, w in self.pc):
                z = not self._feasible(c)
            if not z:
                self._add(c, 'defined')
        self.known[k] = not z
        return z

    def note_positive(self, x):
        """assume x > 0 (argument of a logarithm); True when the path forces x = 0"""
        c = scmp('>', x, 0)
        if c.const is not None or bkey(c) in self.known:
            return False
        if any(w in ('branch', 'assume') for _, w in self.pc) and not self._feasible(scmp('!=', x, 0)):
            return True
        self._add(c, 'defined')
        return False

    def note_nonneg(self, x):
        c = scmp('>=', x, 0)
        if c.const is None and bkey(c) not in self.known:
            self._add(c, 'defined')

    def format_token(self, x, spec):
        return self.run.tokens.format(self, x, spec)

    def parse_token(self, s):
        return self.run.tokens.parse(self, s)

    # ------------------------------------------------------------- branching
    def _add(self, b, why):
        self.pc.append((b, why))
        self.known[bkey(b)] = True
        if b.op == 'not':
            self.known[bkey(b.args[0])] = False
        if b.op == 'and' and why != 'x':
            for a in b.args:
                if a.const is None:
                    self.known[bkey(a)] = True

    def _decide(self, what, n):
        i = len(self.trace)
        if i < len(self.prefix):
            w, v, m = self.prefix[i]
            if w != what:
                raise RuntimeError('non-deterministic harness: %r vs %r' % (w, what))
            self.trace.append((w, v, m))
            return v
        for v in range(1, n):
            self.pend.append(self.trace + [(what, v, n)])
        self.trace.append((what, 0, n))
        return 0

    def branch(self, b):
        if b.const is not None:
            return b.const
        k = bkey(b)
        if k in self.known:
            return self.known[k]
        nk = bkey(~b)
        if nk in self.known:
            return not self.known[nk]
        i = len(self.trace)
        if i < len(self.prefix):
            w, v, m = self.prefix[i]
            if w != 'b':
                raise RuntimeError('non-deterministic harness')
            self.trace.append((w, v, m))
        else:
            if time.time() > self.run.deadline:
                raise OutOfBudget('time')
            t, f = self._feasible(b), None
            if t is False:
                v = 0
                self.trace.append(('b', 0, 1))
            else:
                f = self._feasible(~b)
                if f is False:
                    v = 1
                    self.trace.append(('b', 1, 1))
                else:
                    v = 1
                    self.pend.append(self.trace + [('b', 0, 2)])
                    self.trace.append(('b', 1, 2))
        c = b if v else ~b
        self._add(c, 'branch')
        return bool(v)

    def _feasible(self, b):
        """False only if the solver refutes pc and b"""
        if self.solver is None:
            self.solver = z3.Solver()
            self.tr = solve.Tr('lin')
            self.nside = 0
            self.npc = 0
        s, tr = self.solver, self.tr
        while self.npc < len(self.pc):
            s.add(tr.b(self.pc[self.npc][0]))
            self.npc += 1
        e = tr.b(b)
        for x in tr.side[self.nside:]:
            s.add(x)
        self.nside = len(tr.side)
        s.push()
        s.add(e)
        r = solve._check(s, 3000)
        s.pop()
        if r == 'unsat':
            return False
        if self.run.nl_feas:
            try:
                r2, _, _ = solve.solve('nl', [p for p, _ in self.pc], [b], self.run.nl_feas)
                if r2 == 'unsat':
                    return False
            except Unsupported:
                pass
        return True

    # ---------------------------------------------------------------- oracle
    def bessel(self, n, x):
        return emap(lambda v: core.bessel(n, v), x, 'f')

    def ite(self, c, a, b):
        return ite(c, a, b)

    def max(self, *a):
        r = a[0]
        for x in a[1:]:
            r = core.smax(r, x)
        return r

    def min(self, *a):
        r = a[0]
        for x in a[1:]:
            r = core.smin(r, x)
        return r

    def and_(self, *a):
        r = TRUE
        for x in a:
            r = r & as_bool(x)
        return r

    def or_(self, *a):
        r = FALSE
        for x in a:
            r = r | as_bool(x)
        return r

    def not_(self, a):
        return ~as_bool(a)

    def truth(self, c):
        return bool(as_bool(c))

    def le(self, a, b, scale=1.0):
        return lift(a) <= lift(b)

    def copy(self, x):
        return x.copy() if isinstance(x, _np.ndarray) else x

    def is_symbolic(self, x):
        return isinstance(x, Sym) and not x.is_num()

    # ------------------------------------------------------------ assertions
    def assume(self, cond):
        for b in scalars(cond)[0]:
            b = as_bool(b)
            if b.const is True:
                continue
            if b.const is False:
                raise Infeasible()
            if self.known.get(bkey(b)) is False:
                raise Infeasible()
            self._add(b, 'assume')

    def observe(self, label, a):
        n = self.nobs[label] = self.nobs.get(label, 0) + 1
        if n > 1:
            if n > 30:
                return
            label = '%s~%d' % (label, n)
        self.observed[label] = a.copy() if isinstance(a, _np.ndarray) else list(a) if isinstance(a, list) else a

    def k(self, x):
        """exact constant"""
        return lift(x)

    def check_eq(self, label, a, b, atol=1e-9, tol=None, observe=True, noise=0):
        if observe:
            self.observe(label, a)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self._oblige(label, TRUE if (type(a) is type(b) and a == b) else FALSE)
            return
        x, sx = scalars(a)
        y, sy = scalars(b)
        if sx != sy:
            self._oblige(label + ': shape %s, expected %s' % (sx, sy), FALSE)
            return
        for i, (u, v) in enumerate(zip(x, y)):
            if u is None or v is None:
                self._oblige(label, TRUE if u is v else FALSE)
                continue
            lu, lv = lift(u), lift(v)
            if type(lu) is float or type(lv) is float:
                same = type(lu) is float and type(lv) is float and (lu == lv or (lu != lu and lv != lv))
                self._oblige(label, TRUE if same else FALSE)
                continue
            if tol is None:
                d = lu - lv
                e = prune(d, lu, lv, noise)
                g = scmp('==', e, 0)
                self.obls.append(Obligation('%s[%d]' % (label, i) if len(x) > 1 else label, g, len(self.pc),
                                            (lu, lv) if e is d else (lv + e, lv)))
            else:
                d = prune(lu - lv, lu, lv, noise)
                t = lift(tol)
                parts = [d] if d.isreal() else [d.real, d.imag]
                for q in parts:
                    self.obls.append(Obligation('%s[%d]' % (label, i) if len(x) > 1 else label,
                                                (q <= t) & (q >= -t), len(self.pc), None, tol))

    def check(self, label, cond, detail=''):
        for b in scalars(cond)[0]:
            self._oblige(label, as_bool(b))

    def check_shape(self, label, a, shape):
        self.check(label, _np.shape(a) == tuple(shape))

    def _oblige(self, label, g):
        self.obls.append(Obligation(label, g, len(self.pc)))

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        return False

    def text_number(self, s):
        """number printed as the word s"""
        t = self.parse_token(s)
        if t is None:
            t = lift(complex(s)) if 'j' in s else lift(float(s))
        return t

    def capture(self, fn):
        """(result, printed text)"""
        import contextlib
        import io
        ld = self.loader
        k, old = len(ld.stdout), ld.echo
        ld.echo = True
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn()
        finally:
            ld.echo = old
        return r, '\n'.join(ld.stdout[k:])

    def check_raises(self, label, fn, exc=Exception):
        self.check(label, self.raises(fn, exc))


PRUNE = Fr(1, 10 ** 12)
TINY = Fr(1, 10 ** 25)


def prune(d, a, b, noise=0):
    """drop terms that only stem from rounded constants: coefficients that agree to 1e-12, or irrational constants (40 digits)"""
    if not d.p:
        return d
    big = max([abs(c) for s in (a, b) for c in s.p.values()] or [1])
    p = {}
    for m, c in d.p.items():
        r = max(abs(a.p.get(m, 0)), abs(b.p.get(m, 0)))
        if abs(c) <= PRUNE * r or abs(c) < TINY * big or abs(c) <= noise:
            continue
        p[m] = c
    return Sym(p) if len(p) < len(d.p) else d


def prune_tiny(p):
    if not p:
        return p
    big = max(abs(c) for c in p.values())
    return {m: c for m, c in p.items() if abs(c) >= TINY * big}


class Tokens(object):
    """text placeholders for printed symbolic numbers"""

    def __init__(self):
        self.by = {}
        self.n = 0

    def format(self, c, x, spec):
        raise Unsupported('formatted output of a symbolic value')

    def parse(self, c, s):
        return None


class TextTokens(Tokens):
    """printed numbers become unique words; parsing a word gives the number rounded to the printed precision"""

    def format(self, c, x, spec):
        if x.is_num() and not c.token_consts:
            return format(complex(x) if not x.is_const() else float(Fr(x.const())), spec)
        key = (x.key(), spec)
        if key not in self.by:
            self.by[key] = self.n
            self.by['t%d' % self.n] = (x, spec)
            self.n += 1
        n, w = self.by[key], ''
        while True:
            w = 'klmnopqrst'[n % 10] + w
            n //= 10
            if not n:
                break
        m = re.match(r'^(?:.?[<>^=])?[-+ ]?#?0?(\d*)', spec)
        wide = m and m.group(1) and int(m.group(1)) > 9
        return (' ' if wide else '') + 'Wx' + w + 'xW'

    def parse(self, c, s):
        t = s.strip()
        if not t or t[-1] in '+-' or t[0] in '(':
            t = t.strip('()')
        m = re.match(r'^Wx([k-t]+)xW$', t)
        if not m:
            if 'Wx' in s:
                raise ValueError('could not convert string to float: %r' % s)
            return None
        n = 0
        for ch in m.group(1):
            n = n * 10 + 'klmnopqrst'.index(ch)
        x, spec = self.by['t%d' % n]
        return self.value(x, spec)

    def value(self, x, spec):
        if not x.isreal():
            return self.value(x.real, spec) + IMAG * self.value(x.imag, spec)
        if x.is_const():
            return lift(float(format(float(x), spec)))
        m = re.search(r'(?:\.(\d+))?([a-zA-Z%]?)$', spec)
        prec, ty = m.group(1), m.group(2)
        if prec is None and ty in ('', 'r', 's'):
            return x
        prec = 6 if prec is None else int(prec)
        if ty in ('f', 'F'):
            d = ('print', x, Fr(1, 2) / Fr(10) ** prec, prec)
        elif ty in ('e', 'E', 'g', 'G', ''):
            p = prec if ty in ('e', 'E') else max(prec - 1, 0)
            d = ('printrel', x, Fr(5) / Fr(10) ** (p + 1), p)
        else:
            raise Unsupported('format spec ' + spec)
        a = new_atom('rnd', 'printed(%s)' % core.pstr(x.p, 3), key=(d[0], d[3], x.key()), data=d)
        return Sym({((a.id, 1),): 1})


class SilentTokens(Tokens):
    def format(self, c, x, spec):
        return '<sym>'


class Run(object):
    """exploration of one case of one harness"""

    def __init__(self, harness, params, repo, seed, deadline, opts=None):
        self.harness, self.params, self.repo, self.seed = harness, params, repo, seed
        self.deadline = deadline
        o = dict(getattr(harness, 'OPTS', {}))
        o.update(opts or {})
        self.o = o
        self.nl_feas = o.get('nl_feas', 0)
        self.max_paths = o.get('max_paths', 4000)
        self.nl_ms = o.get('nl_ms', 20000)
        self.domains = {}
        self.units = {}
        self.interned = {}
        self.tokens = o.get('tokens', SilentTokens)()
        self.splines = {}
        self.hilberts = {}
        self.paths = 0
        self.infeasible = 0
        self.n_obl = 0
        self.n_trivial = 0
        self.failing = []        # dicts with candidates
        self.inconclusive = []
        self.samples = []        # validation points
        self.functions = {}
        self.proved = {}
        self.defined = set()
        self.assumed = set()
        self.witness = False
        self.rng = random.Random('%s/%s' % (seed, sorted(params.items()) if params else ''))
        self.witnessed_obl = 0
        self.cross = o.get('cross', 0)

    def intern(self, key):
        if key not in self.interned:
            self.interned[key] = len(self.interned)
        return self.interned[key]

    # ---------------------------------------------------------------- explore
    def explore(self):
        core.reset_atoms()
        stack = [[]]
        first = True
        while stack:
            if self.paths >= self.max_paths:
                self.inconclusive.append('path limit %d reached' % self.max_paths)
                break
            if time.time() > self.deadline:
                self.inconclusive.append('time limit reached after %d paths' % self.paths)
                break
            if len([f for f in self.failing]) >= 6:
                break
            prefix = stack.pop()
            c = SymCtx(self, prefix)
            core.CTX[0] = c
            err = None
            try:
                if first:
                    sys.setprofile(self._prof)
                try:
                    self.harness.run(c, **self.params)
                finally:
                    sys.setprofile(None)
            except Infeasible:
                core.CTX[0] = None
                self.infeasible += 1
                stack.extend(c.pend)
                continue
            except Unsupported as e:
                where = traceback.extract_tb(e.__traceback__)
                src = [f for f in where if '/qmix/' in f.filename]
                self.inconclusive.append('unsupported: %s at %s' % (e, '%s:%s' % (src[-1].filename, src[-1].lineno) if src else where[-1]))
                self._sample(c, None)
                core.CTX[0] = None
                stack.extend(c.pend)
                self.paths += 1
                if len(self.inconclusive) > 3:
                    break
                continue
            except OutOfBudget:
                self.inconclusive.append('time limit reached after %d paths' % self.paths)
                break
            except RecursionError as e:
                self.inconclusive.append('recursion limit')
                break
            except Exception as e:
                err = e
            first = False
            stack.extend(c.pend)
            for s in c.opaque_calls:
                if s[0] == 'spline':
                    self.splines[s[1]._tag] = s[1]
                elif s[0] == 'hilbert':
                    self.hilberts[s[3]] = ([lift(v) for v in raw(s[1])], s[2])
            if err is not None:
                tb = traceback.extract_tb(err.__traceback__)
                src = [f for f in tb if '/qmix/' in f.filename] or tb
                lab = 'exception %s: %s (%s:%s)' % (type(err).__name__, str(err)[:160], src[-1].filename.split('/')[-1], src[-1].lineno)
                c.obls.append(Obligation(lab, FALSE, len(c.pc)))
                self.debug_tb = ''.join(traceback.format_exception(type(err), err, err.__traceback__))
            self.paths += 1
            for b, why in c.pc:
                if why == 'defined':
                    self.defined.add(repr(b)[:160])
                elif why == 'assume':
                    self.assumed.add(repr(b)[:160])
            self._decide(c, err)
            self._sample(c, err)
            core.CTX[0] = None
        core.CTX[0] = None
        if not self.n_obl:
            self.inconclusive.append('no obligation reached')
        return self

    def _prof(self, frame, event, arg):
        if event == 'call':
            f = frame.f_code
            fn = f.co_filename
            if '/qmix/' in fn and f.co_name[0] != '<':
                self.functions[(fn.split('/qmix/')[-1], f.co_qualname)] = f.co_firstlineno

    # ----------------------------------------------------------------- decide
    def _decide(self, c, err):
        hyps = [b for b, _ in c.pc]
        pck = frozenset(bkey(b) for b in hyps)
        todo = []
        for o in c.obls:
            self.n_obl += 1
            if o.goal.const is True:
                self.n_trivial += 1
                if o.pair is not None:
                    todo.append(o)
                continue
            todo.append(o)
        if not todo:
            return
        # one query for everything that is provable by linear reasoning over monomials
        tr = solve.Tr('lin')
        negs = []
        size = 0
        for o in todo:
            if o.pair is not None and size < 150000:
                a, b = o.pair
                size += len(a.p) + len(b.p)
                if o.goal.const is True:
                    if a.isreal() and b.isreal():
                        negs.append(tr.lin(a.p) != tr.lin(b.p))
                    else:
                        negs.append(z3.Not(tr.zero(a.p) == tr.zero(b.p)))
                    continue
            negs.append(z3.Not(tr.b(o.goal)))
        s = z3.Solver()
        for h in hyps:
            s.add(tr.b(h))
        bounds(tr, s, self.domains, any(o.tol is not None for o in todo))
        s.add(z3.Or(*negs) if len(negs) > 1 else negs[0])
        for x in tr.side:
            s.add(x)
        r = solve._check(s, 20000)
        if r == 'unsat':
            if self.cross > 0 and size < 3000:
                self.cross -= 1
                if solve.cvc5_check(s) == 'sat':
                    raise RuntimeError('solver disagreement: z3 unsat, cvc5 sat')
            return
        seen = set()
        nfail = 0
        for o in todo:
            if o.goal.const is True:
                continue
            key = (bkey(o.goal), o.npc, o.tol)
            if key in seen:
                continue
            seen.add(key)
            base = o.label.split('[')[0]
            if sum(1 for f in self.failing if f['label'].split('[')[0] == base and not f['undecided']) >= 2:
                continue
            nfail += self._one(c, hyps, o, err)
            if nfail >= 3:
                return

    def _one(self, c, hyps, o, err):
        g = o.goal
        ng = ~g
        if g.const is not False or hyps:
            tr = solve.Tr('lin')
            s = z3.Solver()
            for h in hyps:
                s.add(tr.b(h))
            s.add(tr.b(ng))
            bounds(tr, s, self.domains, o.tol is not None)
            for x in tr.side:
                s.add(x)
            r = solve._check(s, 20000)
            if r == 'unsat':
                return 0
            # clear denominators
            if g.op == '==':
                p = solve.clear_inv(g.args[0].p)
                if p is not None and p is not g.args[0].p:
                    p = prune_tiny(reduce_sqrt(p))
                    q = scmp('==', Sym(p), 0)
                    if q.const is True:
                        tr = solve.Tr('lin')
                        x = tr.lin(p)
                        return 0
                    if q.const is None:
                        r, _, _ = solve.solve('lin', hyps, [~q], 10000)
                        if r == 'unsat':
                            return 0
        # numeric falsification
        cands = []
        for vals, ev in self.points(c, hyps, 40, want=6):
            try:
                if self._violates(ev, o):
                    cands.append(vals)
                    if len(cands) >= 6:
                        break
            except (EvalError, ValueError, OverflowError, ZeroDivisionError, TypeError):
                continue
        if not cands and g.op == '==' and g.const is None and self._split(g.args[0].p, hyps, time.time() + 30, [0]):
            return 0
        if not cands:
            try:
                r, m, tr = solve.solve('nl', hyps, [ng], min(self.nl_ms, max(1000, int((self.deadline - time.time()) * 1000))), want_model=True)
            except Unsupported as e:
                r, m = 'unknown (%s)' % e, None
            if r == 'unsat':
                return 0
            if r != 'sat':
                # the solver could not decide: keep for the record
                self.inconclusive.append('undecided obligation: %s (%s)' % (o.label, r))
                cands = self._search(hyps, ng, o)
                if not cands:
                    cands = [v for v, _ in self.points(c, hyps, 20, want=4)]
                self.failing.append(dict(label=o.label, candidates=cands, choices=dict(c.choices), undecided=True))
                return 1
            start = self.model_points(m, tr)
            cands = []
            for v in start[:4]:
                w = self._climb(hyps, ng, o, v)
                if w is not None:
                    cands.append(w)
            cands += start
        self.failing.append(dict(label=o.label, candidates=cands, choices=dict(c.choices), goal=repr(g)[:400], undecided=False))
        return 1

    def _split(self, p, hyps, end, n):
        """p == 0 under the hypotheses, by cases on the conditions of its if-then-else terms"""
        n[0] += 1
        if n[0] > 300 or time.time() > end:
            return False
        p = solve.clear_inv(p)
        if p is None:
            return False
        top = None
        for m in p:
            for a, e in m:
                if ATOMS[a].kind == 'ite' and (top is None or a > top):
                    top = a
        if top is None:
            z = scmp('==', Sym(prune_tiny(reduce_sqrt(p))), 0)
            if z.const is True:
                return True
            if z.const is False:
                return solve.solve('lin', hyps, [], 5000)[0] == 'unsat'
            return solve.solve('lin', hyps, [~z], 5000)[0] == 'unsat'
        c = ATOMS[top].data[0]
        k = bkey(c)
        for val in (True, False):
            h = hyps + [c if val else ~c]
            if solve.solve('lin', h, [], 3000)[0] == 'unsat':
                continue
            q = {}
            for m, co in p.items():
                t = {tuple((a, e) for a, e in m if not (ATOMS[a].kind == 'ite' and bkey(ATOMS[a].data[0]) == k)): co}
                for a, e in m:
                    A = ATOMS[a]
                    if A.kind == 'ite' and bkey(A.data[0]) == k:
                        t = core.pmul(t, core.spow(A.data[1 if val else 2], lift(e)).p)
                q = core.padd(q, t)
            if not self._split(q, h, end, n):
                return False
        return True

    def _violates(self, ev, o):
        if o.pair is not None:
            a, b = ev.sym(o.pair[0]), ev.sym(o.pair[1])
            return abs(a - b) > 1e-6 * max(abs(a), abs(b)) + 1e-12
        if o.tol is not None and o.goal.const is None:
            return not ev.bool(o.goal)
        return not ev.bool(o.goal)

    # ---------------------------------------------------------- numeric points
    def points(self, c, hyps, tries, want=3):
        """random input points on this path (equalities solved, inequalities by rejection and solver models)"""
        elim = self._elim(hyps)
        got = 0
        base = None
        for t in range(tries):
            if got >= want:
                return
            vals = {}
            for n, d in self.domains.items():
                vals[n] = concrete.draw(self.rng, d['lo'], d['hi'], d['pos'], d['nonneg'], d['nonzero'])
            for n in self.units:
                vals[n] = float('%.5g' % self.rng.uniform(-3.1, 3.1))
            if t >= tries // 3 and base is None:
                base = self._solver_base(hyps)
            if t >= tries // 3 and base:
                w = (1.0, 0.0)[(t % 2)] if t < tries * 2 // 3 else 0.02
                w = 0.0 if t % 4 == 0 else 10 ** -(t % 4)
                for n, v in base.items():
                    if n in vals:
                        vals[n] = float('%.9g' % (v + w * (vals[n] - v) * 0.3))
            try:
                for n, p in elim:
                    ev = Evaluator(vals, self.seed, self.splines, self.hilberts)
                    vals[n] = ev._r(p)
                ev = Evaluator(vals, self.seed, self.splines, self.hilberts)
                if all(ev.bool(h) for h in hyps):
                    got += 1
                    yield vals, ev
            except (EvalError, ValueError, OverflowError, ZeroDivisionError, TypeError):
                continue

    def _elim(self, hyps):
        out = []
        used = set()
        for h in hyps:
            if h.op != '==' or h.const is not None:
                continue
            p = h.args[0].p
            for m, k in p.items():
                if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'var':
                    a = m[0][0]
                    if a in used:
                        continue
                    if sum(1 for mm in p for b, e in mm if b == a) == 1 and not (m and m[0][0] == 0):
                        used.add(a)
                        rest = {mm: norm(Fr(-cc) / Fr(k)) for mm, cc in p.items() if mm != m}
                        out.append((ATOMS[a].data, rest))
                        break
        return out[::-1]

    def _solver_base(self, hyps):
        for mode in ('lin', 'nl'):
            try:
                r, m, tr = solve.solve(mode, hyps, [], 3000, want_model=True)
            except Unsupported:
                continue
            if r == 'sat':
                return self._extract(m, tr)
            if r == 'unsat':
                return {}
        return {}

    def _extract(self, m, tr):
        vals = {}
        for a, v in tr.atom.items():
            if isinstance(a, tuple):
                if a[0] == 'c' and ATOMS[a[1]].kind == 'unit' and ATOMS[a[1]].data[0] == 'in':
                    x, y = (solve.z3num(m.eval(t, model_completion=True)) for t in v)
                    if x is not None and y is not None:
                        vals[ATOMS[a[1]].data[1]] = math.atan2(float(y), float(x)) * tr.den.get(a[1], 1)
                continue
            A = ATOMS[a]
            if A.kind == 'var':
                x = solve.z3num(m.eval(v, model_completion=True))
                if x is not None:
                    vals.setdefault(A.data, float(x) ** tr.den.get(a, 1))
            if A.kind == 'pow' and len(A.data[1]) == 1 and A.data[1][0][1] == 1 and ATOMS[A.data[1][0][0]].kind == 'var':
                x = solve.z3num(m.eval(v, model_completion=True))
                if x is not None and x > 0:
                    b = math.e if A.data[0] == 'e' else float(A.data[0])
                    vals[ATOMS[A.data[1][0][0]].data] = math.log(float(x)) / math.log(b) * tr.den.get(a, 1)
        return vals

    # -------------------------------------------------- making a model concrete
    def _score(self, ev, b, want=True):
        """distance of a boolean from having the wanted value (0 when it has it)"""
        if b.const is not None:
            return 0.0 if b.const == want else 1e6
        if b.op == 'not':
            return self._score(ev, b.args[0], not want)
        if b.op in ('and', 'or'):
            v = [self._score(ev, a, want) for a in b.args]
            return sum(v) if (b.op == 'and') == want else min(v)
        v = ev.poly(b.args[0].p)
        if b.op == '==':
            return abs(v) if want else (0.0 if abs(v) > 1e-7 else 1.0)
        v = v.real if isinstance(v, complex) else v
        if want:
            return max(0.0, v) + (1e-9 if v == 0 and b.op == '<' else 0)
        return max(0.0, -v) + (1e-9 if v == 0 and b.op == '<=' else 0)

    def _climb(self, hyps, ng, o, start, tries=400, end=None):
        """local search from a solver model to an input that satisfies the path and violates the goal"""
        names = list(self.domains) + list(self.units)

        def score(v):
            try:
                ev = Evaluator(v, self.seed, self.splines, self.hilberts)
                s = sum(min(1e9, self._score(ev, h)) for h in hyps) + min(1e9, self._score(ev, ng))
                if s == 0 and not self._violates(ev, o):
                    s = 1e-6
                return s if s == s else 1e12
            except (EvalError, ValueError, OverflowError, ZeroDivisionError, TypeError):
                return 1e12
        best = dict(start)
        bs = score(best)
        step = {n: 1.0 for n in names}
        for t in range(tries):
            if bs == 0:
                return best
            if time.time() > (end or self.deadline):
                break
            n = self.rng.choice(names)
            v = dict(best)
            d = self.domains.get(n)
            x = v[n]
            if d is None:
                x = x + self.rng.gauss(0, step[n])
            else:
                x = x + self.rng.gauss(0, step[n]) * max(abs(x), 0.1)
                if d['lo'] is not None:
                    x = max(x, float(d['lo']))
                if d['hi'] is not None:
                    x = min(x, float(d['hi']))
                if d['pos'] and x <= 0 or d['nonneg'] and x < 0:
                    continue
            v[n] = x
            s = score(v)
            if s < bs:
                best, bs = v, s
                step[n] = min(step[n] * 2, 4)
            else:
                step[n] = max(step[n] * 0.7, 1e-7)
        return best if bs == 0 else None

    def _search(self, hyps, ng, o, starts=6, tries=4000, seconds=25):
        """the solver gave up: look for a violating input by local search from random inputs (only ever used to find
        a counterexample to replay; not finding one leaves the obligation undecided)"""
        end = min(self.deadline, time.time() + seconds)
        for t in range(starts):
            vals = {}
            for n, d in self.domains.items():
                vals[n] = concrete.draw(self.rng, d['lo'], d['hi'], d['pos'], d['nonneg'], d['nonzero'])
            for n in self.units:
                vals[n] = float('%.5g' % self.rng.uniform(-3.1, 3.1))
            w = self._climb(hyps, ng, o, vals, tries, end)
            if w is not None:
                return [w]
            if time.time() > end:
                break
        return []

    def model_points(self, m, tr):
        v = self._extract(m, tr)
        out = []
        for i in range(6):
            vals = {}
            for n, d in self.domains.items():
                vals[n] = v.get(n, concrete.draw(self.rng, d['lo'], d['hi'], d['pos'], d['nonneg'], d['nonzero']))
            for n in self.units:
                vals[n] = v.get(n, self.rng.uniform(-3, 3))
            out.append(vals)
        return out

    def _sample(self, c, err):
        """points for encoding validation and as reachability witnesses"""
        if len(self.samples) >= self.o.get('samples', 3) and self.paths > 3 and self.rng.random() > 0.05:
            return
        if len(self.samples) >= self.o.get('max_samples', 8):
            return
        hyps = [b for b, _ in c.pc]
        for vals, ev in self.points(c, hyps, 30, want=1):
            self.witness = True
            exp = {}
            if err is None:
                for lab, a in c.observed.items():
                    try:
                        x = toarr(ev, a)
                        x = x if isinstance(x, list) else [x]
                        if len(x) <= 4000 and all(isinstance(v, (int, float, complex, _np.number, bool, _np.bool_)) for v in x):
                            exp[lab] = [[complex(v).real, complex(v).imag] for v in x]
                    except (EvalError, ValueError, OverflowError, ZeroDivisionError, TypeError, Unsupported):
                        pass
            self.samples.append(dict(values=vals, choices=dict(c.choices), expect=exp))
            return


def reduce_sqrt(p):
    """re-normalise (multiplying by one triggers the reductions)"""
    return core.pmul(p, {(): 1})


def bounds(tr, s, domains, on):
    """interval facts for monomials (only needed for tolerance goals)"""
    if not on:
        return
    for m, v in list(tr.mono.items()):
        b = mono_bound(m, domains)
        if b is not None:
            s.add(v <= solve.q(b), v >= solve.q(-b))


def mono_bound(m, domains):
    r = Fr(1)
    for a, e in m:
        A = ATOMS[a]
        if a == 0 or A.kind == 'unit':
            continue
        if A.kind == 'uf' and A.data[0][0] == 'J' and A.data[0][1:].isdigit():
            continue
        if A.kind == 'var':
            d = domains.get(A.data, {})
            if d.get('lo') is None or d.get('hi') is None:
                return None
            lo, hi = Fr(core.num(d['lo'])), Fr(core.num(d['hi']))
            if e > 0:
                r *= max(abs(lo), abs(hi)) ** int(-(-e // 1))
            elif lo > 0:
                r *= (1 / lo) ** int(-(e // 1))
            else:
                return None
            continue
        return None
    return r
