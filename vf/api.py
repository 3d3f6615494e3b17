"""What harnesses are written against.

A harness is a function of one argument S.  It runs in two modes: symbolically (inputs are solver variables, checks are
solver queries) and concretely (the same text, inputs from a model, the unpatched code).  Nothing in a harness may depend
on the mode except through S."""

import fractions
import importlib
import math

import numpy as np

from . import core, symnp, symsparse, symdt
from .core import Sym, SymBool, SymInt, SymReal, SymBV, PathEnd, Unsupported, z3


class Harness(object):
    def __init__(self, fn, name, doc, bounds, tier, dates, overrides, max_paths, time_s, witness_decides, witnesses, timeout_ms, final_timeout_ms,
                 tol, args, fallback, assumptions):
        self.fn, self.name, self.doc, self.bounds, self.tier = fn, name, doc, bounds, tier
        self.dates, self.overrides, self.max_paths, self.time_s = dates, overrides, max_paths, time_s
        self.witness_decides, self.witnesses = witness_decides, witnesses
        self.timeout_ms, self.final_timeout_ms, self.tol, self.args = timeout_ms, final_timeout_ms, tol, args
        self.fallback = fallback
        self.assumptions = assumptions

    def __call__(self, S):
        return self.fn(S, *self.args)


REGISTRY = []


def harness(bounds='', tier='quick', dates=False, overrides=None, max_paths=4000, time_s=150, witness_decides=True, witnesses=4,
            timeout_ms=20000, final_timeout_ms=60000, tol=1e-6, params=None, fallback=12, assumptions=()):
    """Register a harness; params: list of argument tuples, one instance each."""
    def deco(fn):
        for p in (params if params is not None else [()]):
            p = p if isinstance(p, tuple) else (p,)
            name = fn.__name__ + ''.join('_%s' % (getattr(x, '__name__', None) or x) for x in p)
            name = ''.join(ch if ch.isalnum() or ch in '_-.' else '_' for ch in name)
            REGISTRY.append(Harness(fn, name, (fn.__doc__ or '').strip(), bounds, tier, dates, overrides, max_paths, time_s, witness_decides, witnesses,
                                    timeout_ms, final_timeout_ms, tol, p, fallback, tuple(assumptions)))
        return fn
    return deco


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class Expected(object):
    """Result of S.attempt."""

    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    @property
    def raised(self):
        return self.error is not None


class _Common(object):
    @staticmethod
    def module(name):
        return importlib.import_module(name)

    def attempt(self, fn, *a, **k):
        """Call and catch ordinary exceptions."""
        try:
            return Expected(fn(*a, **k))
        except Exception as e:      # noqa: symbolic control flow uses BaseException
            return Expected(error=e)

    def flat(self, x):
        """List of the elements of anything array-like (sparse matrices included), masked elements as None."""
        if isinstance(x, symnp.symma.MArr):
            return [None if bool(k) else v for k, v in zip(x._m(), x.ravel_list())]
        if isinstance(x, np.ma.MaskedArray):
            m = np.ma.getmaskarray(x).ravel().tolist()
            d = self.flat(x.data)
            return [None if k else v for k, v in zip(m, d)]
        if hasattr(x, 'toarray'):
            x = x.toarray()
        if x is np.ma.masked:
            return [None]
        if isinstance(x, np.matrix):
            x = np.asarray(x)
        if isinstance(x, Sym) or not hasattr(x, '__len__') and not isinstance(x, np.ndarray):
            return [x]
        if isinstance(x, symnp.SymArray):
            return x.ravel_list()
        return symnp.obj(x).ravel().tolist()

    def shape(self, x):
        return tuple(x.shape) if hasattr(x, 'shape') else np.shape(x)


class SymS(_Common):
    symbolic = True

    def __init__(self, ctx, tol):
        self.ctx = ctx
        self.tol = tol
        from . import fakefile
        fakefile.reset()
        self.inputs = {}        # name -> Sym
        self.ranges = {}
        self.np, self.sp = symnp.NUMPY, symsparse.SPARSE
        self.failures = []      # (label, kind, inputs)
        self.unknowns = []
        self.labels = {}
        self.observed = []
        self.on_failure = None
        self.notes = []

    # -- inputs
    def _in(self, name, s, rng=None):
        if name in self.inputs:
            raise RuntimeError('input %s declared twice' % name)
        self.inputs[name] = s
        self.ranges[name] = rng
        return s

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.ctx.add(z3.And(v >= int(lo), v <= int(hi)))
        return self._in(name, SymInt(v), ('int', lo, hi))

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        if lo is not None:
            self.ctx.add(v >= core.real_const(lo))
        if hi is not None:
            self.ctx.add(v <= core.real_const(hi))
        if lo is not None and hi is not None:
            self.ctx.bounds[name] = (core.to_fraction(lo), core.to_fraction(hi))
        return self._in(name, SymReal(v), ('real', lo, hi))

    def bool(self, name):
        return self._in(name, SymBool(z3.Bool(name)), ('bool',))

    def bv(self, name, bits, signed=False):
        return self._in(name, SymBV(z3.BitVec(name, bits), bits, signed), ('bv', bits, signed))

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[self.ctx.concretize(i.e)]

    def fork_bool(self, name):
        """A Boolean decided by forking: both values are explored with a concrete value."""
        return bool(self.bool(name))

    def array(self, name, shape, kind='real', lo=None, hi=None, dtype=None, bits=16, signed=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        make = {'real': lambda k: self.real(k, lo, hi), 'int': lambda k: self.int(k, lo, hi), 'bool': self.bool,
                'bv': lambda k: self.bv(k, bits, signed)}[kind]
        ld = np.dtype(dtype) if dtype is not None else {'real': symnp.F64, 'int': symnp.I64, 'bool': symnp.BOOL,
                                                                 'bv': np.dtype('%s%d' % ('i' if signed else 'u', bits // 8))}[kind]
        return symnp.wrap(symnp.from_list([make('%s[%d]' % (name, i)) for i in range(n)], shape), ld)

    def datetime(self, name, lo=(1850, 1, 1), hi=(2024, 12, 31), resolution='second'):
        """Any time between the start of lo and the end of hi."""
        lo, hi = symdt._dt.date(*lo).toordinal(), symdt._dt.date(*hi).toordinal()
        day = self.int(name + '.day', lo, hi)
        unit = {'day': symdt.DAY_US, 'hour': 3600 * 10**6, 'second': 10**6, 'microsecond': 1}[resolution]
        if resolution == 'day':
            return symdt.datetime._of(day, 0)
        tod = self.int(name + '.time', 0, symdt.DAY_US // unit - 1)
        return symdt.datetime._of(day, tod * unit)

    def date_of(self, *a):
        return symdt.datetime(*a)

    def text(self, t):
        return symdt.SymStr(t)

    def chars(self, name, n, alphabet):
        """Any text of n characters of the alphabet, none of which has a meaning in patterns."""
        from . import symtext
        codes = sorted(ord(c) for c in alphabet)
        out = []
        for k in range(n):
            v = self.int('%s[%d]' % (name, k), codes[0], codes[-1])
            gaps = [c for c in range(codes[0], codes[-1]) if c not in codes]
            if gaps:
                self.assume(core.or_(*[v == c for c in codes]))
            out.append(v)
        return symtext.SymName.of(out)

    def text_number(self, t):
        """The number a text of digits stands for."""
        v = 0
        for c in t:
            v = v * 10 + (self.code(c) - 48)
        return v

    def code(self, c):
        """Code point of a character."""
        from . import symtext
        return symtext.code(symtext.lift(c).parts[0])

    def name_text(self, t):
        """A known text that may be joined with texts of symbolic characters."""
        from . import symtext
        return symtext.lift(t)

    def file(self, name):
        """Path name for a scratch file (of a stand-in for files, here)."""
        return '/scratch/' + name

    def open(self, path, mode='rb'):
        from . import fakefile
        return fakefile.fake_open(path, mode)

    # -- logic
    and_, or_, not_, implies, ite = staticmethod(core.and_), staticmethod(core.or_), staticmethod(core.not_), staticmethod(core.implies), staticmethod(core.ite)
    floor = staticmethod(core.floor)

    def all(self, xs):
        return core.and_(*self.flat(xs)) if self.flat(xs) else True

    def any(self, xs):
        return core.or_(*self.flat(xs)) if self.flat(xs) else False

    def sum(self, xs):
        r = 0
        for x in self.flat(xs):
            r = r + x
        return r

    def max(self, xs):
        xs = self.flat(xs)
        r = xs[0]
        for x in xs[1:]:
            r = core.ite(x > r, x, r)
        return r

    def min(self, xs):
        xs = self.flat(xs)
        r = xs[0]
        for x in xs[1:]:
            r = core.ite(x < r, x, r)
        return r

    def sqrt(self, x):
        return core.sqrt(x)

    def exp(self, x):
        return core.exp(x)

    def cos(self, x):
        return core.cos(x)

    def sin(self, x):
        return core.sin(x)

    def log(self, x):
        return core.log(x)

    def derivative(self, f, x):
        """Derivatives at x of the elements of f(x), x an input."""
        return [core.mkreal(core.derivative(core.rexpr(v), core.rexpr(x))) if isinstance(v, Sym) else 0.0 for v in self.flat(f(x))]

    def cramer(self):
        """From here on solutions of linear systems of up to three equations are quotients of determinants."""
        self.ctx.cramer = True

    def snap(self, fraction):
        """From here on coefficients of polynomials below this fraction of the largest count as rounding."""
        from . import ratio
        self.ctx.forms = ratio.Forms(fraction)

    def assume(self, cond):
        self.ctx.assume(cond)

    # -- checks
    def _discharge(self, label, cond, stronger=()):
        """cond: SymBool or bool that must hold on this path."""
        self.ctx.stats.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not isinstance(cond, Sym):
            if not cond:
                m = self.ctx.get_model()
                if m is None:
                    self.unknowns.append(label)
                else:
                    self._fail(label, m, [])
            return
        verdict, m = self.ctx.valid(core.bexpr(cond))
        if verdict == 'unsat':
            return
        if verdict != 'sat':
            self.unknowns.append(label)
            return
        self._fail(label, m, [z3.Not(core.bexpr(cond))], stronger)

    def _fail(self, label, m, extra, stronger=()):
        self.on_failure(self, label, m, extra, stronger)
        raise PathEnd('violation found')

    def check(self, cond, label):
        if isinstance(cond, np.ndarray):
            cond = self.all(cond)
        self._discharge(label, cond)

    def eq(self, a, b, label):
        """Exact equality, elementwise (None where masked)."""
        if self.shape(a) != self.shape(b):
            self._discharge(label + ' (shape)', False)
            return
        conds = []
        for x, y in zip(self.flat(a), self.flat(b)):
            if x is None or y is None:
                conds.append(x is y)
            else:
                c = x == y
                conds.append(c)
        self._discharge(label, core.and_(*conds) if conds else True)

    def close(self, a, b, label, tol=None):
        """Equality up to rounding: exact over the reals, within a tolerance on floats."""
        if self.shape(a) != self.shape(b):
            self._discharge(label + ' (shape)', False)
            return
        for k, (x, y) in enumerate(zip(self.flat(a), self.flat(b))):
            if x is None or y is None:
                self._discharge(label, x is y)
                continue
            if not isinstance(x, Sym) and not isinstance(y, Sym):
                ok = bool(np.isclose(float(x), float(y), rtol=1e-7, atol=1e-9, equal_nan=True))
                self._discharge(label, ok)
                continue
            if any(not isinstance(v, Sym) and not math.isfinite(v) for v in (x, y)):
                self._discharge(label, False)
                continue
            ex, ey = core.rexpr(core.plain(x)), core.rexpr(core.plain(y))
            big = [z3.Or(ex - ey > t, ey - ex > t) for t in (1, z3.RealVal('1/10'), z3.RealVal('1/1000'))]
            if tol is not None:
                t = core.real_const(tol)
                if self.ctx.cramer and self.ctx.equal_by_fractions(ex, ey):
                    self._discharge(label, True)
                    continue
                if self.ctx.close_by_monomials(ex, ey, tol) or self.ctx.equal_by_definition(ex, ey):
                    self._discharge(label, True)
                    continue
                r, m, case = self.ctx.close_by_cases(ex, ey, tol)
                if r == 'unsat':
                    self._discharge(label, True)
                    continue
                if r == 'sat':
                    self.ctx.stats.checks += 1
                    self._fail(label, m, case + [z3.Not(z3.And(ex - ey <= t, ey - ex <= t))], big)
                self._discharge(label, core.mkbool(z3.And(ex - ey <= t, ey - ex <= t)), big)
            else:
                self._discharge(label, core.mkbool(ex == ey), big)

    def raises(self, exc, fn, label, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self._discharge(label, True)
            return
        self._discharge(label, False)

    def cover(self, cond, name):
        """Reachability witness: cond must be satisfiable on some path (checked over all paths by the runner)."""
        e = core.bexpr(cond) if isinstance(cond, Sym) else z3.BoolVal(bool(cond))
        r, _ = self.ctx._check(e)
        if r == z3.sat:
            self.notes.append('cover:' + name)
        else:
            self.notes.append('nocover:' + name)

    def observe(self, name, value):
        self.observed.append((name, self.flat(value)))


def to_concrete(v, rng):
    if isinstance(v, fractions.Fraction):
        return float(v)
    return v


class RealS(_Common):
    """The same interface on concrete values and the unpatched code."""

    symbolic = False

    def __init__(self, values, tol):
        self.values, self.tol = values, tol
        import scipy.sparse
        self.np, self.sp = np, scipy.sparse
        self.used = {}
        self.observed = []
        self.labels = {}

    def _get(self, name, conv, default=None):
        v = self.values.get(name, default)
        if v is None:
            v = 0
        v = conv(v)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        v = self._get(name, int, lo)
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def real(self, name, lo=None, hi=None):
        v = self._get(name, float, lo if lo is not None else 0.0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed(name)
        return v

    def bool(self, name):
        return self._get(name, bool, False)

    def bv(self, name, bits, signed=False):
        return self._get(name, lambda v: np.dtype('%s%d' % ('i' if signed else 'u', bits // 8)).type(v), 0)

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    fork_bool = bool

    def array(self, name, shape, kind='real', lo=None, hi=None, dtype=None, bits=16, signed=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        make = {'real': lambda k: self.real(k, lo, hi), 'int': lambda k: self.int(k, lo, hi), 'bool': self.bool,
                'bv': lambda k: self.bv(k, bits, signed)}[kind]
        d = np.dtype(dtype) if dtype is not None else {'real': np.float64, 'int': np.int64, 'bool': bool}.get(kind)
        if d is None:
            d = np.dtype('%s%d' % ('i' if signed else 'u', bits // 8))
        return np.array([make('%s[%d]' % (name, i)) for i in range(n)], dtype=d).reshape(shape)

    def datetime(self, name, lo=(1850, 1, 1), hi=(2024, 12, 31), resolution='second'):
        import datetime
        lo, hi = datetime.date(*lo).toordinal(), datetime.date(*hi).toordinal()
        day = self.int(name + '.day', lo, hi)
        t = datetime.datetime.fromordinal(day)
        if resolution == 'day':
            return t
        unit = {'hour': 3600 * 10**6, 'second': 10**6, 'microsecond': 1}[resolution]
        return t + datetime.timedelta(microseconds=self.int(name + '.time', 0, symdt.DAY_US // unit - 1) * unit)

    def date_of(self, *a):
        import datetime
        return datetime.datetime(*[int(x) for x in a])

    def text(self, t):
        return t

    name_text = text

    def code(self, c):
        return ord(c)

    def text_number(self, t):
        return int(t)

    def chars(self, name, n, alphabet):
        codes = sorted(ord(c) for c in alphabet)
        out = ''
        for k in range(n):
            v = self.int('%s[%d]' % (name, k), codes[0], codes[-1])
            if v not in codes:
                raise AssumeFailed(name)
            out += chr(v)
        return out

    def file(self, name):
        import os
        import tempfile
        if not hasattr(self, 'scratch'):
            self.scratch = tempfile.TemporaryDirectory(prefix='vfscratch')
        return os.path.join(self.scratch.name, name)

    def open(self, path, mode='rb'):
        return open(path, mode)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def floor(self, x):
        return float(math.floor(x))

    def all(self, xs):
        return all(bool(x) for x in self.flat(xs))

    def any(self, xs):
        return any(bool(x) for x in self.flat(xs))

    def sum(self, xs):
        r = 0
        for x in self.flat(xs):
            r = r + x
        return r

    def max(self, xs):
        return max(self.flat(xs))

    def min(self, xs):
        return min(self.flat(xs))

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def log(self, x):
        return math.log(x)

    def derivative(self, f, x):
        h = 1e-2 * max(1.0, abs(x))
        at = {k: [float(v) for v in self.flat(f(x + k * h))] for k in (-2, -1, -0.5, 0.5, 1, 2)}
        slope = [[(a - b) / (2 * k * h) for a, b in zip(at[k], at[-k])] for k in (0.5, 1, 2)]
        once = [[(4 * a - b) / 3 for a, b in zip(slope[i], slope[i + 1])] for i in (0, 1)]
        return [(16 * a - b) / 15 for a, b in zip(*once)]

    def snap(self, fraction):
        pass

    def cramer(self):
        pass

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def _fail(self, label, detail=''):
        raise CheckFailed(label + (': ' + detail if detail else ''))

    def check(self, cond, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            self._fail(label)

    def eq(self, a, b, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.shape(a) != self.shape(b):
            self._fail(label, 'shapes %s and %s' % (self.shape(a), self.shape(b)))
        for k, (x, y) in enumerate(zip(self.flat(a), self.flat(b))):
            same = x is y if (x is None or y is None) else bool(x == y)
            if not same:
                self._fail(label, 'element %d: %r, expected %r' % (k, x, y))

    def close(self, a, b, label, tol=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.shape(a) != self.shape(b):
            self._fail(label, 'shapes %s and %s' % (self.shape(a), self.shape(b)))
        for k, (x, y) in enumerate(zip(self.flat(a), self.flat(b))):
            if x is None or y is None:
                if x is not y:
                    self._fail(label, 'element %d: %r, expected %r' % (k, x, y))
                continue
            t = self.tol * max(1.0, abs(float(y)), abs(float(x))) if math.isfinite(y) and math.isfinite(x) else 0
            if tol is not None:
                t = t + tol
            if x == y or (math.isnan(x) and math.isnan(y)):
                continue
            if not abs(float(x) - float(y)) <= t:
                self._fail(label, 'element %d: %r, expected %r' % (k, x, y))

    def raises(self, exc, fn, label, *a, **k):
        self.labels[label] = self.labels.get(label, 0) + 1
        try:
            fn(*a, **k)
        except exc:
            return
        self._fail(label, 'no exception')

    def cover(self, cond, name):
        pass

    def observe(self, name, value):
        self.observed.append((name, self.flat(value)))
