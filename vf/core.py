"""Symbolic values and path exploration.

A harness runs the real code on proxies (SymBool, SymInt, SymReal, SymBV) whose operators build z3 terms.
Whenever Python needs a truth value (or an index), the context forks: the harness is executed again for every
feasible outcome, so that at the end every feasible path within the bounds has been run.  On each path the checks
are discharged by the solver under that path's condition."""

import fractions
import math
import os
import sys
import numbers
import time

from .z3env import z3
import numpy

z3.set_param('model.completion', True)


class PathEnd(BaseException):
    """The current path is infeasible or finished (never an Exception: code under test may catch those)."""


class Unsupported(BaseException):
    """The engine cannot represent an operation: the harness is inconclusive, never a pass."""


class Budget(BaseException):
    """Path or time budget of a harness is used up: inconclusive."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside a symbolic run')
    return CTX


def to_fraction(x):
    return fractions.Fraction(x)


def real_const(x):
    f = to_fraction(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.aborted = 0
        self.checks = 0
        self.forks = 0


SLOW = bool(os.environ.get('VF_SLOW'))


def variables(e):
    """Uninterpreted constants in a term."""
    found, todo, seen = {}, [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                found[t.get_id()] = t
        else:
            todo.extend(t.children())
    return list(found.values())


class Ctx(object):
    """One path of one harness."""

    def __init__(self, prefix, stats, timeout_ms=20000, final_timeout_ms=60000, deadline=None):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []      # alternative prefixes found on this path
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.final_timeout_ms = final_timeout_ms
        self.deadline = deadline
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.model = None
        self.last = None        # a model of an earlier, weaker path condition
        self.fresh = 0
        self.dead = None
        self.memo = {}
        self.bounds = {}
        self.assumptions = set()
        self.stale = False
        self.forms = None       # see ratio.py
        self.exact = None
        self.cramer = False     # solutions of small linear systems as quotients of determinants

    # -- solver plumbing ---------------------------------------------------------------------------------------
    def _check(self, extra=None, timeout=None):
        if self.deadline is not None and time.time() > self.deadline:
            self.dead = Budget('time budget of the harness used up')
            raise self.dead
        t = time.time()
        self.stats.queries += 1
        if timeout is not None:
            self.solver.set('timeout', timeout)
        if extra is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra is not None:
            self.solver.pop()
        if timeout is not None:
            self.solver.set('timeout', self.timeout_ms)
        self.stats.solver_s += time.time() - t
        if SLOW and time.time() - t > 2:
            import traceback
            sys.stderr.write('slow query %.1fs %s: %s' % (time.time() - t, r, ' < '.join('%s:%d' % (f.name, f.lineno) for f in reversed(traceback.extract_stack()[:-1][-7:]))) + '\n')
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def add(self, cond):
        """Add a constraint to the path condition."""
        if self.dead is not None:
            raise self.dead
        self.pc.append(cond)
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.last = self.model
            self.model = None

    @staticmethod
    def _values(m):
        out = []
        for d in m.decls():
            if d.arity() == 0 and '!' not in d.name():
                v = m[d]
                if z3.is_rational_value(v) or z3.is_int_value(v) or z3.is_bv_value(v) or z3.is_true(v) or z3.is_false(v):
                    out.append(d() == v)
        return out

    def _near_model(self):
        """A model with the inputs of the last one: definitions added since seldom exclude them."""
        if self.fresh == 0 or self.deadline is not None and time.time() > self.deadline:
            return None
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*[c for c in self.pc if not any('!' in v.decl().name() for v in variables(c))])
        fixed = self._values(self.last) if self.last is not None else []
        self.stats.queries += 1
        r = s.check(*fixed)
        for _ in range(20):
            if r != z3.unsat or not fixed:
                break
            core = set(c.get_id() for c in s.unsat_core())      # values of inputs constrained only since
            fixed = [c for c in fixed if c.get_id() not in core] if core else []
            self.stats.queries += 1
            r = s.check(*fixed)
        if r != z3.sat:
            self.stats.solver_s += time.time() - t
            return None
        fixed = self._values(s.model())
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.pc)
        s.add(*fixed)
        self.stats.queries += 1
        r = s.check()
        self.stats.solver_s += time.time() - t
        return s.model() if r == z3.sat else None

    def get_model(self, timeout=None):
        if self.model is None:
            self.model = self._near_model()
        if self.model is None:
            r, m = self._check(timeout=timeout)
            if r == z3.unsat:
                self.dead = PathEnd('infeasible')
                raise self.dead
            self.model = m
        if self.model is not None:
            self.last = self.model
        return self.model

    def fork(self, cond):
        """Truth value of cond on this path; forks when both outcomes are feasible."""
        if self.dead is not None:
            raise self.dead
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            _, value = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(('b', value))
            self.add(cond if value else z3.Not(cond))
            return value
        self.stats.forks += 1
        hint = None
        if self.model is not None:
            hint = z3.is_true(self.model.eval(cond, model_completion=True))
        if hint is True:
            can_t, mt = True, self.model
        else:
            r, mt = self._check(cond)
            can_t = r != z3.unsat
        if hint is False:
            can_f, mf = True, self.model
        else:
            r, mf = self._check(z3.Not(cond))
            can_f = r != z3.unsat
        if not can_t and not can_f:
            self.dead = PathEnd('infeasible')
            raise self.dead
        if can_t and can_f:
            self.pending.append(self.decisions + [('b', False)])
        value = can_t
        self.decisions.append(('b', value))
        self.add(cond if value else z3.Not(cond))
        self.model = mt if value else mf
        return value

    def concretize(self, e, limit=200):
        """Fork over all feasible values of an integer (or bit-vector) term."""
        if self.dead is not None:
            raise self.dead
        e = z3.simplify(e)
        v = _num_value(e)
        if v is not None:
            return v
        excluded = 0
        while True:
            if self.pos < len(self.prefix):
                kind, value = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append((kind, value))
                v, taken = value
                self.add(e == v if taken else e != v)
                if taken:
                    return v
                excluded += 1
                continue
            m = self.get_model()
            if m is None:
                raise Unsupported('solver gave no model to concretise with')
            v = _num_value(m.eval(e, model_completion=True))
            if v is None:
                raise Unsupported('cannot concretise %s' % e.sort())
            r, m2 = self._check(e != v)
            if r != z3.unsat:
                if excluded > limit:
                    raise Unsupported('more than %d values for an index or a size' % limit)
                self.pending.append(self.decisions + [('c', (v, False))])
            self.decisions.append(('c', (v, True)))
            self.add(e == v)
            return v

    def assume(self, cond):
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_false(e):
                self.dead = PathEnd('assumption false')
                raise self.dead
            if not z3.is_true(e):
                self.add(e)
                self.get_model()
        elif not cond:
            self.dead = PathEnd('assumption false')
            raise self.dead

    def valid(self, cond):
        """(verdict, model): 'unsat' when cond holds for every value on this path, 'sat' with a model otherwise."""
        neg = z3.simplify(z3.Not(cond))
        if z3.is_false(neg):
            return 'unsat', None
        neg2 = z3.simplify(neg, som=True)
        if z3.is_false(neg2):
            self.stats.queries += 1
            return 'unsat', None
        if self._from_definitions(neg2):
            return 'unsat', None
        r, m = self._check(neg, timeout=min(self.timeout_ms, 15000))
        if r == z3.unknown:
            t = time.time()
            s = z3.Solver()
            s.set('timeout', self.final_timeout_ms)
            s.add(*self.pc)
            s.add(neg2)
            self.stats.queries += 1
            r = s.check()
            m = s.model() if r == z3.sat else None
            if r == z3.unknown:
                s = z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', self.final_timeout_ms)
                s.add(*self.pc)
                s.add(neg2)
                self.stats.queries += 1
                try:
                    r = s.check()
                    m = s.model() if r == z3.sat else None
                except z3.Z3Exception:
                    r = z3.unknown
            self.stats.solver_s += time.time() - t
        return str(r), m

    def equal_by_definition(self, x, y):
        """x = y exactly, cheaply decided."""
        neg = z3.simplify(x != y, som=True)
        if z3.is_false(neg):
            self.stats.queries += 1
            return True
        return self._from_definitions(neg)

    def _from_definitions(self, neg):
        """Does the goal follow from the definitions of the auxiliary variables in it alone?  (A subset of the path condition: unsat there is unsat.)"""
        todo, seen, chosen = [neg], set(), {}
        defs = None
        while todo:
            for v in variables(todo.pop()):
                name = v.decl().name()
                if '!' not in name or name in seen:
                    continue
                seen.add(name)
                if defs is None:
                    defs = {}
                    for c in self.pc:
                        for w in variables(c):
                            if '!' in w.decl().name():
                                defs.setdefault(w.decl().name(), []).append(c)
                for c in defs.get(name, ()):
                    if c.get_id() not in chosen:
                        chosen[c.get_id()] = c
                        todo.append(c)
        if not chosen or len(chosen) == len(self.pc):
            return False
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(neg, *[z3.simplify(c, som=True) for c in chosen.values()])
        self.stats.queries += 1
        r = s.check()
        self.stats.solver_s += time.time() - t
        return r == z3.unsat

    def atom_bounds(self, t):
        """Rational bounds of an atom (an input or an exp of bounded inputs), or None."""
        if not z3.is_const(t):
            return None
        name = t.decl().name()
        if name in self.bounds:
            return self.bounds[name]
        if name.startswith('exp!'):
            for (kind, _), (u, made) in self.memo.items():
                if kind == 'exp' and made.eq(t):
                    terms, const = linear_terms(u)
                    lo = hi = const
                    for v, k in terms:
                        b = self.atom_bounds(v)
                        if b is None:
                            return None
                        lo, hi = lo + min(k * b[0], k * b[1]), hi + max(k * b[0], k * b[1])
                    if max(abs(lo), abs(hi)) > 300:
                        return None
                    self.bounds[name] = (to_fraction(math.exp(float(lo)) * (1 - 1e-9)), to_fraction(math.exp(float(hi)) * (1 + 1e-9)))
                    return self.bounds[name]
        return None

    def close_by_monomials(self, x, y, tol):
        """|x - y| <= tol for all values, with every monomial of the difference taken as a variable of its own within its bounds (which is weaker)."""
        r = laurent(x - y)
        if r is not None:
            r = self._square_roots(*r)
        if r is None:
            return False
        poly, atoms = r
        total, bounds = z3.RealVal(0), []
        for k, (m, c) in enumerate(poly.items()):
            lo = hi = fractions.Fraction(1)
            for v, n in m:
                b = self.atom_bounds(atoms[v])
                if b is None:
                    return False
                if n < 0:
                    b, n = (1 / b[1], 1 / b[0]), -n
                for _ in range(n):
                    ends = [lo * b[0], lo * b[1], hi * b[0], hi * b[1]]
                    lo, hi = min(ends), max(ends)
            w = z3.Real('monomial!%d' % k)
            bounds.append(z3.And(w >= real_const(lo), w <= real_const(hi)))
            total = total + real_const(c) * w
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 5000)
        tol = real_const(tol)
        s.add(z3.Or(total > tol, total < -tol), *bounds)
        self.stats.queries += 1
        v = s.check()
        self.stats.solver_s += time.time() - t
        return v == z3.unsat

    def _square_roots(self, poly, atoms):
        """Even powers of square roots replaced by what they are roots of."""
        for _ in range(20):
            found = next((v for m in poly for v, n in m if n > 1 and z3.is_const(atoms[v]) and atoms[v].decl().name().startswith('sqrt!')), None)
            if found is None:
                return poly, atoms
            u = next((u for (kind, _i), (u, made) in self.memo.items() if kind == 'sqrt' and made.eq(atoms[found])), None)
            inner = laurent(u) if u is not None else None
            if inner is None:
                return None
            atoms = dict(atoms)
            atoms.update(inner[1])
            out = {}
            for m, c in poly.items():
                d = dict(m)
                n = d.pop(found, 0)
                if n <= 1:
                    out[m] = out.get(m, 0) + c
                    continue
                if n % 2:
                    d[found] = 1
                parts = {tuple(sorted(d.items())): c}
                for _j in range(n // 2):
                    parts2 = {}
                    for a, p in parts.items():
                        for b, q in inner[0].items():
                            e = dict(a)
                            for v, k in b:
                                e[v] = e.get(v, 0) + k
                            key = tuple(sorted((v, k) for v, k in e.items() if k))
                            parts2[key] = parts2.get(key, 0) + p * q
                    parts = parts2
                for k, v in parts.items():
                    out[k] = out.get(k, 0) + v
            poly = {k: v for k, v in out.items() if v != 0}
            if len(poly) > 4000:
                return None
        return None

    def equal_by_fractions(self, x, y):
        """Whether both are the same fraction of polynomials."""
        from . import ratio
        if self.exact is None:
            self.exact = ratio.Forms(0, 4000)
        f = self.exact.form(z3.simplify(x - y))
        return f is not None and not f[0]

    def close_by_cases(self, x, y, tol, limit=1000):
        """|x - y| <= tol, with conditional parts of the terms (and integer parts) decided one by one.  ('unsat', None, []), ('sat', model, case) or ('unknown', None, [])."""
        e = z3.simplify(x - y)
        if find_case(e) is None:
            return 'unknown', None, []
        whole, todo, spent, values = e, [(e, [])], 0, 0
        while todo:
            e, given = todo.pop()
            c = find_case(e)
            if c is None:
                if self.close_by_monomials(e, z3.RealVal(0), tol):
                    continue
                t = real_const(tol)
                goal = z3.And(*(given + [z3.Or(e > t, e < -t)]))
                r, m = self._check(goal, timeout=10000)
                if r == z3.unsat:
                    continue
                return (str(r), m, given) if r == z3.sat else ('unknown', None, [])
            if spent > limit:
                return 'unknown', None, []
            if c[0] == 'int':
                values += 1
                if values == 16:
                    t = real_const(tol)
                    r, m = self._check(z3.Or(whole > t, whole < -t), timeout=5000)
                    if r == z3.unsat:
                        break
                if values > 300:
                    return 'unknown', None, []
                r, m = self._check(z3.And(*given) if given else None, timeout=5000)
                spent += 1
                if r == z3.unsat:
                    continue
                if m is None:
                    return 'unknown', None, []
                v = m.eval(c[1], model_completion=True)
                cond, sub = c[1] == v, (c[1], v)
                todo.append((e, given + [z3.Not(cond)]))
                todo.append((z3.simplify(z3.substitute(e, sub)), given + [cond]))
                continue
            for value in (True, False):
                g = given + [c[1] if value else z3.Not(c[1])]
                r, m = self._check(z3.And(*g), timeout=5000)
                spent += 1
                if r == z3.unsat:
                    continue
                todo.append((z3.simplify(z3.substitute(e, (c[1], z3.BoolVal(value)))), g))
        return 'unsat', None, []

    def fresh_real(self, tag='t'):
        self.fresh += 1
        return z3.Real('%s!%d' % (tag, self.fresh))

    def fresh_int(self, tag='k'):
        self.fresh += 1
        return z3.Int('%s!%d' % (tag, self.fresh))


def find_case(e):
    """An innermost condition or integer part of a term: ('if', condition), ('int', term) or None."""
    seen = set()

    def go(t):
        if t.get_id() in seen:
            return None
        seen.add(t.get_id())
        for c in t.children():
            r = go(c)
            if r is not None:
                return r
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return 'if', t.arg(0)
        if z3.is_app_of(t, z3.Z3_OP_TO_INT):
            return 'int', t
        return None
    return go(e)


def _num_value(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def is_sym(x):
    return isinstance(x, Sym)


class Sym(object):
    __slots__ = ('e',)
    __hash__ = None

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'sym(%s)' % str(self.e)[:60]

    def __str__(self):
        return 'sym'

    def __format__(self, spec):
        return 'sym'

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # numpy scalar-like interface
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def ravel(self):
        from . import symnp
        return symnp.array([self])

    flatten = ravel

    def reshape(self, *shape):
        return self.ravel().reshape(*shape)

    def any(self):
        return self

    def all(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import symnp
        return symnp.ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.function_dispatch(func, args, kwargs)


def bexpr(x):
    """z3 Boolean of a truth-like value."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymNum):
        return x.e != 0
    if isinstance(x, SymBV):
        return x.e != 0
    return z3.BoolVal(bool(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return hash(bool(self))

    def __bool__(self):
        return ctx().fork(self.e)

    def __and__(self, o):
        if _isarr(o):
            return NotImplemented
        if isinstance(o, (SymBool, bool, numpy.bool_)):
            return mkbool(z3.simplify(z3.And(self.e, bexpr(o))))
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if _isarr(o):
            return NotImplemented
        if isinstance(o, (SymBool, bool, numpy.bool_)):
            return mkbool(z3.simplify(z3.Or(self.e, bexpr(o))))
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if _isarr(o):
            return NotImplemented
        return mkbool(z3.simplify(z3.Xor(self.e, bexpr(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.simplify(z3.Not(self.e)))

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, (SymBool, bool, numpy.bool_)):
            return mkbool(z3.simplify(self.e == bexpr(o)))
        if _isarr(o):
            return NotImplemented
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    dtype = numpy.dtype(bool)

    def astype(self, dtype):
        from . import symnp
        return symnp.cast(self, numpy.dtype(symnp.dt(dtype)))


def _boolarith(name):
    def f(self, o):
        return getattr(self.as_int(), name)(o)
    f.__name__ = name
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__floordiv__',
           '__rfloordiv__', '__mod__', '__rmod__', '__pow__', '__rpow__', '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(SymBool, _n, _boolarith(_n))
SymBool.__neg__ = lambda self: -self.as_int()
SymBool.__abs__ = lambda self: self.as_int()


def _isarr(o):
    return isinstance(o, numpy.ndarray)


def not_(x):
    if isinstance(x, SymBool):
        return ~x
    if isinstance(x, Sym):
        return mkbool(z3.simplify(z3.Not(bexpr(x))))
    return not x


def and_(*xs):
    es = []
    for x in xs:
        if isinstance(x, Sym):
            es.append(bexpr(x))
        elif not x:
            return False
    return mkbool(z3.simplify(z3.And(*es))) if es else True


def or_(*xs):
    es = []
    for x in xs:
        if isinstance(x, Sym):
            es.append(bexpr(x))
        elif x:
            return True
    return mkbool(z3.simplify(z3.Or(*es))) if es else False


def implies(a, b):
    return or_(not_(a), b)


def plain(x):
    """Python scalar for a numpy one."""
    if isinstance(x, numpy.generic):
        return x.item()
    if isinstance(x, numpy.ndarray) and x.ndim == 0:
        return x.item()
    return x


def mkint(e):
    v = _num_value(e)
    return v if v is not None else SymInt(e)


def mkreal(e):
    if z3.is_rational_value(e):
        f = fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
        v = float(f)
        if math.isinf(v) or fractions.Fraction(v) != f:
            return SymReal(e)   # not a float exactly: keep the exact rational
        return v
    return SymReal(e)


def _ite(c, a, b):
    return z3.If(c, a, b)


def ite(c, a, b):
    """a if c else b, without forking when c is symbolic."""
    if not isinstance(c, Sym):
        return a if c else b
    ce = z3.simplify(bexpr(c))
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    a, b = plain(a), plain(b)
    if a is b:
        return a
    if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)):
        return a
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(z3.simplify(z3.If(ce, bexpr(a), bexpr(b))))
    if isinstance(a, SymBV) or isinstance(b, SymBV):
        n, s = (a.bits, a.signed) if isinstance(a, SymBV) else (b.bits, b.signed)
        return SymBV(z3.If(ce, bvexpr(a, n), bvexpr(b, n)), n, s)
    if _special(a) or _special(b) or not _numeric(a) or not _numeric(b):
        return a if ctx().fork(ce) else b
    if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
        return mkreal(z3.If(ce, rexpr(a), rexpr(b)))
    return mkint(z3.If(ce, iexpr(a), iexpr(b)))


def _special(x):
    return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


def _numeric(x):
    return isinstance(x, (SymNum, SymBool, bool, int, float, fractions.Fraction))


def iexpr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymBV):
        return z3.BV2Int(x.e, x.signed)
    if isinstance(x, (int, numpy.integer, numpy.bool_)):
        return z3.IntVal(int(x))
    raise Unsupported('integer term of %r' % type(x))


def rexpr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, SymBV):
        return z3.ToReal(z3.BV2Int(x.e, x.signed))
    if isinstance(x, fractions.Fraction):
        return real_const(x)
    x = plain(x)
    if isinstance(x, (int, float, bool)):
        if _special(x):
            raise Unsupported('nan or infinity in a real term')
        return real_const(x)
    raise Unsupported('real term of %r' % type(x))


class SymNum(Sym):
    __slots__ = ()

    def __bool__(self):
        return ctx().fork(self.e != 0)

    def __pos__(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self


def _is_intlike(o):
    return isinstance(o, (SymInt, SymBool, bool, int, numpy.integer, numpy.bool_))


def _other(o):
    """None when the operand is nothing we do arithmetic with."""
    if isinstance(o, (SymInt, SymReal, bool, int, float, fractions.Fraction)):
        return o
    if isinstance(o, SymBool):
        return o.as_int()
    if isinstance(o, numpy.generic):
        return o.item() if o.dtype.kind in 'biuf' else None
    if isinstance(o, SymBV):
        return SymInt(iexpr(o))
    return None


def _arith(name, swap=False):
    def f(self, o):
        if _isarr(o):
            return NotImplemented
        b = _other(o)
        if b is None:
            return NotImplemented
        return num_op(name, b, self) if swap else num_op(name, self, b)
    return f


def _cmp(name):
    def f(self, o):
        if o is None:
            if name == 'eq':
                return False
            if name == 'ne':
                return True
        if _isarr(o):
            return NotImplemented
        b = _other(o)
        if b is None:
            if name == 'eq':
                return False
            if name == 'ne':
                return True
            return NotImplemented
        return num_cmp(name, self, b)
    return f


def num_cmp(name, a, b):
    if _special(a) or _special(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[name]
        # a symbolic value is always finite in this model
        x, flip = (b, False) if _special(b) else (a, True)
        if math.isnan(x):
            return name == 'ne'
        if name in ('eq', 'ne'):
            return name == 'ne'
        less = x > 0
        if flip:
            less = not less
        return less if name in ('lt', 'le') else not less
    if _is_intlike(a) and _is_intlike(b):
        x, y = iexpr(a), iexpr(b)
    else:
        x, y = rexpr(a), rexpr(b)
        if _forms():
            x, y = compare_forms(x, y)
    e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y,
         'ge': lambda: x >= y}[name]()
    return mkbool(z3.simplify(e))


def _forms():
    return CTX is not None and CTX.forms is not None


def compare_forms(x, y):
    """Both sides times the denominator of their difference."""
    forms = ctx().forms
    f = forms.form(z3.simplify(x - y))
    if f is None:
        return x, y
    p, q = f
    num = forms.polynomial(p)
    if len(q) == 1 and () in q:
        return num, z3.RealVal(0)
    if not ctx().fork(z3.simplify(forms.polynomial(q) > 0)):
        num = z3.simplify(-num)
    return num, z3.RealVal(0)


def floor_e(e):
    return z3.ToInt(e)


def num_op(name, a, b):
    if _special(a) or _special(b):
        return _special_op(name, a, b)
    ints = _is_intlike(a) and _is_intlike(b)
    if name == 'add':
        if not isinstance(a, Sym) and a == 0 and (ints or isinstance(b, SymReal)):
            return b
        if not isinstance(b, Sym) and b == 0 and (ints or isinstance(a, SymReal)):
            return a
        return mkint(z3.simplify(iexpr(a) + iexpr(b))) if ints else mkreal(z3.simplify(rexpr(a) + rexpr(b)))
    if name == 'sub':
        if not isinstance(b, Sym) and b == 0 and (ints or isinstance(a, SymReal)):
            return a
        return mkint(z3.simplify(iexpr(a) - iexpr(b))) if ints else mkreal(z3.simplify(rexpr(a) - rexpr(b)))
    if name == 'mul':
        if ints:
            return mkint(z3.simplify(iexpr(a) * iexpr(b)))
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, Sym):
                if x == 0:
                    return 0.0
                if x == 1:
                    return y if isinstance(y, SymReal) else mkreal(rexpr(y))
        return mkreal(z3.simplify(rexpr(a) * rexpr(b)))
    if name == 'truediv':
        return true_div(a, b)
    if name == 'floordiv':
        return floor_div(a, b)
    if name == 'mod':
        if ints and isinstance(b, int) and b > 0:
            return mkint(div_const(iexpr(a), b)[1])
        q = floor_div(a, b)
        return a - q * b
    if name == 'pow':
        return power(a, b)
    if name in ('and', 'or', 'xor', 'lshift', 'rshift'):
        return int_bits(name, a, b)
    raise Unsupported(name)


def _special_op(name, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with numpy.errstate(all='ignore'):
            f = {'add': numpy.add, 'sub': numpy.subtract, 'mul': numpy.multiply, 'truediv': numpy.true_divide,
                 'floordiv': numpy.floor_divide, 'mod': numpy.mod, 'pow': numpy.power}[name]
            return float(f(float(a), float(b)))
    x = b if _special(b) else a
    if math.isnan(x):
        return float('nan')
    other = a if x is b else b
    if name == 'add':
        return x
    if name == 'sub':
        return -x if x is b else x
    if name == 'truediv' and x is b:
        return 0.0
    if name in ('mul', 'truediv'):
        if bool(other > 0):
            return x
        if bool(other < 0):
            return -x
        return float('nan') if name == 'mul' else x
    raise Unsupported('infinity in ' + name)


def true_div(a, b):
    if not isinstance(b, Sym):
        if b == 0:
            return _div_by_zero(a)
        if b == 1:
            return a if isinstance(a, SymReal) else mkreal(z3.simplify(rexpr(a)))
        return mkreal(z3.simplify(rexpr(a) / real_const(b)))
    zero = num_cmp('eq', b, 0)
    if zero is not False and bool(zero):
        return _div_by_zero(a)
    if not isinstance(a, Sym) and a == 0:
        return 0.0
    if _forms():
        f = ctx().forms.form(z3.simplify(rexpr(a)) / z3.simplify(rexpr(b)))
        if f is not None:
            return mkreal(z3.simplify(ctx().forms.term(f)))
    return mkreal(z3.simplify(rexpr(a) / rexpr(b)))


def _div_by_zero(a):
    """numpy's answer (the value, without the warning)."""
    if bool(num_cmp('gt', a, 0)):
        return float('inf')
    if bool(num_cmp('lt', a, 0)):
        return float('-inf')
    return float('nan')


def int_terms(e):
    """({id: (term, coefficient)}, constant) of an integer term."""
    terms, const, todo = {}, 0, [(z3.simplify(e), 1)]
    while todo:
        t, k = todo.pop()
        if z3.is_int_value(t):
            const += k * t.as_long()
            continue
        if z3.is_add(t):
            todo.extend((c, k) for c in t.children())
            continue
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            todo.append((t.arg(1), k * t.arg(0).as_long()))
            continue
        old = terms.get(t.get_id(), (t, 0))
        terms[t.get_id()] = (t, old[1] + k)
    return [(t, k) for t, k in terms.values() if k], const


def _int_sum(terms, const):
    r = z3.IntVal(const)
    for t, k in terms:
        r = r + (t * k if k != 1 else t)
    return z3.simplify(r)


def div_const(e, n):
    """(e // n, e % n) for a positive constant n, multiples of n taken out of the division."""
    terms, const = int_terms(e)
    whole = [(t, k // n) for t, k in terms if k // n]
    rest = [(t, k % n) for t, k in terms if k % n]
    c = const % n
    if not rest:
        return _int_sum(whole, const // n), z3.IntVal(c)
    g = math.gcd(n, *[k for _, k in rest])
    if g > 1:
        inner, m, low = _int_sum([(t, k // g) for t, k in rest], c // g), n // g, c % g
        q = z3.simplify(inner / m)
        return z3.simplify(_int_sum(whole, const // n) + q), z3.simplify((inner % m) * g + low)
    inner = _int_sum(rest, c)
    return z3.simplify(_int_sum(whole, const // n) + inner / n), z3.simplify(inner % n)


def floor_div(a, b):
    ints = _is_intlike(a) and _is_intlike(b)
    if not isinstance(b, Sym) and b == 0:
        raise ZeroDivisionError('division by zero')
    if isinstance(b, Sym) and bool(b == 0):
        raise ZeroDivisionError('division by zero')
    if ints:
        x, y = iexpr(a), iexpr(b)
        if isinstance(b, Sym):
            positive = bool(b > 0)
        else:
            positive = b > 0
        if not isinstance(b, Sym) and isinstance(b, int) and b > 0:
            return mkint(div_const(x, b)[0])
        # z3's integer division rounds down for a positive divisor
        return mkint(z3.simplify(x / y if positive else (-x) / (-y)))
    return mkreal(z3.simplify(z3.ToReal(z3.ToInt(rexpr(a) / rexpr(b)))))


def power(a, b):
    if isinstance(b, Sym):
        raise Unsupported('symbolic exponent')
    if b == 0.5:
        return sqrt(a)
    if b == -0.5:
        return 1.0 / sqrt(a)
    if float(b) != int(b):
        raise Unsupported('fractional power')
    n = int(b)
    if n < 0:
        return 1.0 / power(a, -n)
    r = 1.0 if isinstance(a, SymReal) or isinstance(b, float) else 1
    for _ in range(n):
        r = r * a
    return r


def int_bits(name, a, b):
    if not (_is_intlike(a) and _is_intlike(b)):
        raise TypeError('bit operation on a float')
    if name == 'lshift' and not isinstance(b, Sym):
        return a * (1 << b)
    if name == 'rshift' and not isinstance(b, Sym):
        return floor_div(a, 1 << b)
    if name == 'and':
        for x, y in ((a, b), (b, a)):
            if not isinstance(y, Sym) and y >= 0 and (y & (y + 1)) == 0:
                return mkint(z3.simplify(iexpr(x) % (y + 1)))
    # general case through 64-bit vectors (two's complement)
    x, y = z3.Int2BV(iexpr(a), 64), z3.Int2BV(iexpr(b), 64)
    e = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[name]()
    return mkint(z3.simplify(z3.BV2Int(e, True)))


for _cls_ops in (('__add__', 'add', False), ('__radd__', 'add', True), ('__sub__', 'sub', False), ('__rsub__', 'sub', True),
                 ('__mul__', 'mul', False), ('__rmul__', 'mul', True), ('__truediv__', 'truediv', False),
                 ('__rtruediv__', 'truediv', True), ('__floordiv__', 'floordiv', False), ('__rfloordiv__', 'floordiv', True),
                 ('__mod__', 'mod', False), ('__rmod__', 'mod', True), ('__pow__', 'pow', False), ('__rpow__', 'pow', True),
                 ('__and__', 'and', False), ('__rand__', 'and', True), ('__or__', 'or', False), ('__ror__', 'or', True),
                 ('__xor__', 'xor', False), ('__rxor__', 'xor', True), ('__lshift__', 'lshift', False),
                 ('__rshift__', 'rshift', False)):
    setattr(SymNum, _cls_ops[0], _arith(_cls_ops[1], _cls_ops[2]))
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(SymNum, '__%s__' % _n, _cmp(_n))
SymNum.__divmod__ = lambda self, o: (self // o, self % o)
SymNum.__rdivmod__ = lambda self, o: (o // self, o % self)


class SymInt(SymNum):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return hash(ctx().concretize(self.e))

    def __neg__(self):
        return mkint(z3.simplify(-self.e))

    def __abs__(self):
        return mkint(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)))

    def __invert__(self):
        return -self - 1

    def __index__(self):
        return ctx().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(ctx().concretize(self.e))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    dtype = numpy.dtype(numpy.int64)

    def astype(self, dtype):
        from . import symnp
        return symnp.cast(self, numpy.dtype(symnp.dt(dtype)))


numbers.Integral.register(SymInt)


class SymReal(SymNum):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def __neg__(self):
        return mkreal(z3.simplify(-self.e))

    def __abs__(self):
        c = z3.simplify(self.e >= 0)
        if z3.is_true(c):
            return self
        if z3.is_false(c):
            return -self
        return mkreal(z3.If(c, self.e, -self.e))

    def __int__(self):
        return ctx().concretize(trunc(self).e) if isinstance(trunc(self), Sym) else trunc(self)

    def __float__(self):
        raise Unsupported('a symbolic real reached code that needs a machine float')

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return mkint(z3.simplify(floor_e(self.e)))

    def __ceil__(self):
        return mkint(z3.simplify(-floor_e(-self.e)))

    def __round__(self, n=None):
        return rint(self)

    def is_integer(self):
        return mkbool(z3.simplify(z3.IsInt(self.e)))

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    dtype = numpy.dtype(numpy.float64)

    def astype(self, dtype):
        from . import symnp
        return symnp.cast(self, numpy.dtype(symnp.dt(dtype)))


numbers.Real.register(SymReal)


def trunc(x):
    if isinstance(x, SymReal):
        return mkint(z3.simplify(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))))
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymBV):
        return SymInt(iexpr(x))
    if isinstance(x, Sym):
        return x
    return int(x)


def floor(x):
    """numpy.floor: a float."""
    if isinstance(x, SymReal):
        return mkreal(z3.simplify(z3.ToReal(floor_e(x.e))))
    if isinstance(x, Sym):
        return mkreal(rexpr(x))
    return float(math.floor(x)) if not _special(plain(x)) else plain(x)


def ceil(x):
    if isinstance(x, SymReal):
        return mkreal(z3.simplify(z3.ToReal(-floor_e(-x.e))))
    if isinstance(x, Sym):
        return mkreal(rexpr(x))
    return float(math.ceil(x)) if not _special(plain(x)) else plain(x)


def rint(x):
    """Round half to even, as numpy."""
    if isinstance(x, SymReal):
        f = floor_e(x.e)
        d = x.e - z3.ToReal(f)
        h = z3.RealVal('1/2')
        r = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return mkreal(z3.simplify(z3.ToReal(r)))
    if isinstance(x, Sym):
        return mkreal(rexpr(x))
    return float(numpy.rint(x))


def round_half_away(x, ndigits=0):
    """Python 2's round."""
    scale = fractions.Fraction(10) ** int(ndigits)
    y = rexpr(x) * real_const(scale)
    h = z3.RealVal('1/2')
    r = z3.If(y >= 0, z3.ToReal(z3.ToInt(y + h)), -z3.ToReal(z3.ToInt(-y + h)))
    return mkreal(z3.simplify(r / real_const(scale)))


# -- transcendental functions: uninterpreted, with the algebra that the code's identities need ----------------------
def _memo(kind, e, make):
    c = ctx()
    e = z3.simplify(e, som=True)
    key = (kind, e.get_id())
    hit = c.memo.get(key)
    if hit is None:
        hit = (e, make(e))
        c.memo[key] = hit
    return hit[1]


def plainly_nonnegative(e):
    """True for sums and products of squares, roots and constants that are not negative."""
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    if z3.is_const(e):
        return e.decl().name().split('!')[0] in ('sqrt', 'exp') and '!' in e.decl().name()
    if z3.is_add(e):
        return all(plainly_nonnegative(c) for c in e.children())
    if z3.is_mul(e) or z3.is_div(e):
        odd, todo = {}, [e]
        while todo:
            t = todo.pop()
            if z3.is_mul(t) or z3.is_div(t):
                todo.extend(t.children())
            elif t.get_id() in odd:
                del odd[t.get_id()]
            else:
                odd[t.get_id()] = t
        return all(plainly_nonnegative(t) for t in odd.values())
    return False


def sqrt(x):
    if not isinstance(x, Sym):
        x = plain(x)
        if _special(x):
            return float(numpy.sqrt(x)) if not x < 0 else float('nan')
        return math.sqrt(x) if x >= 0 else float('nan')
    e = rexpr(x)
    if not plainly_nonnegative(e) and bool(mkbool(z3.simplify(e < 0))):
        return float('nan')

    def make(e):
        s = ctx().fresh_real('sqrt')
        ctx().add(z3.And(s >= 0, s * s == e))
        return s
    return SymReal(_memo('sqrt', e, make))


def linear_terms(e):
    """({variable term: Fraction}, constant) of a linear real term, or None."""
    e = z3.simplify(e, som=True)
    terms = {}
    const = fractions.Fraction(0)
    todo = [(e, fractions.Fraction(1))]
    while todo:
        t, k = todo.pop()
        if z3.is_rational_value(t):
            const += k * fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())
        elif z3.is_int_value(t):
            const += k * t.as_long()
        elif z3.is_add(t):
            todo.extend((c, k) for c in t.children())
        elif z3.is_sub(t):
            cs = t.children()
            todo.append((cs[0], k))
            todo.extend((c, -k) for c in cs[1:])
        elif z3.is_mul(t):
            num, rest = fractions.Fraction(1), []
            for c in t.children():
                if z3.is_rational_value(c):
                    num *= fractions.Fraction(c.numerator_as_long(), c.denominator_as_long())
                else:
                    rest.append(c)
            if not rest:
                const += k * num
            else:
                base = rest[0]
                for r in rest[1:]:
                    base = base * r
                base = z3.simplify(base)
                old = terms.get(base.get_id(), (base, fractions.Fraction(0)))
                terms[base.get_id()] = (base, old[1] + k * num)
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            todo.append((t.children()[0], -k))
        elif t.decl().kind() == z3.Z3_OP_TO_REAL:
            inner = t.children()[0]
            if z3.is_add(inner) or z3.is_mul(inner):
                pass
            old = terms.get(t.get_id(), (t, fractions.Fraction(0)))
            terms[t.get_id()] = (t, old[1] + k)
        else:
            old = terms.get(t.get_id(), (t, fractions.Fraction(0)))
            terms[t.get_id()] = (t, old[1] + k)
    return [(t, k) for t, k in terms.values() if k != 0], const


EXP_BASE = 2     # exp(v) is represented by the square of a positive variable exp(v/2)


def exp(x):
    """exp as a positive function with exp(a+b) = exp(a) exp(b) for linear arguments."""
    if not isinstance(x, Sym):
        return float(numpy.exp(plain(x)))
    terms, const = linear_terms(rexpr(x))
    result = z3.RealVal(1)
    if const != 0:
        result = real_const(math.exp(float(const)))
    for t, k in terms:
        back = ctx().memo.get(('unlog', t.get_id()))
        if back is not None and k.denominator == 1 and abs(k) <= 4:
            for _ in range(abs(int(k))):
                result = result * back[1] if k > 0 else result / back[1]
            continue
        n = k * EXP_BASE
        if n.denominator != 1 or abs(n) > 16:
            unit, n = t * real_const(k), 1
        else:
            unit, n = t / EXP_BASE, int(n)

        def make(u):
            s = ctx().fresh_real('exp')
            ctx().add(s > 0)
            f = z3.Function('EXP', z3.RealSort(), z3.RealSort())
            ctx().add(s == f(u))
            ctx().add(z3.And(s >= 1 + u, (u > 0) == (s > 1), (u < 0) == (s < 1)))
            for w, r in [v for k, v in ctx().memo.items() if k[0] == 'exp'][-4:]:
                ctx().add(z3.And((u < w) == (s < r), (u > w) == (s > r)))
            return s
        s = _memo('exp', unit, make)
        for _ in range(abs(n)):
            result = result * s if n > 0 else result / s
    return mkreal(z3.simplify(result))


def log(x):
    if not isinstance(x, Sym):
        with numpy.errstate(all='ignore'):
            return float(numpy.log(plain(x)))

    def make(e):
        s = ctx().fresh_real('log')
        ctx().add(s == z3.Function('LOG', z3.RealSort(), z3.RealSort())(e))
        ctx().memo[('unlog', s.get_id())] = (s, e)
        return s
    return SymReal(_memo('log', rexpr(x), make))


def _trig(x):
    def make(e):
        c = ctx()
        s, k = c.fresh_real('sin'), c.fresh_real('cos')
        c.add(s * s + k * k == 1)
        c.add(s == z3.Function('SIN', z3.RealSort(), z3.RealSort())(e))
        c.add(k == z3.Function('COS', z3.RealSort(), z3.RealSort())(e))
        return s, k
    return _memo('trig', rexpr(x), make)


def sin(x):
    return SymReal(_trig(x)[0]) if isinstance(x, Sym) else float(numpy.sin(plain(x)))


def cos(x):
    return SymReal(_trig(x)[1]) if isinstance(x, Sym) else float(numpy.cos(plain(x)))


def unary_uf(name, pyf):
    def f(x):
        if not isinstance(x, Sym):
            with numpy.errstate(all='ignore'):
                return float(pyf(plain(x)))

        def make(e):
            s = ctx().fresh_real(name)
            ctx().add(s == z3.Function(name.upper(), z3.RealSort(), z3.RealSort())(e))
            return s
        return SymReal(_memo(name, rexpr(x), make))
    return f


arccos = unary_uf('arccos', numpy.arccos)


def _angle(key, e, s, k, lo, hi):
    """An angle with this sine and cosine."""
    c = ctx()

    def make(e):
        t = c.fresh_real(key)
        c.add(z3.And(t >= real_const(lo), t <= real_const(hi)))
        c.memo[('trig', t.get_id())] = (t, (s, k))
        return t
    return SymReal(_memo(key, e, make))


def arcsin(x):
    if not isinstance(x, Sym):
        with numpy.errstate(all='ignore'):
            return float(numpy.arcsin(plain(x)))
    if bool(num_cmp('gt', x, 1)) or bool(num_cmp('lt', x, -1)):
        return float('nan')
    e = z3.simplify(rexpr(x))
    return _angle('arcsin', e, e, rexpr(sqrt(1 - x * x)), -math.pi / 2, math.pi / 2)


def arctan2(y, x):
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return float(numpy.arctan2(plain(y), plain(x)))
    r = sqrt(x * x + y * y)
    if not bool(num_cmp('gt', r, 0)):
        return 0.0
    return _angle('arctan2', z3.simplify(rexpr(y) / rexpr(r) + 2 * rexpr(x) / rexpr(r)), rexpr(y) / rexpr(r), rexpr(x) / rexpr(r), -math.pi, math.pi)


def degrees(x):
    return mkreal(z3.simplify(rexpr(x) / real_const(math.pi / 180.0))) if isinstance(x, Sym) else float(numpy.degrees(plain(x)))


def radians(x):
    return mkreal(z3.simplify(rexpr(x) * real_const(math.pi / 180.0))) if isinstance(x, Sym) else float(numpy.radians(plain(x)))


arctan = unary_uf('arctan', numpy.arctan)
tan = unary_uf('tan', numpy.tan)


# -- machine words -------------------------------------------------------------------------------------------------
def bvexpr(x, bits):
    if isinstance(x, SymBV):
        if x.bits == bits:
            return x.e
        if x.bits > bits:
            return z3.Extract(bits - 1, 0, x.e)
        return (z3.SignExt if x.signed else z3.ZeroExt)(bits - x.bits, x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
    if isinstance(x, SymInt):
        return z3.Int2BV(x.e, bits)
    if isinstance(x, (int, numpy.integer, numpy.bool_)):
        return z3.BitVecVal(int(x), bits)
    raise Unsupported('machine word of %r' % type(x))


class SymBV(Sym):
    """Fixed-width integer (numpy uint16 flags, uint64 hashes ...)."""
    __slots__ = ('bits', 'signed')

    def __init__(self, e, bits, signed=False):
        self.e = z3.simplify(e)
        self.bits = bits
        self.signed = signed

    @property
    def dtype(self):
        return numpy.dtype('%s%d' % ('int' if self.signed else 'uint', self.bits))

    def astype(self, dtype):
        from . import symnp
        return symnp.cast(self, numpy.dtype(symnp.dt(dtype)))

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        v = ctx().concretize(self.e)
        if self.signed and v >= 1 << (self.bits - 1):
            v -= 1 << self.bits
        return v

    __int__ = __index__

    def __bool__(self):
        return ctx().fork(self.e != 0)

    def _bits(self, o):
        if isinstance(o, SymBV):
            return max(self.bits, o.bits)
        if isinstance(o, numpy.integer):
            return max(self.bits, o.dtype.itemsize * 8)
        return self.bits

    def _op(self, o, f):
        if _isarr(o):
            return NotImplemented
        if not isinstance(o, (SymBV, SymInt, SymBool, int, numpy.integer, numpy.bool_)):
            return NotImplemented
        n = self._bits(o)
        signed = self.signed or (isinstance(o, SymBV) and o.signed)
        e = f(bvexpr(self, n), bvexpr(o, n))
        r = SymBV(e, n, signed)
        v = _num_value(r.e)
        if v is None:
            return r
        if signed and v >= 1 << (n - 1):
            v -= 1 << n
        return r.dtype.type(v)

    def __and__(self, o):
        return self._op(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return self._op(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._op(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._op(o, lambda a, b: a << b)

    def __rlshift__(self, o):
        return self._op(o, lambda a, b: b << a)

    def __rshift__(self, o):
        return self._op(o, lambda a, b: (a >> b) if self.signed else z3.LShR(a, b))

    def __floordiv__(self, o):
        return self._op(o, lambda a, b: z3.UDiv(a, b))

    def __mod__(self, o):
        return self._op(o, lambda a, b: z3.URem(a, b))

    def __invert__(self):
        return SymBV(~self.e, self.bits, self.signed)

    def _cmp(self, o, name):
        if o is None:
            return name == 'ne'
        if _isarr(o):
            return NotImplemented
        if isinstance(o, (float, SymReal, numpy.floating)):
            return num_cmp(name, SymInt(iexpr(self)), plain(o))
        if isinstance(o, SymInt) or (isinstance(o, int) and not isinstance(o, bool) and (o >= 1 << self.bits or o < 0)):
            return num_cmp(name, SymInt(iexpr(self)), o)
        if not isinstance(o, (SymBV, SymBool, bool, int, numpy.integer, numpy.bool_)):
            return {'eq': False, 'ne': True}.get(name, NotImplemented)
        n = self._bits(o)
        a, b = bvexpr(self, n), bvexpr(o, n)
        if self.signed:
            e = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[name]
        else:
            e = {'eq': a == b, 'ne': a != b, 'lt': z3.ULT(a, b), 'le': z3.ULE(a, b), 'gt': z3.UGT(a, b),
                 'ge': z3.UGE(a, b)}[name]
        return mkbool(z3.simplify(e))

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')


def model_value(model, s):
    """Concrete Python value of a symbolic one under a model."""
    v = model.eval(s.e, model_completion=True)
    if isinstance(s, SymBool):
        return bool(z3.is_true(v))
    if isinstance(s, SymInt):
        return v.as_long()
    if isinstance(s, SymBV):
        n = v.as_long()
        return n - (1 << s.bits) if s.signed and n >= 1 << (s.bits - 1) else n
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())


# -- polynomials over atoms: normal forms, derivatives, and bounds that need linear arithmetic only -------------------
def laurent(e, memo=None):
    """{((atom id, exponent), ...): Fraction} of a real term and {atom id: atom}, or None.  Only exp variables (positive) may have negative exponents."""
    atoms = {}
    memo = {} if memo is None else memo

    def mul(p, q):
        r = {}
        for a, x in p.items():
            for b, y in q.items():
                d = dict(a)
                for v, n in b:
                    d[v] = d.get(v, 0) + n
                    if d[v] == 0:
                        del d[v]
                k = tuple(sorted(d.items()))
                r[k] = r.get(k, 0) + x * y
        return {k: v for k, v in r.items() if v != 0}

    def add(p, q, s=1):
        r = dict(p)
        for k, v in q.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r

    def positive(i):
        return i in atoms and z3.is_const(atoms[i]) and atoms[i].decl().name().startswith('exp!')

    def go(t):
        hit = memo.get(t.get_id())
        if hit is not None:
            if hit[2]:
                atoms.update(hit[2])
            return hit[1]
        before = set(atoms)
        r = step(t)
        memo[t.get_id()] = (t, r, dict(atoms))
        return r

    def step(t):
        if z3.is_rational_value(t):
            v = fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_int_value(t):
            return {(): fractions.Fraction(t.as_long())} if t.as_long() else {}
        if z3.is_add(t):
            r = {}
            for c in t.children():
                p = go(c)
                if p is None:
                    return None
                r = add(r, p)
            return r
        if z3.is_sub(t):
            cs = [go(c) for c in t.children()]
            if any(c is None for c in cs):
                return None
            r = cs[0]
            for c in cs[1:]:
                r = add(r, c, -1)
            return r
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            p = go(t.children()[0])
            return None if p is None else {k: -v for k, v in p.items()}
        if z3.is_mul(t):
            r = {(): fractions.Fraction(1)}
            for c in t.children():
                p = go(c)
                if p is None:
                    return None
                r = mul(r, p)
                if len(r) > 4000:
                    return None
            return r
        if z3.is_div(t):
            p, q = [go(c) for c in t.children()]
            if p is None or q is None or len(q) != 1:
                return None
            (m, c), = q.items()
            if any(not positive(v) for v, n in m):
                return None
            return mul(p, {tuple((v, -n) for v, n in m): 1 / c})
        if t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.children()[1]) and t.children()[1].denominator_as_long() == 1 \
                and 0 <= t.children()[1].numerator_as_long() <= 16:
            p = go(t.children()[0])
            if p is None:
                return None
            r = {(): fractions.Fraction(1)}
            for _ in range(t.children()[1].numerator_as_long()):
                r = mul(r, p)
            return r
        atoms[t.get_id()] = t
        return {((t.get_id(), 1),): fractions.Fraction(1)}

    r = go(e)
    return None if r is None else (r, atoms)


def derivative(e, x):
    """Term of the derivative of e in the variable x (outside of the borders of case distinctions)."""
    c = ctx()
    inner = {}
    for (kind, _), (u, made) in c.memo.items():
        for part in (made if isinstance(made, tuple) else (made,)):
            if kind == 'unlog' or not z3.is_const(part) or '!' not in part.decl().name():
                continue
            inner[part.get_id()] = (kind, u, made)
    memo = {}
    zero, one = z3.RealVal(0), z3.RealVal(1)

    def isz(t):
        return z3.is_rational_value(t) and t.numerator_as_long() == 0

    def d(t):
        hit = memo.get(t.get_id())
        if hit is None:
            hit = memo[t.get_id()] = (t, step(t))
        return hit[1]

    def times(a, b):
        return zero if isz(a) or isz(b) else a * b

    def plus(xs):
        xs = [v for v in xs if not isz(v)]
        return zero if not xs else xs[0] if len(xs) == 1 else z3.Sum(*xs)

    def step(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return zero
        if t.eq(x):
            return one
        if t.get_id() in inner:
            kind, u, made = inner[t.get_id()]
            du = d(u)
            if isz(du):
                return zero
            if kind == 'exp':
                return times(t, du)
            if kind == 'sqrt':
                return du / (2 * t)
            if kind == 'log':
                return du / u
            if kind == 'trig':
                return times(made[1], du) if t.eq(made[0]) else -times(made[0], du)
            raise Unsupported('derivative of %s' % kind)
        if z3.is_const(t):
            return zero
        cs = t.children()
        if z3.is_add(t):
            return plus([d(k) for k in cs])
        if z3.is_sub(t):
            r = d(cs[0])
            for k in cs[1:]:
                r = r - d(k)
            return r
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return -d(cs[0])
        if z3.is_mul(t):
            parts = []
            for i in range(len(cs)):
                p = d(cs[i])
                for j in range(len(cs)):
                    if j != i:
                        p = times(p, cs[j])
                parts.append(p)
            return plus(parts)
        if z3.is_div(t):
            a, b = cs
            da, db = d(a), d(b)
            return plus([zero if isz(da) else da / b, zero if isz(db) else -(a * db) / (b * b)])
        if t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(cs[0], d(cs[1]), d(cs[2]))
        if t.decl().kind() == z3.Z3_OP_TO_REAL:
            return zero
        if t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(cs[1]):
            return times(cs[1] * cs[0] ** (cs[1] - 1), d(cs[0]))
        raise Unsupported('derivative of %s' % t.decl())
    return d(e)
