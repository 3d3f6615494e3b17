"""Fractions of polynomials, with coefficients that differ by no more than rounding taken as equal.

Used where a harness asks for it (S.snap): concrete coordinates that are rounded roots make polynomials that are constant,
or proportional, but for the last digits.  Terms whose coefficient is below the given fraction of the largest of their
polynomial are dropped; the harness bounds its variables by about one."""
import fractions

from .core import z3



def _mul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            d = dict(a)
            for v, n in b:
                d[v] = d.get(v, 0) + n
            k = tuple(sorted(d.items()))
            r[k] = r.get(k, 0) + x * y
    return r


def _add(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
    return r


def _clean(p, snap, scale=None):
    top = max([abs(v) for v in p.values()] + [scale or 0]) if p else 0
    return {k: v for k, v in p.items() if v != 0 and abs(v) > snap * top}


def proportional(p, q, snap):
    """c with p = c q, or None."""
    if not q:
        return None
    if not p:
        return fractions.Fraction(0)
    k = max(q, key=lambda m: abs(q[m]))
    if k not in p:
        return None
    c = p[k] / q[k]
    top = max(abs(v) for v in p.values())
    for m in set(p) | set(q):
        if abs(p.get(m, 0) - c * q.get(m, 0)) > snap * top:
            return None
    return c


def value(t):
    return fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())


class Forms(object):
    def __init__(self, snap, limit=300):
        self.snap, self.limit = fractions.Fraction(snap), limit
        self.memo, self.atoms = {}, {}

    def norm(self, p, q, scale=None):
        p, q = _clean(p, self.snap, scale), _clean(q, self.snap)
        if not q:
            return None
        c = proportional(p, q, self.snap * 100)
        if c is not None:
            return ({(): c} if c else {}), {(): fractions.Fraction(1)}
        k = max(sorted(q), key=lambda m: abs(q[m]))
        d = q[k]
        return {m: v / d for m, v in p.items()}, {m: v / d for m, v in q.items()}

    def form(self, t):
        hit = self.memo.get(t.get_id())
        if hit is None:
            hit = (t, self._form(t))
            self.memo[t.get_id()] = hit
        return hit[1]

    def _sum(self, parts):
        p, q, scale = {}, {(): fractions.Fraction(1)}, 0
        for s, (a, b) in parts:
            c = proportional(b, q, self.snap)
            if c is not None:
                p = _add(p, a, s / c)
            else:
                p, q = _add(_mul(p, b), _mul(a, q), s), _mul(q, b)
            if len(p) > self.limit or len(q) > self.limit:
                return None
            scale = max([scale] + [abs(v) for v in p.values()])
        return self.norm(p, q, scale)

    def _form(self, t):
        one = {(): fractions.Fraction(1)}
        if z3.is_rational_value(t):
            v = value(t)
            return ({(): v} if v else {}), one
        if z3.is_add(t) or z3.is_sub(t):
            fs = [self.form(c) for c in t.children()]
            if any(f is None for f in fs):
                return None
            return self._sum([(-1 if k and z3.is_sub(t) else 1, f) for k, f in enumerate(fs)])
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            f = self.form(t.children()[0])
            return None if f is None else ({k: -v for k, v in f[0].items()}, f[1])
        if z3.is_mul(t):
            p, q = one, one
            for c in t.children():
                f = self.form(c)
                if f is None:
                    return None
                p, q = self._times(p, q, f[0], f[1])
                if len(p) > self.limit or len(q) > self.limit:
                    return None
            return self.norm(p, q)
        if z3.is_div(t):
            f, g = [self.form(c) for c in t.children()]
            if f is None or g is None or not g[0]:
                return None
            p, q = self._times(f[0], f[1], g[1], g[0])
            if len(p) > self.limit or len(q) > self.limit:
                return None
            return self.norm(p, q)
        if z3.is_const(t) and z3.is_real(t):
            self.atoms[t.get_id()] = t
            return {((t.get_id(), 1),): fractions.Fraction(1)}, one
        return None

    def _times(self, p, q, a, b):
        """p/q times a/b, common factors that show removed."""
        c = proportional(p, b, self.snap * 100)
        if c:
            p, b = {(): c}, {(): fractions.Fraction(1)}
        c = proportional(a, q, self.snap * 100)
        if c:
            a, q = {(): c}, {(): fractions.Fraction(1)}
        return _mul(p, a), _mul(q, b)

    def polynomial(self, p):
        ts = []
        for m in sorted(p):
            v = p[m]
            t = z3.RealVal(str(v))
            for a, n in m:
                for _ in range(n):
                    t = t * self.atoms[a]
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.simplify(z3.Sum(ts)) if len(ts) > 1 else z3.simplify(ts[0])

    def term(self, f):
        p, q = f
        if q == {(): 1}:
            return self.polynomial(p)
        return self.polynomial(p) / self.polynomial(q)

    def length(self, es):
        """(f, squared factor): the length of a vector is the root of the factor times the magnitude of f, or None."""
        fs = [self.form(e) for e in es]
        if any(f is None for f in fs):
            return None
        q = fs[0][1]
        for f in fs[1:]:
            if not f[0] or len(f[1]) == 1 and () in f[1] and len(q) > 1:
                continue
            if len(q) == 1 and () in q:
                q = f[1]
                continue
            if proportional(f[1], q, self.snap * 100) is None:
                return None
        ps = []
        for p, b in fs:
            c = proportional(b, q, self.snap * 100)
            if c:
                ps.append({k: v / c for k, v in p.items()})
            elif not p:
                ps.append({})
            elif len(b) == 1 and () in b:
                ps.append(_mul(p, q))
            else:
                return None
        tops = [max([abs(v) for v in p.values()] or [0]) for p in ps]
        top = max(tops)
        if not top:
            return ({}, {(): fractions.Fraction(1)}), 1
        main = ps[tops.index(top)]
        total = fractions.Fraction(0)
        for p in ps:
            c = proportional(_clean(p, self.snap * 100, top), main, self.snap * 1000)
            if c is None:
                return None
            total += c * c
        return self.norm(main, q), total
