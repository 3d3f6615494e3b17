"""Texts with symbolic characters, and the part of the `re` module that file name patterns use.

Each symbolic character stands in the text as one character of a private range of Unicode, so that whatever builds
plain strings of it (join, format, slices) keeps the place; `lift` finds the terms again.
"""
import re as _re
import types

from . import core
from .core import Sym, SymInt, and_, or_, not_, Unsupported

BASE = 0xF0000


def _table():
    return core.ctx().memo.setdefault('symtext', ([], {}))


def _mark(term):
    terms, known = _table()
    k = id(term)
    if k not in known:
        known[k] = len(terms)
        terms.append(term)
    return chr(BASE + known[k])


def symbolic(text):
    return isinstance(text, str) and any(ord(c) >= BASE for c in str.__str__(text))


def lift(text):
    return text if isinstance(text, SymName) else SymName(text)


def lift_made(x):
    """A text made of others, which may have symbolic characters."""
    return SymName(x) if type(x) is str and symbolic(x) else x


def code(p):
    return ord(p) if isinstance(p, str) else p


def plain(c):
    return chr(c) if not isinstance(c, Sym) else c


class SymName(str):
    """A string of known length whose characters may be terms (code points)."""

    def __new__(cls, text=''):
        r = str.__new__(cls, text)
        terms = _table()[0] if symbolic(text) else ()
        r.parts = [terms[ord(c) - BASE] if ord(c) >= BASE else c for c in str.__str__(text)]
        return r

    @classmethod
    def of(cls, parts):
        return cls(''.join(p if isinstance(p, str) else _mark(p) for p in parts))

    def __getitem__(self, i):
        return SymName(str.__getitem__(self, i))

    def __iter__(self):
        return iter([SymName(c) for c in str.__iter__(self)])

    def __add__(self, o):
        return SymName(str.__add__(self, o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return SymName(str.__add__(o, self))

    def replace(self, old, new, count=-1):
        if symbolic(old):
            raise Unsupported('replacing symbolic characters')
        for p in self.parts:
            if isinstance(p, Sym) and old and bool(p == ord(old[0])):
                raise Unsupported('replacing a symbolic character')
        return SymName(str.replace(str.__str__(self), old, new, count))

    def _case(self, lo, hi, shift):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p.lower() if shift > 0 else p.upper())
            else:
                out.append(core.ite(and_(p >= lo, p <= hi), p + shift, p))
        return SymName.of(out)

    def lower(self):
        return self._case(65, 90, 32)

    def upper(self):
        return self._case(97, 122, -32)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        b = lift(o).parts
        if len(b) != len(self.parts):
            return False
        conds = []
        for x, y in zip(self.parts, b):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
            elif x is not y:
                conds.append(code(x) == code(y))
        return and_(*conds) if conds else True

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        for x, y in zip(self.parts, lift(o).parts):
            if bool(code(x) < code(y)):
                return True
            if bool(code(x) > code(y)):
                return False
        return len(self) < len(o)

    def __gt__(self, o):
        return lift(o) < self if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return not lift(o) < self if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return not self < o if isinstance(o, str) else NotImplemented

    def __hash__(self):
        return hash(str.__str__(self)) if not symbolic(self) else 0x5eed

    def _at(self, k, text):
        text = lift(text)
        if k < 0 or k + len(text) > len(self):
            return False
        return self[k:k + len(text)] == text

    def startswith(self, prefix, *a):
        if a or isinstance(prefix, tuple):
            raise Unsupported('startswith')
        return bool(self._at(0, prefix))

    def endswith(self, suffix, *a):
        if a or isinstance(suffix, tuple):
            raise Unsupported('endswith')
        return bool(self._at(len(self) - len(suffix), suffix))

    def find(self, text, start=0, end=None):
        for k in range(start, len(self) - len(text) + 1 if end is None else end - len(text) + 1):
            if bool(self._at(k, text)):
                return k
        return -1

    def __contains__(self, text):
        return self.find(text) >= 0

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split at white space')
        out, rest = [], self
        while maxsplit != 0:
            k = rest.find(sep)
            if k < 0:
                break
            out.append(rest[:k])
            rest = rest[k + len(sep):]
            maxsplit -= 1
        return out + [rest]

    def isdigit(self):
        return bool(self.parts) and all(bool(and_(code(p) >= 48, code(p) <= 57)) for p in self.parts)

    def join(self, items):
        return SymName(str.join(str.__str__(self), [str.__str__(x) for x in items]))


def number(text, base=int):
    """int() of a text with symbolic characters."""
    v = 0
    if not lift(text).isdigit():
        raise ValueError('invalid literal for int()')
    for p in lift(text).parts:
        v = v * 10 + (code(p) - 48)
    return v


# -- regular expressions ------------------------------------------------------------------------------------------------
class Parser(object):
    def __init__(self, parts):
        self.p, self.i = parts, 0
        self.groups = 0
        self.names = {}

    def peek(self):
        c = self.p[self.i] if self.i < len(self.p) else None
        return c

    def take(self):
        c = self.p[self.i]
        self.i += 1
        return c

    def alt(self):
        options = [self.seq()]
        while self.peek() == '|':
            self.take()
            options.append(self.seq())
        return options[0] if len(options) == 1 else ('alt', options)

    def seq(self):
        items = []
        while self.i < len(self.p) and self.peek() not in ('|', ')'):
            items.append(self.repeat(self.atom()))
        return ('seq', items)

    def repeat(self, a):
        c = self.peek()
        if c not in ('*', '+', '?', '{') or isinstance(c, Sym):
            return a
        self.take()
        lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}.get(c, (None, None))
        if c == '{':
            text = ''
            while self.peek() != '}':
                text += self.take()
            self.take()
            lo, hi = (text.split(',') + [None])[:2] if ',' in text else (text, text)
            lo, hi = int(lo or 0), int(hi) if hi else None
        greedy = True
        if self.peek() == '?':
            self.take()
            greedy = False
        return ('rep', a, lo, hi, greedy)

    def klass(self, c):
        ranges = {'d': [(48, 57)], 'w': [(48, 57), (65, 90), (97, 122), (95, 95)], 's': [(32, 32), (9, 13)]}
        if c.lower() in ranges:
            return ('set', ranges[c.lower()], c.isupper())
        if c.isalnum():
            raise Unsupported('regular expression escape ' + c)
        return ('set', [(ord(c), ord(c))], False)

    def atom(self):
        c = self.take()
        if isinstance(c, Sym):
            return ('char', c)
        if c == '.':
            return ('set', [(10, 10)], True)
        if c == '\\':
            n = self.take()
            return ('end',) if n == 'Z' else self.klass(n)
        if c == '$':
            return ('end',)
        if c == '^':
            return ('start',)
        if c == '[':
            negate = False
            if self.peek() == '^':
                self.take()
                negate = True
            ranges = []
            while self.peek() != ']' or not ranges:
                a = self.take()
                if a == '\\':
                    ranges += self.klass(self.take())[1]
                    continue
                if self.peek() == '-' and self.p[self.i + 1] != ']':
                    self.take()
                    ranges.append((ord(a), ord(self.take())))
                else:
                    ranges.append((ord(a), ord(a)))
            self.take()
            return ('set', ranges, negate)
        if c == '(':
            name = index = None
            if self.peek() == '?':
                self.take()
                k = self.take()
                if k == 'P':
                    if self.take() != '<':
                        raise Unsupported('regular expression group')
                    name = ''
                    while self.peek() != '>':
                        name += self.take()
                    self.take()
                elif k != ':':
                    raise Unsupported('regular expression group')
                else:
                    index = -1
            if index is None:
                self.groups += 1
                index = self.groups
            if name is not None:
                if name in self.names:
                    raise _re.error('redefinition of group name %r' % name)
                self.names[name] = index
            body = self.alt()
            if self.i >= len(self.p) or self.take() != ')':
                raise _re.error('missing ), unterminated subpattern')
            return body if index < 0 else ('group', index, body)
        return ('char', c)


def _run(node, text, i, caps, k):
    """Whether the node matches at i and k(j, caps) then holds; the first way found, as a backtracking matcher tries them."""
    kind = node[0]
    if kind == 'seq':
        def step(n, j, c):
            return k(j, c) if n == len(node[1]) else _run(node[1][n], text, j, c, lambda j2, c2: step(n + 1, j2, c2))
        return step(0, i, caps)
    if kind == 'alt':
        for o in node[1]:
            r = _run(o, text, i, caps, k)
            if r is not None:
                return r
        return None
    if kind == 'char':
        if i < len(text) and bool(code(text[i]) == code(node[1])):
            return k(i + 1, caps)
        return None
    if kind == 'set':
        if i >= len(text):
            return None
        c = code(text[i])
        inside = or_(*[and_(c >= a, c <= b) for a, b in node[1]])
        return k(i + 1, caps) if bool(not_(inside) if node[2] else inside) else None
    if kind == 'end':
        return k(i, caps) if i == len(text) else None
    if kind == 'start':
        return k(i, caps) if i == 0 else None
    if kind == 'group':
        return _run(node[2], text, i, caps, lambda j, c: k(j, dict(c, **{str(node[1]): (i, j)})))
    _, a, lo, hi, greedy = node

    def more(n, j, c):
        def again():
            if hi is not None and n >= hi:
                return None
            return _run(a, text, j, c, lambda j2, c2: more(n + 1, j2, c2) if j2 > j else None)
        if n < lo:
            return again()
        for f in ((again, lambda: k(j, c)) if greedy else (lambda: k(j, c), again)):
            r = f()
            if r is not None:
                return r
        return None
    return more(0, i, caps)


class Match(object):
    def __init__(self, pattern, text, start, end, caps):
        self.re, self.string, self.a, self.b, self.caps = pattern, text, start, end, caps

    def _span(self, g):
        if g == 0:
            return self.a, self.b
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            g = self.re.groupindex[g]
        return self.caps.get(str(g), (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def group(self, *gs):
        out = [None if self._span(g)[0] < 0 else self.string[self._span(g)[0]:self._span(g)[1]] for g in (gs or (0,))]
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(g) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self.group(n) for n in self.re.groupindex}


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if flags:
            raise Unsupported('regular expression flags')
        self.pattern = pattern
        p = Parser(lift(pattern).parts)
        self.node = p.alt()
        if p.i != len(p.p):
            raise _re.error('unbalanced parenthesis')
        self.groups, self.groupindex = p.groups, p.names

    def _at(self, text, i, whole=False):
        text = lift(text)
        r = _run(self.node, text.parts, i, {}, lambda j, c: (j, c) if not whole or j == len(text) else None)
        return None if r is None else Match(self, text, i, r[0], r[1])

    def match(self, text):
        return self._at(text, 0)

    def fullmatch(self, text):
        return self._at(text, 0, True)

    def search(self, text):
        for i in range(len(text) + 1):
            m = self._at(text, i)
            if m is not None:
                return m


def escape(text):
    out = []
    for p in lift(text).parts:
        out += [_re.escape(p)] if isinstance(p, str) else [p]
    return SymName.of([c for x in out for c in x] if all(isinstance(x, str) for x in out) else [c for x in out for c in (list(x) if isinstance(x, str) else [x])])


def compile(pattern, flags=0):
    return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)


RE = types.ModuleType('re')
RE.compile, RE.escape, RE.error = compile, escape, _re.error
RE.match = lambda pattern, text, flags=0: compile(pattern, flags).match(text)
RE.search = lambda pattern, text, flags=0: compile(pattern, flags).search(text)
RE.fullmatch = lambda pattern, text, flags=0: compile(pattern, flags).fullmatch(text)
