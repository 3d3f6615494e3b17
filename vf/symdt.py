"""datetime, timedelta and relativedelta over symbolic integers (proleptic Gregorian calendar, microsecond resolution)."""

import calendar as _cal
import datetime as _dt
import types

from . import core, symnp
from .core import Sym, SymInt, SymBool, SymReal, Unsupported, ite, and_, or_, mkint, plain

DAY_US = 86400 * 1000000


def _int(x):
    """Whole number from what datetime accepts as one."""
    if isinstance(x, Sym):
        if isinstance(x, SymReal):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return SymInt(core.iexpr(x)) if not isinstance(x, SymInt) else x
    if isinstance(x, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(x)


def _s(x):
    """Simplified, and a plain number when constant."""
    if isinstance(x, Sym):
        return plain(mkint(core.z3.simplify(core.iexpr(x))))
    return x


def is_leap(y):
    return or_(and_(y % 4 == 0, y % 100 != 0), y % 400 == 0)


def days_in_month(y, m):
    return _s(ite(m == 2, ite(is_leap(y), 29, 28), ite(or_(m == 4, m == 6, m == 9, m == 11), 30, 31)))


def days_before_month(y, m):
    """Days before month m of year y, without products of symbolic terms."""
    r = 0
    table = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    for k in range(12, 0, -1):
        r = ite(m == k, table[k - 1], r) if not (isinstance(r, int) and r == 0 and k == 12) else table[11]
    return r + ite(and_(m > 2, is_leap(y)), 1, 0)


def ordinal(y, m, d):
    if not any(isinstance(v, Sym) for v in (y, m, d)):
        return _dt.date(y, m, d).toordinal()
    y1 = y - 1
    return _s(y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 + days_before_month(y, m) + d)


class timedelta(object):
    """Held as whole days d and microseconds r of a day, 0 <= r < one day."""

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        parts = []
        for v, unit in ((days, DAY_US), (seconds, 10**6), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * 10**6),
                        (hours, 3600 * 10**6), (weeks, 7 * DAY_US)):
            if isinstance(v, symnp.SymArray):
                v = v.item()
            if isinstance(v, SymReal):
                whole = core.mkint(core.z3.simplify(core.rexpr(v))) if core.z3.is_int(v.e) else _integer_of(v)
                if whole is not None:
                    parts.append((whole, unit))
                else:
                    parts.append((SymInt(core.z3.simplify(core.z3.ToInt(core.rexpr(core.rint(v * unit))))), 1))
            elif isinstance(v, Sym):
                parts.append((_int(v), unit))
            elif isinstance(v, float):
                name = {DAY_US: 'days', 10**6: 'seconds', 1: 'microseconds', 1000: 'milliseconds', 60 * 10**6: 'minutes', 3600 * 10**6: 'hours',
                        7 * DAY_US: 'weeks'}[unit]
                parts.append((_dt.timedelta(**{name: v}) // _dt.timedelta(microseconds=1), 1))
            else:
                parts.append((int(v), unit))
        total = 0
        d = 0
        for v, unit in parts:
            if unit % DAY_US == 0:
                d = d + v * (unit // DAY_US)
            else:
                total = total + v * unit
        self.d, self.r = _s(d + total // DAY_US), _s(total % DAY_US)

    @classmethod
    def _of(cls, us):
        return cls._dr(us // DAY_US, us % DAY_US)

    @classmethod
    def _dr(cls, d, r):
        x = cls.__new__(cls)
        x.d, x.r = _s(d), _s(r)
        return x

    @property
    def us(self):
        return _s(self.d * DAY_US + self.r)

    @property
    def days(self):
        return self.d

    @property
    def seconds(self):
        return _s(self.r // 10**6)

    @property
    def microseconds(self):
        return _s(self.r % 10**6)

    def total_seconds(self):
        us = self.us
        return core.true_div(us, 10**6) if isinstance(us, Sym) else us / 10**6

    def __add__(self, o):
        if isinstance(o, timedelta):
            r = self.r + o.r
            over = r >= DAY_US
            return timedelta._dr(self.d + o.d + ite(over, 1, 0), r - ite(over, DAY_US, 0))
        if isinstance(o, datetime):
            return o + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o) if isinstance(o, timedelta) else NotImplemented

    def __neg__(self):
        zero = self.r == 0
        return timedelta._dr(ite(zero, -self.d, -self.d - 1), ite(zero, 0, DAY_US - self.r))

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return timedelta._of(self.us * o)
        if isinstance(o, (float, SymReal)):
            return timedelta(microseconds=self.us * o * 1.0)
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return timedelta._of(self.us // o) if isinstance(o, (int, SymInt)) else _s(self.us // o.us)

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return core.true_div(self.us, o.us) if isinstance(self.us, Sym) or isinstance(o.us, Sym) else self.us / o.us
        v = core.rint(core.true_div(self.us, o)) if isinstance(self.us, Sym) or isinstance(o, Sym) else None
        if v is None:
            return timedelta._of(_dt.timedelta(microseconds=self.us) / o // _dt.timedelta(microseconds=1))
        return timedelta._of(SymInt(core.z3.ToInt(core.rexpr(v))))

    def _c(name):
        def f(self, o):
            return core.num_cmp(name, self.us, o.us) if isinstance(o, timedelta) else NotImplemented
        return f
    __lt__, __le__, __gt__, __ge__ = map(_c, ('lt', 'le', 'gt', 'ge'))

    def __eq__(self, o):
        return and_(self.d == o.d, self.r == o.r) if isinstance(o, timedelta) else False

    def __ne__(self, o):
        return core.not_(self == o)

    __hash__ = None

    def __abs__(self):
        return -self if bool(self.d < 0) else self

    def __bool__(self):
        return bool(self.us != 0)

    def __repr__(self):
        return 'timedelta(%s, %s)' % (self.d, self.r)


def _integer_of(v):
    """The integer a real term obviously is (a converted integer), or None."""
    e = core.z3.simplify(v.e)
    if e.decl().kind() == core.z3.Z3_OP_TO_REAL:
        return SymInt(e.arg(0))
    return None


class datetime(object):
    """As datetime.datetime; the fields may be symbolic."""

    __slots__ = ('ymd', 'day_number', 'us')

    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        if month is None or day is None:
            raise TypeError("function missing required argument")
        year, month, day, hour, minute, second, microsecond = [_int(v) for v in (year, month, day, hour, minute, second, microsecond)]
        for v, lo, hi, what in ((year, 1, 9999, 'year is out of range'), (month, 1, 12, 'month must be in 1..12'), (hour, 0, 23, 'hour must be in 0..23'),
                                (minute, 0, 59, 'minute must be in 0..59'), (second, 0, 59, 'second must be in 0..59'),
                                (microsecond, 0, 999999, 'microsecond must be in 0..999999')):
            if not and_(v >= lo, v <= hi):
                raise ValueError(what)
        if not and_(day >= 1, day <= days_in_month(year, month)):
            raise ValueError('day is out of range for month')
        self.ymd = (year, month, day)
        self.day_number = ordinal(year, month, day)
        self._remember()
        self.us = _s(((hour * 60 + minute) * 60 + second) * 10**6 + microsecond)

    @classmethod
    def _of(cls, days, us):
        r = cls.__new__(cls)
        r.day_number, r.us = _s(days), _s(us)
        r.ymd = None
        if not isinstance(r.day_number, Sym):
            d = _dt.date.fromordinal(r.day_number)
            r.ymd = (d.year, d.month, d.day)
        elif not and_(r.day_number >= 1, r.day_number <= 3652059):
            raise OverflowError('date value out of range')
        return r

    def _remember(self):
        """The same day reached by arithmetic later on gets the same year, month and day."""
        if isinstance(self.day_number, Sym) and core.CTX is not None:
            e = core.z3.simplify(self.day_number.e)
            core.CTX.memo.setdefault(('ymd', e.get_id()), self.ymd + (e,))

    def _civil(self):
        if self.ymd is None:
            c = core.ctx()
            key = ('ymd', core.z3.simplify(self.day_number.e).get_id())
            if key not in c.memo:
                y, m, d = [SymInt(c.fresh_int(t)) for t in ('year', 'month', 'day')]
                # year bounds that follow from the ordinal: keep the solver's search small
                for cond in (m >= 1, m <= 12, d >= 1, d <= days_in_month(y, m), y >= 1, y <= 9999, ordinal(y, m, d) == self.day_number):
                    c.add(core.bexpr(cond))
                c.memo[key] = (y, m, d, core.z3.simplify(self.day_number.e))
            self.ymd = c.memo[key][:3]
        return self.ymd

    year = property(lambda self: self._civil()[0])
    month = property(lambda self: self._civil()[1])
    day = property(lambda self: self._civil()[2])
    hour = property(lambda self: _s(self.us // (3600 * 10**6)))
    minute = property(lambda self: _s(self.us // (60 * 10**6) % 60))
    second = property(lambda self: _s(self.us // 10**6 % 60))
    microsecond = property(lambda self: _s(self.us % 10**6))
    tzinfo = None

    def replace(self, **k):
        f = dict(year=self.year, month=self.month, day=self.day, hour=self.hour, minute=self.minute, second=self.second,
                 microsecond=self.microsecond)
        f.update(k)
        return datetime(**f)

    def toordinal(self):
        return self.day_number

    def date(self):
        return date(self.year, self.month, self.day)

    def time(self):
        raise Unsupported('datetime.time')

    def weekday(self):
        return _s((self.day_number + 6) % 7)

    def concrete(self):
        if isinstance(self.day_number, Sym) or isinstance(self.us, Sym):
            raise Unsupported('symbolic datetime where a concrete one is needed')
        return _dt.datetime.fromordinal(self.day_number) + _dt.timedelta(microseconds=self.us)

    @classmethod
    def of(cls, t):
        return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)

    def strftime(self, fmt):
        return self.concrete().strftime(fmt)

    def timetuple(self):
        v = [symnp._ix(x) for x in (self.year, self.month, self.day, self.hour, self.minute, self.second)]
        return _dt.datetime(*v).timetuple()

    def isoformat(self, sep='T'):
        if not isinstance(self.day_number, Sym) and not isinstance(self.us, Sym):
            return self.concrete().isoformat(sep)
        parts = digits(self.year, 4) + ['-'] + digits(self.month, 2) + ['-'] + digits(self.day, 2) + [sep] + digits(self.hour, 2) + [':'] + \
            digits(self.minute, 2) + [':'] + digits(self.second, 2)
        if bool(self.microsecond != 0):
            parts = parts + ['.'] + digits(self.microsecond, 6)
        return SymStr.of(parts)

    @staticmethod
    def strptime(text, fmt):
        from . import symtext
        if symtext.symbolic(text):
            text = SymStr.of([p if isinstance(p, str) else p - 48 for p in symtext.lift(text).parts])
        if not isinstance(text, SymStr) or all(isinstance(p, str) for p in text.parts):
            return datetime.of(_dt.datetime.strptime(str(text), fmt))
        names = {'Y': ('year', 4), 'm': ('month', 2), 'd': ('day', 2), 'H': ('hour', 2), 'M': ('minute', 2), 'S': ('second', 2)}
        fields, pos, i = {'year': 1900, 'month': 1, 'day': 1}, 0, 0
        while i < len(fmt):
            if fmt[i] == '%':
                if fmt[i + 1] not in names:
                    raise Unsupported('strptime %' + fmt[i + 1])
                name, n = names[fmt[i + 1]]
                v = 0
                whole = core.CTX.memo.get(('digits', tuple(id(p) for p in text.parts[pos:pos + n]))) if core.CTX is not None else None
                if whole is not None:       # all the digits of a number of so many digits: the number itself
                    fields[name] = whole[0]
                    pos, i = pos + n, i + 2
                    continue
                for p in text.parts[pos:pos + n]:
                    if isinstance(p, str) and not p.isdigit():
                        raise ValueError('time data does not match format')
                    v = v * 10 + (int(p) if isinstance(p, str) else p)
                fields[name] = v
                pos, i = pos + n, i + 2
            else:
                if text.parts[pos:pos + 1] != [fmt[i]]:
                    raise ValueError('time data does not match format')
                pos, i = pos + 1, i + 1
        if pos != len(text.parts):
            raise ValueError('unconverted data remains')
        return datetime(**fields)

    @staticmethod
    def now(tz=None):
        return datetime.of(_dt.datetime(2020, 1, 1))

    today = utcnow = now

    @staticmethod
    def fromordinal(n):
        return datetime._of(n, 0)

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        t = timedelta._dr(self.day_number, self.us) + o
        return datetime._of(t.d, t.r)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.datetime):
            o = datetime.of(o)
        if isinstance(o, datetime):
            r = self.us - o.us
            under = r < 0
            return timedelta._dr(self.day_number - o.day_number - ite(under, 1, 0), r + ite(under, DAY_US, 0))
        if isinstance(o, timedelta):
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        return datetime.of(o) - self if isinstance(o, _dt.datetime) else NotImplemented

    def _c(name):
        def f(self, o):
            if isinstance(o, _dt.datetime):
                o = datetime.of(o)
            if not isinstance(o, datetime):
                return NotImplemented
            return core.num_cmp(name, self.day_number * DAY_US + self.us, o.day_number * DAY_US + o.us)
        return f
    __lt__, __le__, __gt__, __ge__ = map(_c, ('lt', 'le', 'gt', 'ge'))

    def __eq__(self, o):
        if isinstance(o, _dt.datetime):
            o = datetime.of(o)
        if not isinstance(o, datetime):
            return False
        return and_(self.day_number == o.day_number, self.us == o.us)

    def __ne__(self, o):
        return core.not_(self == o)

    def __hash__(self):
        if isinstance(self.day_number, Sym) or isinstance(self.us, Sym):
            return 0x5eed      # equality decides
        return hash(self.concrete())

    def __repr__(self):
        return 'datetime(%s, %s)' % (self.day_number, self.us)


datetime.min = datetime(1, 1, 1)
datetime.max = datetime(9999, 12, 31, 23, 59, 59, 999999)


def date(y, m, d):
    return datetime(y, m, d)


class relativedelta(object):
    """dateutil's relativedelta for relative years, months and days, and the difference of two dates in whole months."""

    def __init__(self, dt1=None, dt2=None, years=0, months=0, days=0, weeks=0, hours=0, minutes=0, seconds=0, microseconds=0, **other):
        if other:
            raise Unsupported('relativedelta(%s)' % ', '.join(other))
        self.years, self.months, self.days = years, months, days + 7 * weeks
        self.rest = timedelta(hours=hours, minutes=minutes, seconds=seconds, microseconds=microseconds)
        if dt1 is not None or dt2 is not None:
            # whole months first, then the remaining days, as dateutil does
            n = (dt1.year - dt2.year) * 12 + (dt1.month - dt2.month)
            probe = dt2 + relativedelta(months=n)
            if bool(dt1 < dt2):
                if bool(dt1 > probe):
                    n = n + 1
            elif bool(dt1 < probe):
                n = n - 1
            rest = dt1 - (dt2 + relativedelta(months=n))
            sign = bool(n >= 0) if isinstance(n, Sym) else n >= 0
            self.years = _s(n // 12 if sign else -((-n) // 12))
            self.months = _s(n % 12 if sign else -((-n) % 12))
            self.days = rest.days
            self.rest = timedelta._of(rest.us - rest.days * DAY_US)

    def __neg__(self):
        r = relativedelta(years=-self.years, months=-self.months, days=-self.days)
        r.rest = -self.rest
        return r

    def __radd__(self, t):
        if isinstance(t, _dt.datetime):
            t = datetime.of(t)
        if not isinstance(t, datetime):
            return NotImplemented
        n = _s(t.month - 1 + self.months)
        y, m = _s(t.year + self.years + n // 12), _s(n % 12 + 1)
        d = t.day
        dim = days_in_month(y, m)
        d = ite(d > dim, dim, d)
        r = datetime._of(ordinal(y, m, d), t.us)
        r.ymd = (y, m, d)
        r._remember()
        return r + timedelta(days=self.days) + self.rest

    __add__ = __radd__

    def __rsub__(self, t):
        return (-self).__radd__(t)

    def __mul__(self, k):
        return relativedelta(years=self.years * k, months=self.months * k, days=self.days * k)

    __rmul__ = __mul__


def digits(n, width):
    """Decimal digits of n as terms, most significant first."""
    r = [n // 10**k % 10 if isinstance(n, Sym) else str(n // 10**k % 10) for k in range(width - 1, -1, -1)]
    if isinstance(n, Sym) and core.CTX is not None:
        core.CTX.memo[('digits', tuple(id(p) for p in r))] = (n, r)     # r is kept: the ids stay valid
    return r


class SymStr(str):
    """A string some of whose characters are decimal digits given by terms."""

    def __new__(cls, text=''):
        r = str.__new__(cls, text)
        r.parts = list(text.parts) if isinstance(text, SymStr) else list(text)
        return r

    @classmethod
    def of(cls, parts):
        r = str.__new__(cls, ''.join(p if isinstance(p, str) else '?' for p in parts))
        r.parts = list(parts)
        return r

    def __getitem__(self, i):
        p = self.parts[i]
        return SymStr.of(p if isinstance(i, slice) else [p])

    def __add__(self, o):
        return SymStr.of(self.parts + SymStr(o).parts)

    def __radd__(self, o):
        return SymStr.of(SymStr(o).parts + self.parts)

    def replace(self, old, new, count=-1):
        out, i, n = [], 0, len(old)
        while i < len(self.parts):
            if n and all(isinstance(p, str) for p in self.parts[i:i + n]) and ''.join(self.parts[i:i + n]) == old:
                out += SymStr(new).parts
                i += n
            else:
                out.append(self.parts[i])
                i += 1
        return SymStr.of(out)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        b = SymStr(o).parts
        if len(b) != len(self.parts):
            return False
        conds = []
        for x, y in zip(self.parts, b):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
                continue
            if isinstance(x, str) or isinstance(y, str):
                t, c = (y, x) if isinstance(x, str) else (x, y)
                if not c.isdigit():
                    return False
                conds.append(t == int(c))
            else:
                conds.append(x == y)
        return and_(*conds) if conds else True

    def __ne__(self, o):
        return core.not_(self == o)

    def __hash__(self):
        return 0x5eed       # one hash for all, so that dictionaries compare keys by the (symbolic) equality; every key must be a SymStr


module = types.ModuleType('datetime')
module.datetime, module.timedelta, module.date = datetime, timedelta, datetime
module.MINYEAR, module.MAXYEAR = 1, 9999


def to_real(x):
    """datetime from possibly concrete symbolic one."""
    return x.concrete() if isinstance(x, datetime) else x
