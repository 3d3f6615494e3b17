"""P01: conversions between calendar times and numbers are inverse to each other."""
from vf.api import harness

BASE = 'eumopps.timeutils.timebase'


@harness(dates=True, bounds='every second from 1850-01-01 to 2030-12-31, for every epoch at a whole second in the same range')
def seconds_round_trip(S):
    """Seconds since an epoch: time -> number -> time is the identity, the number is the elapsed whole seconds."""
    tb = S.module(BASE)
    epoch = S.datetime('epoch', hi=(2030, 12, 31))
    t = S.datetime('t', hi=(2030, 12, 31))
    base = tb.TimeBaseSeconds(epoch)
    n = base.datetime_to_number(t)
    S.eq(n * 1.0, (t - epoch).total_seconds(), 'the number is the elapsed time in seconds')
    S.check(base.number_to_datetime(n) == t, 'number_to_datetime undoes datetime_to_number')


@harness(dates=True, bounds='every whole number of seconds within +-6e9 of 1850-01-01')
def seconds_number_round_trip(S):
    """Seconds since an epoch: number -> time -> number is the identity."""
    tb = S.module(BASE)
    base = tb.TimeBaseSeconds(S.date_of(1850, 1, 1))
    n = S.int('n', -6 * 10**9, 6 * 10**9)
    S.eq(base.datetime_to_number(base.number_to_datetime(n)), n, 'datetime_to_number undoes number_to_datetime')


@harness(dates=True, bounds='every microsecond from 1850-01-01 to 2030-12-31, for every epoch at a whole second in the same range; 10 microseconds allowed for float64')
def days_round_trip(S):
    """Days since an epoch: the number is the elapsed time in days and converts back to the same time."""
    tb = S.module(BASE)
    epoch = S.datetime('epoch', hi=(2030, 12, 31))
    t = S.datetime('t', hi=(2030, 12, 31), resolution='microsecond')
    base = tb.TimeBaseDays(epoch)
    n = base.datetime_to_number(t)
    S.close(n * 86400.0, (t - epoch).total_seconds(), 'the number is the elapsed time in days')
    back = base.number_to_datetime(n)
    d = (back - t).total_seconds()
    S.check(S.and_(d <= 1e-5, d >= -1e-5), 'number_to_datetime undoes datetime_to_number')


@harness(dates=True, bounds='every time from 1850-01-01 to 2030-12-31 at whole seconds')
def epoch_functions(S):
    """The analysis epoch helpers agree with elapsed time since 1850-01-01 and are inverse to each other."""
    ep = S.module('eustace.timeutils.epoch')
    t = S.datetime('t', hi=(2030, 12, 31))
    zero = S.date_of(1850, 1, 1)
    S.close(ep.days_since_epoch(t) * 86400.0, (t - zero).total_seconds(), 'days since 1850-01-01')
    S.eq(ep.seconds_since_epoch(t) * 1.0, (t - zero).total_seconds(), 'seconds since 1850-01-01')
    S.check(ep.epoch_plus_seconds(ep.seconds_since_epoch(t)) == t, 'epoch_plus_seconds undoes seconds_since_epoch')
    d = (ep.epoch_plus_days(ep.days_since_epoch(t)) - t).total_seconds()
    S.check(S.and_(d <= 1e-5, d >= -1e-5), 'epoch_plus_days undoes days_since_epoch')


@harness(dates=True, bounds='every day from 1850-01-01 to 2030-12-31')
def epoch_days_whole(S):
    """Whole days count consecutively: each day has its own whole number, one more than the day before."""
    ep = S.module('eustace.timeutils.epoch')
    k = S.int('k', 0, 66000)
    t = ep.epoch_plus_days(k)
    S.eq(ep.days_since_epoch(t), k * 1.0, 'days_since_epoch undoes epoch_plus_days')
    S.check(ep.epoch_plus_days(k + 1) - t == ep.epoch_plus_days(1) - ep.epoch_plus_days(0), 'consecutive numbers are consecutive days')


YEARS = [1849, 1850, 1900, 1904, 1999, 2000, 2015]


@harness(dates=True, bounds='epochs at the start of 1850 and 2000 (of January and December), times at any hour of the first 28 days of January, February and December of up to seven years, leap '
         'years and ends of centuries among them; a minute allowed for float32', params=['TimeBaseAnnual', 'TimeBaseMonthly'], max_paths=20000)
def periods_round_trip(S, which):
    """Years (months) since an epoch: the whole part counts the years (months), and the number converts back to the same time."""
    tb = S.module(BASE)
    y0 = S.choice('y0', [1850, 2000])
    y, m = S.choice('y', YEARS if which == 'TimeBaseAnnual' else [1849, 1900, 2000, 2015]), S.choice('m', [1, 2, 12])
    d, h = S.int('d', 1, 28), S.int('h', 0, 23)
    m0 = S.choice('m0', [1, 12]) if which == 'TimeBaseMonthly' else 1
    base = getattr(tb, which)(S.date_of(y0, m0, 1))
    t = S.date_of(y, m, d, h)
    n = base.datetime_to_number(t)
    whole = (y - y0) if which == 'TimeBaseAnnual' else (y - y0) * 12 + m - m0
    S.check(S.and_(n >= whole, n < whole + 1), 'the whole part is the number of complete periods')
    back = (base.number_to_datetime(n) - t).total_seconds()
    S.check(S.and_(back <= 60, back >= -60), 'number_to_datetime undoes datetime_to_number')


@harness(dates=True, bounds='epochs at any second of the first 28 days of January, February and December of seven years', params=['TimeBaseAnnual', 'TimeBaseMonthly'])
def periods_need_a_start(S, which):
    """Years (months) can only be counted from the start of a year (month)."""
    tb = S.module(BASE)
    y, m = S.choice('y', YEARS), S.choice('m', [1, 2, 12])
    d, secs = S.int('d', 1, 28), S.int('secs', 0, 86399)
    t = tb.TimeBaseSeconds(S.date_of(y, m, 1)).number_to_datetime((d - 1) * 86400 + secs)
    starts = S.and_(d == 1, secs == 0, S.or_(m == 1, which == 'TimeBaseMonthly'))
    r = S.attempt(getattr(tb, which), t)
    S.check(S.not_(starts) if r.raised else starts, 'refused exactly when not at the start of a period')
