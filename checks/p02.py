"""P02: step schedules map operation indices to times (and output names) one to one."""
from vf.api import harness

STEP = 'eumopps.catalogue.step'
EPOCHSTEP = 'eustace.analysis.advanced_standard.fileio.step'
EXSTEP = 'eustace.analysis.advanced_standard.examples.step'
MID = 'eustace.analysis.advanced_standard.examples.stepmidmonth'

RANGE = dict(lo=(1850, 1, 1), hi=(2030, 12, 31))


def civil(S, name, lo=1850, hi=2030, last=31):
    """Any day but 29 February, given by its calendar fields."""
    y, m, d = S.int(name + '.y', lo, hi), S.int(name + '.m', 1, 12), S.int(name + '.d', 1, last)
    S.assume(S.and_(S.or_(d <= 28, m != 2), S.or_(d <= 30, *[m == k for k in (1, 3, 5, 7, 8, 10, 12)])))
    return S.date_of(y, m, d), y, m


@harness(dates=True, bounds='start and end any whole days 1850..2030 with end not before start, every index of the schedule')
def daily_index_time(S):
    """Daily steps: index -> time -> index is the identity, steps are consecutive days from start to end inclusive."""
    m = S.module(STEP)
    start, end = S.datetime('start', resolution='day', **RANGE), S.datetime('end', resolution='day', **RANGE)
    S.assume(start <= end)
    step = m.StepDaily(start, end)
    n = step.count()
    S.check(n >= 1, 'at least one step')
    i = S.int('i', 0, 70000)
    S.assume(i < n)
    t = step.time_at_index(i)
    S.eq(step.index_at_time(t), i, 'index_at_time undoes time_at_index')
    S.check(S.and_(t >= start, t <= end), 'every step lies between start and end')
    S.check(step.time_at_index(0) == start, 'the first step is the start')
    S.check(step.time_at_index(n - 1) == end, 'the last step is the end')


@harness(dates=True, bounds='start any whole day 1850..2030, time any second of a day on or after the start')
def daily_time_of_day(S):
    """Daily steps: all times of a day belong to the step of that day."""
    m = S.module(STEP)
    start = S.datetime('start', resolution='day', **RANGE)
    day = S.datetime('day', resolution='day', **RANGE)
    S.assume(start <= day)
    secs = S.int('secs', 0, 86399)
    tb = S.module('eumopps.timeutils.timebase')
    t = tb.TimeBaseSeconds(day).number_to_datetime(secs)
    step = m.StepDaily(start, day)
    S.eq(step.index_at_time(t), step.index_at_time(day), 'one step per calendar day')


@harness(dates=True, bounds='start and end any whole days 1850..2030 with end not before start, every day between them')
def daily_epoch_index_time(S):
    """Daily steps numbered from the analysis epoch: number = days since 1850-01-01, and back."""
    m = S.module(EPOCHSTEP)
    start, end = S.datetime('start', resolution='day', **RANGE), S.datetime('end', resolution='day', **RANGE)
    S.assume(start <= end)
    step = m.StepDailyEpoch(start, end)
    day = S.datetime('day', resolution='day', **RANGE)
    S.assume(S.and_(start <= day, day <= end))
    i = step.index_at_time(day)
    S.check(step.time_at_index(i) == day, 'time_at_index undoes index_at_time')
    S.eq(i * 1.0, (day - S.date_of(1850, 1, 1)).total_seconds() / 86400.0, 'numbered from the epoch')
    S.eq(step.count(), step.index_at_time(end) - step.index_at_time(start) + 1, 'count covers start to end inclusive')


def _name(step, patterns, i):
    return step.create_output_entry(patterns, i).name


@harness(dates=True, bounds='start any whole day 1850..2030; any two indices of a schedule up to 70000 days; name patterns with year, month and day',
         params=['StepDaily', 'StepDailyEpoch'])
def daily_names_distinct(S, which):
    """Output names built from patterns that identify the step are different for different steps and carry the step's date."""
    m = S.module(STEP if which == 'StepDaily' else EPOCHSTEP)
    start = S.datetime('start', resolution='day', **RANGE)
    end = S.date_of(2041, 12, 31)
    step = getattr(m, which)(start, end)
    patterns = [S.text('a/%Y/'), S.text('b_%Y%m%d.nc')]
    S.check(step.is_uniquely_defined_by(patterns), 'year, month and day identify a day')
    i, j = S.int('i', 0, 70000), S.int('j', 0, 70000)
    S.assume(S.and_(i != j, step.time_at_index(i) <= end, step.time_at_index(j) <= end))
    S.check(S.not_(_name(step, patterns, i) == _name(step, patterns, j)), 'distinct steps have distinct names')
    e = step.create_output_entry(patterns, i)
    S.check(e.time == step.time_at_index(i), 'the entry carries the time of the step')


@harness(dates=True, bounds='start any whole day 1850..2030, end any second from the start on to 2030', params=['StepDaily', 'StepDailyEpoch'])
def daily_end_within_day(S, which):
    """Daily steps: an end within a day counts that day and nothing beyond it."""
    m = S.module(STEP if which == 'StepDaily' else EPOCHSTEP)
    start = S.datetime('start', resolution='day', **RANGE)
    end = S.datetime('end', **RANGE)
    S.assume(start <= end)
    step = getattr(m, which)(start, end)
    n, first = step.count(), step.index_at_time(start)
    S.check(step.time_at_index(first) == start, 'the first step is the start')
    S.check(step.time_at_index(first + n - 1) <= end, 'the last step is not after the end')
    S.check(step.time_at_index(first + n) > end, 'no step is missing at the end')


@harness(dates=True, bounds='start and end among four days, as times or as text', params=['StepDaily', 'StepDailyEpoch', 'StepAnnual', 'StepMonthly'])
def start_and_end_as_text(S, which):
    """Schedules from times and from their texts are the same; anything else is refused."""
    m = S.module({'StepDaily': STEP, 'StepDailyEpoch': EPOCHSTEP}.get(which, EXSTEP))
    days = [(1850, 1, 1), (1999, 12, 31), (2000, 2, 29), (2015, 7, 4)]
    a, b = S.choice('a', days), S.choice('b', days)
    S.assume(a <= b)
    text = lambda d: '%04d%02d%02d000000' % d
    give = lambda name, d: text(d) if S.fork_bool(name) else S.date_of(*d)
    step, want = getattr(m, which)(give('atext', a), give('btext', b)), getattr(m, which)(S.date_of(*a), S.date_of(*b))
    S.check(step.start == want.start, 'start')
    S.check(step.end == want.end, 'end')
    S.eq(step.count(), want.count(), 'count')
    S.raises(ValueError, lambda: getattr(m, which)(17, S.date_of(*b)), 'a number is not a time')


@harness(bounds='%Y, %m and %d or other fields that look alike in their places, in one or two pattern elements', params=['StepDaily', 'StepDailyEpoch', 'StepAnnual', 'StepMonthly'], dates=True)
def unique_patterns(S, which):
    """A pattern set counts as identifying a step only if every date field that tells steps apart occurs."""
    m = S.module({'StepDaily': STEP, 'StepDailyEpoch': EPOCHSTEP}.get(which, EXSTEP))
    parts = [S.choice('year', ['%Y', '', 'Y']), S.choice('month', ['%m', '', '%M', 'm']), S.choice('day', ['%d', '', '%D', '%H', 'd'])]
    y, mo, d = parts[0] == '%Y', parts[1] == '%m', parts[2] == '%d'
    split = S.choice('split', [0, 1, 2])
    parts = [p for p in parts if p]
    patterns = ['x' + ''.join(parts[:split]), ''.join(parts[split:]) + '.nc']
    step = getattr(m, which)(S.date_of(2000, 1, 1), S.date_of(2001, 1, 1))
    need = {'StepAnnual': y, 'StepMonthly': y and mo}.get(which, y and mo and d)
    S.eq(bool(step.is_uniquely_defined_by(patterns)), need, 'identifying patterns')


@harness(dates=True, bounds='start any day but 29 February 1850..2030, index up to 200')
def annual_index_time(S):
    """Annual steps: index i is the start of the i-th year after the starting year, and back."""
    m = S.module(EXSTEP)
    start, year, _ = civil(S, 'start')
    step = m.StepAnnual(start, S.date_of(2100, 6, 1))
    i = S.int('i', 0, 200)
    t = step.time_at_index(i)
    S.check(t == S.date_of(year + i, 1, 1), 'steps are the starts of consecutive years')
    S.eq(step.index_at_time(t), i, 'index_at_time undoes time_at_index')
    S.eq(step.count(), 2100 - year + 1, 'one step for every year from start to end')


@harness(dates=True, bounds='start any day but 29 February 1850..2030, time any of the days 1..28 of a month 1850..2030', params=['StepAnnual', 'StepMonthly'])
def coarse_step_of_day(S, which):
    """Annual and monthly steps: every day belongs to the step of its own year (month)."""
    m = S.module(EXSTEP)
    start, y0, m0 = civil(S, 'start')
    day, y1, m1 = civil(S, 'day', last=28)
    S.assume(start <= day)
    step = getattr(m, which)(start, day)
    expected = y1 - y0
    if which == 'StepMonthly':
        expected = expected * 12 + m1 - m0
    S.eq(step.index_at_time(day), expected, 'step of a day')
    S.eq(step.count(), expected + 1, 'one step for every period from start to end')


@harness(dates=True, bounds='start any day but 29 February 1850..2030, index up to 2400')
def monthly_index_time(S):
    """Monthly steps: index i is the start of the i-th month after the starting month, and back."""
    m = S.module(EXSTEP)
    start, year, month = civil(S, 'start')
    step = m.StepMonthly(start, S.date_of(2100, 6, 1))
    i = S.int('i', 0, 2400)
    t = step.time_at_index(i)
    k = year * 12 + month - 1 + i
    S.check(t == S.date_of(k // 12, k % 12 + 1, 1), 'steps are the starts of consecutive months')
    S.eq(step.index_at_time(t), i, 'index_at_time undoes time_at_index')


@harness(dates=True, bounds='epochs 1850-01, 1900-01 and 2000-01, every index up to 3000')
def midmonth_index_time(S):
    """Mid-month steps: index i is the middle of the i-th month after the epoch."""
    m = S.module(MID)
    i = S.int('i', 0, 3000)
    text = S.choice('epoch', ['18500101000000', '19000101000000', '20000101000000'])
    step = m.StepMidMonth(text, 3001)
    k = int(text[:4]) * 12 + int(text[4:6]) - 1 + i
    t = step.time_at_index(i)
    t0 = S.date_of(k // 12, k % 12 + 1, 1)
    k1 = k + 1
    t1 = S.date_of(k1 // 12, k1 % 12 + 1, 1)
    S.check((t - t0) == (t1 - t), 'steps are the middles of consecutive months')

    class Entry(object):
        time = t
    indices = step.operation_indices_for_input_entry(Entry())
    S.eq(len(indices), 1, 'an input belongs to one step')
    S.eq(indices[0], i, 'an input at the time of a step belongs to that step')


@harness(dates=True, bounds='start any whole day 1850..2030, time any second of 1840..2030', params=['StepDaily', 'StepDailyEpoch'])
def daily_step_contains_time(S, which):
    """Daily steps: a time belongs to the step whose day it falls in, so times before the first step belong to no step."""
    m = S.module(STEP if which == 'StepDaily' else EPOCHSTEP)
    start = S.datetime('start', resolution='day', **RANGE)
    t = S.datetime('t', lo=(1840, 1, 1), hi=(2030, 12, 31))
    step = getattr(m, which)(start, S.date_of(2030, 12, 31))
    i = step.index_at_time(t)
    t0, t1 = step.time_at_index(i), step.time_at_index(i + 1)
    S.check(S.and_(t0 <= t, t < t1), 'the time lies within the day of its step')


def midmonth_february(S):
    """The middle of the first month of a mid-month schedule from February 1900."""
    t = S.module(MID).StepMidMonth('19000201000000', 2).time_at_index(0)
    S.eq([t.year, t.month], [1900, 2], 'the first step lies in the month of the epoch')


KNOWN_FINDINGS = [('midmonth_epoch_month', 'mid-month steps are counted from January of the epoch year while their inputs are counted from the epoch month (epoch 1900-02)', midmonth_february)]
