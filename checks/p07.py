"""P07: combining and filtering sets of observations."""
from vf.api import harness

OBS = 'eustace.analysis.observationsource'
COUNT = 'eustace.analysis.obscount'
MISSING = 'eustace.analysis.fileio.observationsource_missing'


def obs(S, name, loc, c, t):
    n = len(loc)
    return S.module(OBS).Observations(S.array(name + 'm', n, 'bool'), t, S.np.array(loc, S.np.int64), S.array(name + 'x', n, lo=-1000, hi=1000),
                                      S.array(name + 'u', n, lo=0, hi=100), [S.array(name + 'c%d_' % k, n, lo=0, hi=100) for k in range(c)])


SETS = [([0, 1, 2], [0, 1, 2]), ([5, 7], [7, 9]), ([1, 2, 3], [0, 2, 3, 8]), ([4], [5]), ([3, 1], [3, 2, 1]), ([2], [2])]


@harness(bounds='6 pairs of location lists of up to 4 locations, 0 or 2 correlated uncertainties, any masks, any values to 1000 K')
def mean_of_two(S):
    """The mean of two sets covers the locations of both, valid where both are, with mean measurement and rms uncertainties."""
    la, lb = S.choice('locations', SETS)
    c = S.choice('c', [0, 2])
    t = S.int('t', 0, 70000)
    a, b = obs(S, 'a', la, c, t), obs(S, 'b', lb, c, t)
    m = S.module(OBS).Observations.mean(a, b)
    common = [x for x in la if x in lb]
    S.eq(list(S.flat(m.location)), common, 'locations of both')
    S.eq(m.number_of_observations(), len(common), 'number of observations')
    S.eq(m.time, t, 'time')
    S.eq(len(m.locallycorrelatederror), c, 'number of correlated uncertainties')
    for k, x in enumerate(common):
        i, j = la.index(x), lb.index(x)
        S.eq(m.mask[k], S.or_(a.mask[i], b.mask[j]), 'valid where both are')
        if bool(S.not_(S.or_(a.mask[i], b.mask[j]))):
            S.close(m.measurement[k] * 2, a.measurement[i] + b.measurement[j], 'mean measurement')
            for get in [lambda q: q.uncorrelatederror] + [lambda q, r=r: q.locallycorrelatederror[r] for r in range(c)]:
                v = get(m)[k]
                S.check(v >= 0, 'uncertainty not negative')
                S.close(v * v * 2, get(a)[i] * get(a)[i] + get(b)[j] * get(b)[j], 'rms uncertainty')


@harness(bounds='sets of different times, orders or numbers of correlated uncertainties')
def mean_refused(S):
    """Sets of different times, in different orders or with different uncertainty components are refused."""
    O = S.module(OBS).Observations
    t, s = S.int('t', 0, 70000), S.int('s', 0, 70000)
    S.assume(t != s)
    S.raises(ValueError, lambda: O.mean(obs(S, 'a', [1], 0, t), obs(S, 'b', [1], 0, s)), 'different times')
    S.raises(ValueError, lambda: O.mean(obs(S, 'c', [1, 2], 0, t), obs(S, 'd', [2, 1], 0, t)), 'different order')
    S.raises(ValueError, lambda: O.mean(obs(S, 'e', [1], 1, t), obs(S, 'f', [1], 0, t)), 'different numbers of correlated uncertainties')
    S.raises(ValueError, lambda: O.mean(obs(S, 'k', [1], 0, t), obs(S, 'l', [1], 1, t)), 'different numbers of correlated uncertainties')
    S.raises(ValueError, lambda: O.mean(obs(S, 'm', [1, 2], 0, S.np.array([t, t])), obs(S, 'n', [1, 2], 0, S.np.array([t, s]))), 'one time different')
    S.raises(ValueError, lambda: obs(S, 'o', [1], 0, t).append(obs(S, 'p', [1], 1, t), 0), 'different numbers appended')
    S.raises(ValueError, lambda: obs(S, 'g', [1], 0, t).append(obs(S, 'h', [1], 0, s), 0), 'different times appended')
    S.raises(ValueError, lambda: obs(S, 'i', [1], 1, t).append(obs(S, 'j', [1], 0, t), 0), 'different numbers appended')


@harness(bounds='sets of 1 to 3 observations, 0 or 2 correlated uncertainties, any masks and values, any offset')
def append_sets(S):
    """Appending keeps the observations of both sets, each with its own values, locations of the second moved by the offset."""
    la, lb = S.choice('locations', SETS[:4])
    c = S.choice('c', [0, 2])
    t, off = S.int('t', 0, 70000), S.int('off', 0, 10**6)
    a, b = obs(S, 'a', la, c, t), obs(S, 'b', lb, c, t)
    mask = list(S.flat(a.mask)) + list(S.flat(b.mask))
    x = list(S.flat(a.measurement)) + list(S.flat(b.measurement))
    u = list(S.flat(a.uncorrelatederror)) + list(S.flat(b.uncorrelatederror))
    cs = [list(S.flat(p)) + list(S.flat(q)) for p, q in zip(a.locallycorrelatederror, b.locallycorrelatederror)]
    a.append(b, off)
    S.eq(list(S.flat(a.mask)), mask, 'masks')
    S.eq(list(S.flat(a.location)), list(la) + [v + off for v in lb], 'locations')
    S.close(list(S.flat(a.measurement)), x, 'measurements')
    S.close(list(S.flat(a.uncorrelatederror)), u, 'uncorrelated uncertainties')
    for k in range(c):
        S.close(list(S.flat(a.locallycorrelatederror[k])), cs[k], 'correlated uncertainties')
    S.eq(list(S.flat(b.location)), list(lb), 'the second set is unchanged')


def breaks(S, n):
    return S.module(OBS).ObservationsBreakPoints(S.array('t', n, 'int', 0, 70000), S.array('s', n, 'int', 0, 3), S.array('l', n, 'int', 0, 127))


@harness(bounds='4 break points of any of 4 stations, any times, likelihoods 0..127, any threshold', max_paths=20000)
def break_policies(S):
    """Policies keep exactly the break points likely enough, in order and with their own times and stations."""
    n = 4
    o = breaks(S, n)
    T, ST, L = list(S.flat(o.break_time)), list(S.flat(o.break_station)), list(S.flat(o.break_likelihood))
    kind = S.choice('policy', ['HARD_CUTOFF', 'LAPLACE_KERNEL'])
    if kind == 'HARD_CUTOFF':
        th = S.real('th', -10, 200)
        o.apply_policy(kind, threshold=th)
        keep = [k for k in range(n) if bool(L[k] >= th)]
    else:
        th, d = S.real('th', 0.001, 1), S.choice('decay', [0.5, 0.01, 0.0])
        o.apply_policy(kind, threshold=th, decay_constant=d)
        keep = [k for k in range(n) if bool(S.exp(-d * abs(L[k] - 127)) >= th)]
    S.eq(o.number_of_observations(), len(keep), 'number kept')
    S.eq(list(S.flat(o.break_time)), [T[k] for k in keep], 'times')
    S.eq(list(S.flat(o.break_station)), [ST[k] for k in keep], 'stations')
    S.eq(list(S.flat(o.break_likelihood)), [L[k] for k in keep], 'likelihoods')


@harness(bounds='3 break points, likelihoods 127 or any other, threshold exactly at the kernel of some of them')
def break_kernel_limit(S):
    """A break point whose kernel is just the threshold is kept."""
    o = breaks(S, 3)
    L = list(S.flat(o.break_likelihood))
    d = S.choice('decay', [0.0, 0.5])
    S.assume(L[0] == 127)
    T = list(S.flat(o.break_time))
    o.apply_policy('LAPLACE_KERNEL', threshold=1.0, decay_constant=d)
    keep = [k for k in range(3) if d == 0.0 or bool(L[k] == 127)]
    S.eq(list(S.flat(o.break_time)), [T[k] for k in keep], 'break points with kernel at the threshold')


@harness(bounds='five days given as text or dates, each with a file or not, any number of observations', assumptions=('files and their counts are stand-ins',))
def count_days(S):
    """Every day from the first to the last is counted once, a day without file as missing."""
    from datetime import datetime
    C = S.module(COUNT)
    a, b = S.choice('days', [('20000227', '20000302'), ('19991230', '20000103'), ('18500101', '18500101')])
    text = S.fork_bool('text')
    first, last = [datetime(int(x[:4]), int(x[4:6]), int(x[6:])) for x in (a, b)]
    n = (last - first).days + 1
    start = (first - datetime(1850, 1, 1)).days
    there = dict((start + k, S.fork_bool('there%d' % k)) for k in range(n))
    counts = dict((start + k, S.int('count%d' % k, 0, 10**6)) for k in range(n))

    class Names(object):
        DATEFORMAT = '%Y%m%d'

        def __init__(self, source, path):
            S.check((source, path) == ('src', 'base'), 'source and path')

        def filename_observations(self, observable, day):
            return (observable, int(day))

        def filename_local_correlation_ranges(self, observable):
            return observable + ' ranges'

    class Ranges(object):
        def read(self, name):
            S.check(name == 'Tmin ranges', 'ranges of the observable')
            return S.np.zeros(2)

    class Reader(object):
        def __init__(self, ranges):
            S.check(ranges == 2, 'number of ranges')

        def read_observation_count(self, name):
            S.check(name[0] == 'Tmin', 'observable')
            return counts[name[1]]

    class Os(object):
        R_OK, F_OK = 4, 0

        class path(object):
            isfile = exists = staticmethod(lambda name: there.get(name[1], False))
        access = staticmethod(lambda name, mode: there.get(name[1], False))
    keep = C.ObservationSourceBinaryFilenameGenerator, C.LocalCorrelationRangeRawBinaryReader, C.ObservationRawBinaryReader, C.os
    C.ObservationSourceBinaryFilenameGenerator, C.LocalCorrelationRangeRawBinaryReader, C.ObservationRawBinaryReader, C.os = Names, Ranges, Reader, Os
    try:
        s = C.ObsCounter('base', 'src', 'Tmin', a if text else first, b if text else last)
        got = s.count_all_days()
        total = s.summary_statistics()
    finally:
        C.ObservationSourceBinaryFilenameGenerator, C.LocalCorrelationRangeRawBinaryReader, C.ObservationRawBinaryReader, C.os = keep
    S.check(len(got) == n, 'one count for each day')
    for k in range(n):
        if there[start + k]:
            S.check(got[k] is not None, 'day counted')
            S.eq(got[k], counts[start + k], 'count of its own day')
        else:
            S.check(got[k] is None, 'day without file')
    S.eq(total.missing_days, sum(not v for v in there.values()), 'missing days')
    S.eq(total.total_observations, S.sum([counts[k] for k in there if there[k]]), 'total')


@harness(bounds='4 break points of any of 4 stations, any times', max_paths=20000)
def break_stations(S):
    """Break points of a station are exactly its own; station counts add up."""
    n = 4
    o = breaks(S, n)
    ST = list(S.flat(o.break_station))
    q = S.choice('station', [0, 1, 2, 3])
    want = [k for k in range(n) if bool(ST[k] == q)]
    S.eq(list(S.flat(o.filtered_break_points(q))), [o.break_time[k] for k in want], 'times of breaks of a station')
    S.eq(list(S.flat(o.stations_break_point_indices(q))), want, 'indices of breaks of a station')
    names, counts = list(S.flat(o.stations_collection())), list(S.flat(o.stations_count()))
    S.eq(len(names), o.total_number_of_stations(), 'number of stations')
    S.eq(S.sum(counts), n, 'counts add up')
    for a, c in zip(names, counts):
        if bool(a == q):
            S.eq(c, len(want), 'number of breaks of a station')
    S.eq(bool(S.or_(*[a == q for a in names])), bool(want), 'stations listed are those with breaks')
    S.raises(ValueError, lambda: o.apply_policy('OTHER'), 'unknown policy')


@harness(bounds='5 days, each with any count or missing', max_paths=4000)
def count_summary(S):
    """Summaries of observation counts add up the days present and count the missing ones."""
    n = 5
    counts = [S.int('c%d' % k, 0, 10**6) if S.fork_bool('present%d' % k) else None for k in range(n)]
    s = S.module(COUNT).ObsSummaryStatistics(counts)
    there = [c for c in counts if c is not None]
    S.eq(s.number_of_days, n, 'days')
    S.eq(s.missing_days, n - len(there), 'missing days')
    S.eq(s.total_observations, S.sum(there), 'total')
    if there:
        S.close(s.mean_observations_per_day * len(there), S.sum(there), 'mean per day with data')
    else:
        S.check(s.mean_observations_per_day is None, 'no mean without data')


@harness(bounds='sources without data for 1 to 2 observables')
def missing_source(S):
    """A source that stands for missing data lists its observables and gives an empty set for each."""
    names = S.choice('names', [['Tmean'], ['Tmin', 'Tmax']])
    src = S.module(MISSING).ObservationSourceMissing(names)
    S.eq(list(src.observables()), names, 'observables')
    for x in names:
        o = src.observations(x)
        S.eq(o.number_of_observations(), 0, 'no observations')
        S.eq([len(S.flat(v)) for v in (o.measurement, o.mask, o.uncorrelatederror, o.locallycorrelatederror)], [0] * 4, 'no values')
    S.raises(ValueError, lambda: src.observations('other'), 'unknown observable')
