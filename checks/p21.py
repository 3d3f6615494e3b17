"""P21: observations of a source reach the analysis once each, with their own place, precision and biases."""
from vf.api import harness
from checks.linear import rows

CONNECTOR = 'eustace.analysis.advanced_standard.fileio.observation_structure_source_connector'
EFFECTS = 'eustace.analysis.advanced_standard.fileio.observation_source_surface_effects'
SOURCE = 'eustace.analysis.observationsource'
REAL = ('floating point numbers are real numbers',)


class Spec(object):
    def __init__(self, filename):
        self.filename = filename


class Source(object):
    """A source with given observations and places."""

    def __init__(self, lookup, observations, names):
        self.lookup, self.obs, self.asked = lookup, observations, []
        self.filespecs = dict((str(k), Spec(n)) for k, n in enumerate(names))

    def observation_location_lookup(self):
        return self.lookup

    def observations(self, observable):
        self.asked.append(observable)
        return self.obs[observable]


def build(S, n, m, mask, location, names=('/data/any.bin',), time=40000, lookup=None, date='date'):
    """Source of n observations at m places, and what it holds."""
    np = S.np
    O = S.module(SOURCE).Observations
    value = [S.real('y%d' % k, 100, 400) for k in range(n)]
    error = [S.real('e%d' % k, 0.1, 10) for k in range(n)]
    if lookup is None:
        lookup = [[S.real('lat%d' % k, -90, 90) for k in range(m)], [S.real('lon%d' % k, -180, 360) for k in range(m)]]
    o = O(np.array(mask, dtype=bool), time, np.array(location, dtype=np.uint64), np.array(value), np.array(error), [])
    other = O(np.array([not x if isinstance(x, bool) else x for x in mask], dtype=bool), time, np.array(location, dtype=np.uint64), np.array([1.0] * n), np.array([1.0] * n), [])
    source = Source(np.array(lookup), {'Tmean': o, 'Tmin': other}, names)
    c = S.module(CONNECTOR).ObservationStructureSourceConnector(source, 'Tmean', date)
    return c, source, value, error, lookup


@harness(params=[0, 1, 2, 3], assumptions=REAL, bounds='0 to 3 observations of any validity at 3 places in any order, longitudes from -180 to 360, any values and errors', max_paths=8000)
def observations(S, n):
    """Exactly the valid observations are passed on, each with its place (longitudes from -180 to below 180), value and reciprocal squared error; the source keeps what it had."""
    mask = [S.fork_bool('m%d' % k) for k in range(n)]
    location = [S.choice('at%d' % k, [0, 1, 2]) for k in range(n)]
    c, source, value, error, lookup = build(S, n, 3, mask, location)
    good = [k for k in range(n) if not mask[k]]
    S.eq(c.number_of_observations(), len(good), 'number of valid observations')
    for again in (0, 1):
        S.close(S.flat(c.observation_vector()), [value[k] for k in good], 'values of the valid observations in order')
        at = c.location_polar_coordinates()
        S.eq(list(S.shape(at)), [len(good), 2], 'a latitude and longitude for each')
        at = rows(S, at) if good else []
        for row, k in zip(at, good):
            S.close(row[0], lookup[0][location[k]], 'latitude of its own place')
            lon = lookup[1][location[k]]
            S.close(row[1], S.ite(lon >= 180, lon - 360, lon), 'longitude of its own place, from -180 to below 180')
        if good:
            p = c.observation_precision()
            S.eq(list(S.shape(p)), [len(good)] * 2, 'precision of each pair')
            p = rows(S, p)
            for i, k in enumerate(good):
                for j in range(len(good)):
                    S.close(p[i][j] * error[k] * error[k], 1.0 if i == j else 0.0, 'precision is the reciprocal of the squared error, uncorrelated', tol=1e-9)
    S.close(S.flat(source.lookup), lookup[0] + lookup[1], 'places of the source stay')
    S.eq(c.time_index(), 40000, 'time of the observations')
    S.eq(c.time_datetime(), 'date', 'date given')
    S.check(source.asked == ['Tmean'], 'the observable asked for')


class Breaks(object):
    def __init__(self, S, station, time):
        self.break_station, self.break_time = S.np.array(station, dtype=S.np.int32), S.np.array(time, dtype=S.np.int32)


STATIONS = [(1,), (2, 2), (1, 3), (1, 1, 3), (1, 2, 2, 3), (2, 2, 2, 4), (1, 1, 3, 3), (1, 2, 3, 4)]
OBSERVED = [(), (0,), (1, 2), (0, 1, 2, 3), (2,), (0, 3), (0, 2)]


@harness(params=list(range(len(STATIONS))), assumptions=REAL, bounds='8 lists of up to 4 breaks of 4 stations at any rising times, 7 sets of observed stations, any time', max_paths=8000)
def breakpoints(S, which):
    """An observation of a station is biased by the first later break of that station, and by no other; without later break there is no bias."""
    fn = S.module(EFFECTS).insitu_land_covariate_effect
    stations = STATIONS[which]
    times = [S.int('t%d' % k, 30000, 60000) for k in range(len(stations))]
    for k in range(1, len(stations)):
        if stations[k] == stations[k - 1]:
            S.assume(times[k - 1] < times[k])
    t = S.int('now', 30000, 60000)
    observed = S.choice('observed', OBSERVED)
    now = S.np.array([t]) if S.fork_bool('array') else t
    got = fn(now, S.np.array(observed, dtype=S.np.uint64), Breaks(S, stations, times))
    want = []
    for n, s in enumerate(observed):
        later = [k for k in range(len(stations)) if stations[k] - 1 == s and times[k] > t]
        if later:
            want.append([n, later[0]])
    if not want:
        S.check(got is None, 'no effect without later break')
        return
    S.check(got is not None, 'an effect where a station has a later break')
    S.eq(list(S.shape(got)), [len(want), 2], 'one bias for each affected observation')
    for row, w in zip(rows(S, got), want):
        S.eq(row, w, 'bias of the period the observation lies in')


@harness(params=[1, 2, 3], assumptions=REAL, bounds='1 to 3 observations of any validity and latitude', max_paths=4000)
def satellites(S, n):
    """Satellite observations share one bias over land and ocean, and one for each hemisphere over ice, whichever of them are valid."""
    mask = [S.fork_bool('m%d' % k) for k in range(n)]
    good = [k for k in range(n) if not mask[k]]
    S.assume(len(good) > 0)
    kind = S.choice('kind', ['land', 'ocean', 'ice'])
    names = ['/data/surfaceairmodel_%s_Tmean_20100203.bin' % kind, '/data/x/surfaceairmodel_%s_loc_20100203.bin' % kind, None]
    location = [2, 0, 1][:n]
    c, source, value, error, lookup = build(S, n, 3, mask, location, names)
    for g in ('land', 'ocean', 'ice'):
        got = c.covariate_effect('surfaceairmodel_%s_global' % g)
        if g != kind:
            S.check(got is None, 'no bias of other sources')
            continue
        S.eq(list(S.shape(got)), [len(good), 2], 'a bias for every valid observation')
        for i, (row, k) in enumerate(zip(rows(S, got), good)):
            S.eq(row[0], i, 'observations counted as passed on')
            S.eq(row[1], S.ite(lookup[0][location[k]] < 0, 1, 0) if g == 'ice' else 0, 'one bias, or one for each hemisphere')


@harness(assumptions=REAL, bounds='names of 5 sources and of others, one or two files; 6 groups')
def groups(S):
    """Biases of a group apply only where all files of the source are of the group; unknown groups are refused."""
    kinds = {'insitu_land': 'insitu_land', 'insitu_ocean': 'insitu_ocean', 'surfaceairmodel_land': 'surfaceairmodel_land_global', 'surfaceairmodel_ocean': 'surfaceairmodel_ocean_global', 'surfaceairmodel_ice': 'surfaceairmodel_ice_global'}
    first = S.choice('first', sorted(kinds) + ['other'])
    second = S.choice('second', ['same', 'insitu_land', 'surfaceairmodel_ice', 'nothing'])
    names = ['%s_Tmean_20100203.bin' % first]
    if second != 'nothing':
        names.append('%s_Tmin_20100203.bin' % (first if second == 'same' else second))
    c, source, value, error, lookup = build(S, 2, 3, [False, True], [1, 0], names, time=40000)
    group = S.choice('group', sorted(kinds.values()) + ['unknown'])
    if group == 'unknown':
        S.raises(ValueError, lambda: c.covariate_effect(group), 'unknown group is refused')
        return
    args = {'breakpoints': Breaks(S, [1, 2, 2, 3], [50000, 39999, 41000, 50000])} if group == 'insitu_land' else {}
    got = c.covariate_effect(group, **args)
    mine = all(kinds.get(n.rsplit('_', 2)[0]) == group for n in names)
    if not mine or group == 'insitu_ocean':
        S.check(got is None, 'no bias of other groups')
        return
    S.check(got is not None, 'bias of the own group')
    lat = lookup[0][1]
    want = [0, 2] if group == 'insitu_land' else [0, S.ite(lat < 0, 1, 0)] if group == 'surfaceairmodel_ice_global' else [0, 0]
    S.eq(list(S.shape(got)), [1, 2], 'the one valid observation')
    S.eq(rows(S, got)[0], want, 'bias of the own group')
