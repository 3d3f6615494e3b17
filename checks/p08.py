"""P08: diagnostic grids hold, for every cell, the statistics of exactly the observations of the day in that cell."""
from vf.api import harness

DIAG = 'eustace.analysis.diagnosticgrid'
FIELD = 'eustace.satgrid_iris.gridbin.gridfieldlist'
OBS = 'eustace.analysis.observationsource'
STUB = ('iris cubes and coordinates are stand-ins; the replay uses iris itself', 'floating point numbers are real numbers')


def iris():
    from vf import fakeiris
    return fakeiris.modules()


def axes(S, time=False):
    F = S.module(FIELD)
    a = [F.GridFieldAxis(-0.5, 1.0, 2, 'latitude', False), F.GridFieldAxis(-0.5, 1.0, 3, 'longitude', True)]
    return [F.GridFieldAxis(0.0, 1.0, 1, 'time', False)] + a if time else a


class Source(object):
    def __init__(self, S, lookup, obs):
        self.lookup, self.obs = lookup, obs

    def observation_location_lookup(self):
        return self.lookup

    def observations(self, observable):
        return self.obs


@harness(overrides=iris, assumptions=STUB, max_paths=20000, bounds='3 observations at 2 locations anywhere on a 2 x 3 grid, the meridian where it closes included, any mask, any times within 2 days of the day, any values')
def observations_of_day(S):
    """The input of a day is exactly its valid observations, each with the cell of its own location."""
    D = S.module(DIAG)
    np = S.np
    lookup = np.vstack([S.array('lat', 2, lo=0, hi=1.9), S.array('lon', 2, lo=0, hi=3)])
    day = S.int('day', 2, 70000)
    off = S.array('off', 3, lo=-2, hi=2)
    obs = S.module(OBS).Observations(S.array('m', 3, 'bool'), off + day, np.array([0, 1, S.choice('third', [0, 1])], np.int64), S.array('x', 3), S.array('u', 3, lo=0), [])
    c = D.DiagnosticGridObservationConnector(axes(S, S.fork_bool('time')), Source(S, lookup, obs))
    got = c.get_day('Tmean', day)
    S.eq(got.daynumber, day, 'day')
    S.eq(got.observable, 'Tmean', 'observable')
    keep = [k for k in range(3) if bool(S.and_(S.not_(obs.mask[k]), off[k] >= 0, off[k] < 1))]
    S.eq(len(S.flat(got.observation)), len(keep), 'number of observations')
    S.close(list(S.flat(got.observation)), [obs.measurement[k] for k in keep], 'measurements')
    S.close(list(S.flat(got.uncertainty)), [obs.uncorrelatederror[k] for k in keep], 'uncertainties')
    for p, k in enumerate(keep):
        l = int(obs.location[k])
        S.eq(got.indices[p], S.floor(lookup[0, l]) * 3 + S.ite(lookup[1, l] >= 3, 0, S.floor(lookup[1, l])), 'cell of an observation')


NAMES = ['count', 'observation_max', 'observation_min', 'uncertainty_max', 'uncertainty_min', 'observation_weightedsum', 'precision_sum']


def cellwise(S, grid, sourcename, where, x, u):
    f = {n: grid.get_field('%s_Tmean_%s' % (sourcename, n)).data for n in NAMES}
    mean = grid.get_field('%s_Tmean_observation_weightedmean' % sourcename).data
    for j in range(6):
        mine = [k for k, w in enumerate(where) if w == j]
        v = {n: list(S.flat(a.data))[j] for n, a in f.items()}
        for n in f:
            S.eq(list(S.flat(f[n].mask))[j], not mine, 'cells without observations are masked')
        if not mine:
            S.check(list(S.flat(mean.mask))[j], 'no mean without observations')
            continue
        S.eq(v['count'], len(mine), 'number of observations of a cell')
        S.eq(v['observation_max'], S.max([x[k] for k in mine]), 'largest observation')
        S.eq(v['observation_min'], S.min([x[k] for k in mine]), 'smallest observation')
        S.eq(v['uncertainty_max'], S.max([u[k] for k in mine]), 'largest uncertainty')
        S.eq(v['uncertainty_min'], S.min([u[k] for k in mine]), 'smallest uncertainty')
        S.close(v['precision_sum'], S.sum([1 / u[k] for k in mine]), 'sum of precisions')
        S.close(v['observation_weightedsum'], S.sum([x[k] / u[k] for k in mine]), 'weighted sum')
        S.close(list(S.flat(mean.data))[j] * S.sum([1 / u[k] for k in mine]), S.sum([x[k] / u[k] for k in mine]), 'weighted mean')


@harness(overrides=iris, assumptions=STUB, bounds='3 observations in 4 arrangements over a 2 x 3 grid, any values within 1000 K, any uncertainties 0.01..100, given at once or in two parts', max_paths=20000)
def statistics(S):
    """Count, extremes, weighted sum and mean of every cell are those of its own observations; other cells are masked."""
    D = S.module(DIAG)
    np = S.np
    where = S.choice('where', [[0, 0, 0], [1, 5, 1], [2, 3, 4], [5, 5, 0]])
    x, u = S.array('x', 3, lo=-1000, hi=1000), S.array('u', 3, lo=0.01, hi=100)
    grid = D.DiagnosticGridBins(axes(S, S.fork_bool('time')))
    parts = [slice(0, 3)] if S.fork_bool('once') else [slice(0, 1), slice(1, 3)]
    for p in parts:
        grid.create_fields_from_sparse_observations('src', D.DiagnosticGridInput('Tmean', 7, np.array(where[p], np.int64), x[p], u[p]))
    grid.compute_weighted_mean('src', 'Tmean')
    cellwise(S, grid, 'src', where, list(S.flat(x)), list(S.flat(u)))


@harness(overrides=iris, assumptions=STUB, bounds='2 sources with 2 observations each')
def sources_apart(S):
    """Statistics of different sources do not mix."""
    D = S.module(DIAG)
    np = S.np
    grid = D.DiagnosticGridBins(axes(S))
    data = {}
    for name, where in (('a', [0, 1]), ('b', [1, 1])):
        x, u = S.array(name + 'x', 2, lo=-1000, hi=1000), S.array(name + 'u', 2, lo=0.01, hi=100)
        grid.create_fields_from_sparse_observations(name, D.DiagnosticGridInput('Tmean', 7, np.array(where, np.int64), x, u))
        grid.compute_weighted_mean(name, 'Tmean')
        data[name] = (where, list(S.flat(x)), list(S.flat(u)))
    for name in data:
        cellwise(S, grid, name, *data[name])


@harness(overrides=iris, assumptions=STUB, bounds='axes of wrong number or length')
def axes_refused(S):
    """Grids with one axis or several times are refused."""
    D, F = S.module(DIAG), S.module(FIELD)
    a = axes(S, True)
    S.raises(ValueError, lambda: D.DiagnosticGridObservationConnector(a[:1], None), 'one axis')
    S.raises(ValueError, lambda: D.DiagnosticGridObservationConnector([F.GridFieldAxis(0.0, 1.0, 2, 'time', False)] + a[1:], None), 'two times')
