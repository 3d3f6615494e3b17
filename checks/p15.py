"""P15: grid cell averages are area-weighted means over points spread over their own cell."""
import math

from vf.api import harness

OUT = 'eustace.analysis.advanced_standard.fileio.output_structure_rectilinear'


class Field(object):
    """Any values at the points of a fine grid."""

    def __init__(self, S, lats, lons):
        self.S = S
        self.v = {k: {} for k in ('MAP', 'post_STD', 'prior_STD')}
        for k in self.v:
            for i, la in enumerate(lats):
                for j, lo in enumerate(lons):
                    self.v[k][self.key(la, lo)] = S.real('%s.%d.%d' % (k, i, j), 0, 400)

    @staticmethod
    def key(la, lo):
        return (int(round(float(la) * 1000)), int(round(float(lo) * 1000)))

    def _at(self, kind, o):
        S = self.S
        c = S.flat(o.location_polar_coordinates())
        points = [self.key(c[2 * i], c[2 * i + 1]) for i in range(len(c) // 2)]
        S.check(o.number_of_observations() == len(points), 'number of points asked for')
        S.check(all(p in self.v[kind] for p in points), 'points lie where the cells are divided')
        S.check(o.time_index() == 17 and o.time_datetime() == 'day', 'time of the grid')
        return S.np.array([self.v[kind][p] for p in points], dtype=S.np.float64)

    def solution_observation_expected_value(self, o):
        return self._at('MAP', o)

    def solution_observation_expected_uncertainties(self, o):
        return self._at('post_STD', o)

    def solution_observation_prior_uncertainties(self, o):
        return self._at('prior_STD', o)


GRIDS = [([10.0, 12.0], [0.0, 5.0]), ([-60.0, -59.0, -58.0], [178.0, 180.0]), ([88.75, 89.25, 89.75], [-179.5, -178.5, -177.5]),
         ([40.0, 35.0, 30.0], [1.0, 2.0]), ([1.0, -1.0], [355.0, 345.0, 335.0]), ([-89.0, -87.0, -85.0, -83.0, -81.0], [0.0, 90.0])]


def fine(axis, n):
    d = axis[1] - axis[0]
    return [[x + d * ((2.0 * k + 1) / (2 * n) - 0.5) for k in range(n)] for x in axis]


@harness(params=list(range(len(GRIDS))), bounds='grids of 2 to 5 by 2 or 3 cells, rising or falling axes, 1 to 3 by 1 to 3 points a cell, blocks of 1 to 6 rows, any field')
def averages(S, which):
    """The value of a cell is the mean of the field over its own points, weighted by the cosine of latitude, in the order of the grid, whatever the blocks."""
    M = S.module(OUT)
    lats, lons = GRIDS[which]
    N = S.choice('points', [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2)] + ([(2, 2), (3, 3)] if which in (0, 1, 4) else []))
    blocking = S.choice('blocking', [1, 2, 3, 6])
    flat, flon = fine(lats, N[0]), fine(lons, N[1])
    kind = S.choice('kind', ['MAP', 'post_STD', 'prior_STD'] if which == 0 else ['MAP'])
    f = Field(S, sum(flat, []), sum(flon, []))
    o = M.OutputRectilinearGridStructure(17, 'day', S.np.array(lats), S.np.array(lons))
    got = S.flat(M.Regridder(o, list(N), blocking).compute_gridded_expected_value(kind, f))
    S.eq(len(got), len(lats) * len(lons), 'one value a cell')
    k = 0
    for la in flat:
        w = [math.cos(math.radians(x)) for x in la]
        for lo in flon:
            total = sum(w) * len(lo)
            mean = sum(w[i] * f.v[kind][f.key(la[i], y)] for i in range(len(la)) for y in lo) * (1.0 / total)
            S.close(got[k], mean, 'mean over the points of the cell', tol=1e-6)
            k += 1
    S.raises(ValueError, M.Regridder(o, list(N), blocking).compute_gridded_expected_value, 'unknown field refused', 'STD', f)


@harness(bounds='2 to 4 latitudes and longitudes, any values')
def grid_points(S):
    """Points of an output grid are listed row by row, latitude then longitude."""
    M = S.module(OUT)
    n, m = S.choice('n', [2, 3]), S.choice('m', [2, 4])
    la, lo = S.array('lat', n, lo=-90, hi=90), S.array('lon', m, lo=-180, hi=360)
    o = M.OutputRectilinearGridStructure(3, 'day', la, lo)
    c = o.location_polar_coordinates()
    S.eq(list(S.shape(c)), [n * m, 2], 'one row a point')
    S.eq(o.number_of_observations(), n * m, 'number of points')
    S.eq(S.flat(c), [v for i in range(n) for j in range(m) for v in (S.flat(la)[i], S.flat(lo)[j])], 'latitude and longitude of each point')
    S.check(o.time_index() == 3 and o.time_datetime() == 'day', 'time of the grid')


@harness(bounds='2 cells each way, any spacing up to 20 degrees in thousandths and any position, 1 to 3 points each way')
def points_of_cells(S):
    """Points of a cell divide it evenly."""
    M = S.module(OUT)
    d, e = S.int('dlat', 1, 20000) / 1000.0, S.int('dlon', 1, 20000) / 1000.0
    a, b = S.real('lat', -90, 90), S.real('lon', -180, 360)
    N = S.choice('points', [(1, 1), (2, 3), (3, 2)])
    o = M.OutputRectilinearGridStructure(3, 'day', S.np.array([a, a + d]), S.np.array([b, b + e]))
    r = M.Regridder(o, list(N))
    sub = r.create_sub_cell_grids([o.latitudes, o.longitudes])
    S.close(S.flat(sub.latitudes), [c + d * ((2.0 * k + 1) / (2 * N[0]) - 0.5) for c in (a, a + d) for k in range(N[0])], 'latitudes', tol=1e-6)
    S.close(S.flat(sub.longitudes), [c + e * ((2.0 * k + 1) / (2 * N[1]) - 0.5) for c in (b, b + e) for k in range(N[1])], 'longitudes', tol=1e-6)
