"""P09: every coordinate is binned into the grid cell that contains it."""
from vf.api import harness

GRID = 'eustace.satgrid.grid'
FIELD = 'eustace.satgrid_iris.gridbin.gridfieldlist'
BIN = 'eustace.satgrid_iris.gridbin.gridbin'
GLOBAL = 'eustace.outputformats.globalfield'
STUB = ('iris cubes and coordinates are stand-ins; the replay uses iris itself',)


def iris():
    from vf import fakeiris
    return fakeiris.modules()


AXES = [(-180.0, 0.25, 1440), (-90.0, 0.25, 720), (0.0, 1.0, 5), (-90.0, 5.0, 36), (-1.5, 0.5, 7)]


def cell(S, v, start, inc, n, wrap):
    """Index of the cell [start + k inc, start + (k+1) inc) the value lies in; the end of a circle is its beginning."""
    k = S.floor((v - start) / inc)
    return S.ite(S.and_(wrap, k == n), 0, k)


@harness(bounds='5 axes (both global axes among them), any value from 3 cells below to 3 cells above, wrapped or not')
def axis_of_points(S):
    """Indices along an axis given by its edge are those of the containing cells; values outside are refused."""
    start, inc, n = S.choice('axis', AXES)
    wrap = S.fork_bool('wrap')
    a = S.module(GRID).GridAxis(start, inc, n, wrap)
    v = S.array('v', 1, lo=start - 3 * inc, hi=start + (n + 3) * inc)
    k = cell(S, v[0], start, inc, n, wrap)
    r = S.attempt(a.compute_indices, v)
    if bool(S.and_(k >= 0, k < n)):
        S.check(not r.raised, 'a value within the axis is accepted')
        S.eq(r.value[0], k, 'index of the containing cell')
    else:
        S.check(r.raised, 'a value outside the axis is refused')


@harness(bounds='axis of 4 cells, any 3 values within or around; refused if any is outside')
def axis_of_several(S):
    """Each of several values gets its own cell, and one outside is enough for refusal."""
    a = S.module(GRID).GridAxis(-2.0, 1.0, 4, S.fork_bool('wrap'))
    v = S.array('v', 3, lo=-3, hi=4)
    ks = [cell(S, x, -2.0, 1.0, 4, a.wrap) for x in S.flat(v)]
    r = S.attempt(a.compute_indices, v)
    ok = S.and_(*[S.and_(k >= 0, k < 4) for k in ks])
    S.eq(ok, not r.raised, 'refused exactly if a value is outside')
    if not r.raised:
        S.eq(list(S.flat(r.value)), ks, 'cells of the values')


@harness(bounds='5 axes')
def points_and_centres(S):
    """Edges and centres of cells are where the binning puts them."""
    start, inc, n = S.choice('axis', AXES)
    a = S.module(GRID).GridAxis(start, inc, n)
    e, c = a.get_points(), a.get_centres()
    S.eq(S.shape(e), (n,), 'number of edges')
    S.eq(S.shape(c), (n,), 'number of centres')
    k = S.choice('k', [0, 1, n // 2, n - 2, n - 1])
    S.close(e[k], start + k * inc, 'lower edge of a cell')
    S.close(c[k], start + k * inc + 0.5 * inc, 'centre of a cell')
    S.eq(a.compute_indices(S.np.array([c[k]]))[0], k, 'the centre of a cell lies in it')


@harness(bounds='2 points anywhere on grids of 4 x 8 and 720 x 1440 cells')
def latlon(S):
    """Points of a two-dimensional grid get the flat index of their own row and column."""
    G = S.module(GRID)
    ny, nx, y, x = S.choice('grid', [(4, 8, 45.0, 45.0), (720, 1440, 0.25, 0.25)])
    g = G.GridLatLon(G.GridAxis(-90.0, y, ny, True), G.GridAxis(-180.0, x, nx, True))
    S.eq(tuple(g.dimensions), (ny, nx), 'shape of the grid')
    lat = S.array('lat', 2, lo=-90, hi=89.999)
    lon = S.array('lon', 2, lo=-180, hi=180)
    got = g.compute_indices(lat, lon)
    for k in range(2):
        S.eq(got[k], S.floor((lat[k] + 90) / y) * nx + cell(S, lon[k], -180.0, x, nx, True), 'flat index')


@harness(overrides=iris, assumptions=STUB, bounds='5 axes, any value from 3 cells below to 3 above, circular or not')
def axis_of_fields(S):
    """Indices along the axis of a field are those of the containing cells (centres between edges); values outside are refused."""
    start, inc, n = S.choice('axis', AXES)
    circ = S.fork_bool('circular')
    a = S.module(FIELD).GridFieldAxis(start - 0.5 * inc, inc, n, 'x', circ)
    v = S.array('v', 1, lo=start - 3 * inc, hi=start + (n + 3) * inc)
    k = cell(S, v[0], start, inc, n, circ)
    r = S.attempt(a.compute_indices, v)
    if bool(S.and_(k >= 0, k < n)):
        S.check(not r.raised, 'a value within the axis is accepted')
        S.eq(r.value[0], k, 'index of the containing cell')
    else:
        S.check(r.raised, 'a value outside the axis is refused')


@harness(overrides=iris, assumptions=STUB, bounds='the global grid, any point (the north pole itself aside)')
def global_axes(S):
    """Points of the global field lie in the cell whose centre is at most half a cell away."""
    G = S.module(GLOBAL)
    day = S.int('day', 0, 70000)
    axes = G.GlobalFieldAxes2DWithTime(day).aslist()
    S.eq([x.count for x in axes], [1, 720, 1440], 'shape of the global field')
    lat = S.array('lat', 1, lo=-90, hi=90)
    S.assume(lat[0] < 90)
    lon = S.array('lon', 1, lo=-180, hi=180)
    j, i = axes[1].compute_indices(lat)[0], axes[2].compute_indices(lon)[0]
    y, x = axes[1].axis_coordinates().points, axes[2].axis_coordinates().points
    for k in (0, 1, 359, 719):
        S.close(y[k], -89.875 + 0.25 * k, 'latitude of a cell')
        S.close(x[2 * k + 1], -179.625 + 0.5 * k, 'longitude of a cell')
    S.check(abs(-89.875 + 0.25 * j - lat[0]) <= 0.125, 'latitude within half a cell of its centre')
    d = abs(-179.875 + 0.25 * i - lon[0])
    S.check(S.or_(d <= 0.125, S.and_(lon[0] == 180, i == 0)), 'longitude within half a cell of its centre')
    S.close(axes[0].axis_coordinates().points[0], day, 'time of the field')


@harness(overrides=iris, assumptions=STUB, max_paths=4000, bounds='3 pixels anywhere, any mask, own or alternative mask, grid of 3 x 4 cells, with or without a time axis')
def input_map(S):
    """The map from pixels to cells has exactly the unmasked pixels, each with its own cell."""
    F, B = S.module(FIELD), S.module(BIN)
    axes = [F.GridFieldAxis(-0.5, 1.0, 3, 'latitude', False), F.GridFieldAxis(-0.5, 1.0, 4, 'longitude', True)]
    time = S.fork_bool('time')
    np = S.np
    lat, lon = S.array('lat', (1, 3), lo=0, hi=2.9), S.array('lon', (1, 3), lo=0, hi=4)
    mask = S.array('m', (1, 3), 'bool')
    other = S.array('o', (1, 3), 'bool') if S.fork_bool('alternative') else None
    cube = B_cube(S, np.ma.masked_array(data=np.zeros((1, 3)), mask=mask), lat, lon)
    if time:
        axes = [F.GridFieldAxis(0.0, 1.0, 1, 'time', False)] + axes
        cube.add_aux_coord(S.module(SAT).AuxCoord(np.ones((1, 3)), var_name='time'), (0, 1))
    m = B.GridBins(axes).compute_input_map(cube, alternative_mask=other)
    used = mask if other is None else other
    keep = [k for k in range(3) if bool(S.not_(used[0, k]))]
    S.eq(list(S.flat(m.mapfrom)), keep, 'pixels that are not masked')
    S.eq(len(S.flat(m.mapto)), len(keep), 'one cell each')
    for p, k in enumerate(keep):
        S.eq(m.mapto[p], S.floor(lat[0, k]) * 4 + cell(S, lon[0, k], 0.0, 1.0, 4, True), 'cell of a pixel')


SAT = 'eustace.satgrid_iris.satellite'


def B_cube(S, data, lat, lon):
    A = S.module(SAT)
    cube = A.Cube(data, var_name='LST')
    cube.add_aux_coord(A.AuxCoord(lat, var_name='latitude'), (0, 1))
    cube.add_aux_coord(A.AuxCoord(lon, var_name='longitude'), (0, 1))
    return cube


def north_pole(S):
    """The north pole lies in the northernmost row."""
    lat = S.module(GLOBAL).GlobalFieldAxes2D().aslist()[0]
    S.eq(int(lat.compute_indices(S.np.array([90.0]))[0]), 719, 'row of latitude 90')


KNOWN_FINDINGS = [('north_pole_row', 'latitude exactly 90 is put into the southernmost row, because the latitude axis is declared circular (GlobalFieldAxes2D)', north_pole)]
