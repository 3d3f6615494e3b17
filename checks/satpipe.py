"""Satellite files to fields: bodies shared by P10 (statistics of the cells) and P11 (which pixels and files count)."""
FILEAGG = 'eustace.satgrid.file_aggregate_grid'
GRID = 'eustace.satgrid.grid'
SATFILE = 'eustace.satgrid.satellite_file'
SAT = 'eustace.satgrid_iris.satellite'
PIPE = 'eustace.satgrid_iris.pipeline'
MODIS = 'eustace.satgrid_iris.modis'
FIELD = 'eustace.satgrid_iris.gridbin.gridfieldlist'
F32 = 'float32'


def real(S, name, n, lo=-500, hi=500):
    return S.array(name, n, lo=lo, hi=hi, dtype=F32)


def stats(S, fields, j, mine, x, ran, atm, sfc, sys):
    """Statistics of cell j; mine are the pixels in it."""
    get = lambda n: list(S.flat(fields[n]))[j]
    n = len(mine)
    S.eq(get('ts_number_of_observations'), n, 'number of observations')
    names = ['tsmean', 'tsmin', 'tsmax', 'tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_sys']
    if not n:
        for k in names:
            S.eq(get(k), -1.0, 'cells without observations are flagged invalid')
        return
    S.close(get('tsmean') * n, S.sum([x[k] for k in mine]), 'mean', tol=1e-3)
    S.eq(get('tsmin'), S.min([x[k] for k in mine]), 'minimum')
    S.eq(get('tsmax'), S.max([x[k] for k in mine]), 'maximum')
    for name, q, div in (('tsmean_unc_ran', ran, n * n), ('tsmean_unc_loc_atm', atm, n), ('tsmean_unc_loc_sfc', sfc, n)):
        S.check(get(name) >= 0, 'uncertainty not negative')
        S.close(get(name) * get(name) * div, S.sum([q[k] * q[k] for k in mine]), 'uncertainty ' + name, tol=1e-3)
    S.check(get('tsmean_unc_sys') >= 0, 'uncertainty not negative')
    S.close(get('tsmean_unc_sys') * get('tsmean_unc_sys') * n, S.sum([sys[k] * sys[k] for k in mine]), 'systematic uncertainty', tol=1e-3)


class File(object):
    """Stands for a satellite file; selection by quality flags is that of the real class."""

    def __init__(self, S, values):
        self.S, self.values = S, values

    def get_variable(self, name, indices=None):
        return self.values[name]

    def get_indices_from_qc(self, mask, flt):
        return self.S.module(SATFILE).SatelliteFile.find_qc_flag_indices(self.values['QC'], mask, flt)

    def get_variable_at_indices(self, name, indices):
        return self.values[name].flat[indices]


def files_to_fields(S):
    """Fields of a set of files: statistics of the clear pixels, variance and sampling uncertainty from clear and all pixels of the time of day."""
    G, F = S.module(GRID), S.module(FILEAGG)
    np = S.np
    a = F.SatelliteFileAggregator(G.GridAxis(0.0, 1.0, 1), G.GridAxis(0.0, 1.0, 2), 'LST', 1, 0, 3, 0, 10)
    where = S.choice('where', [[0, 0, 0, 0], [0, 1, 1, 0], [1, 1, 1, 0]])
    qc = [S.choice('qc%d' % k, [0, 1, 2]) for k in range(4)]        # clear, other time of day, cloudy
    x, u = real(S, 'x', 4, 1), real(S, 'u', 4, 0, 50)
    files = []
    for f in (0, 1):
        p = slice(2 * f, 2 * f + 2)
        files.append(File(S, {'LST': x[p], 'QC': np.array(qc[p]), 'lat': np.array([0.5, 0.5]), 'lon': np.array([w + 0.5 for w in where[p]]),
                              'LST_unc_ran': u[p], 'LST_unc_loc_atm': u[p], 'LST_unc_loc_sfc': u[p], 'LST_unc_sys': 0.5}))
    for f in files:
        a.aggregate_file(f)
    fields = a.compute_fields_first_order()
    for f in files:
        a.aggregate_file_second_order(fields, f)
    more = a.compute_fields_second_order()
    X, U = list(S.flat(x)), list(S.flat(u))
    S.close(list(S.flat(fields['longitude'])), [0.5, 1.5], 'longitudes')
    S.close(list(S.flat(fields['latitude'])), [0.5], 'latitudes')
    for j in (0, 1):
        valid = [k for k in range(4) if where[k] == j and qc[k] == 0]
        total = [k for k in range(4) if where[k] == j and qc[k] != 1]
        stats(S, fields, j, valid, X, U, U, U, [0.5] * 4)
        S.eq(list(S.flat(fields['total_number_of_observations']))[j], len(total), 'all pixels of the time of day')
        var, spl = list(S.flat(more['tsvariance']))[j], list(S.flat(more['tsmean_unc_spl']))[j]
        n, t = len(valid), len(total)
        if n < 2:
            S.eq(var, -1.0, 'no variance of fewer than two pixels')
            S.eq(spl, -1.0, 'no sampling uncertainty of fewer than two pixels')
        else:
            sx = S.sum([X[k] for k in valid])
            S.close(var * (n - 1) * n, S.sum([n * X[k] * X[k] for k in valid]) - sx * sx, 'variance', tol=3)
            S.check(spl >= 0, 'sampling uncertainty not negative')
            S.close(spl * spl * (t - 1) * (t - 1), (t - n) * (t - n) * var, 'sampling uncertainty', tol=1)


def cube(S, x, mask, qc, lat, lon, more=(), name='LST'):
    A = S.module(SAT)
    np = S.np
    shape = S.shape(x)
    data = np.ma.masked_array(data=x, mask=mask) if mask is not None else x
    c = A.Cube(data, var_name=name)
    c.add_aux_coord(A.AuxCoord(lat, var_name='latitude'), (0, 1))
    c.add_aux_coord(A.AuxCoord(lon, var_name='longitude'), (0, 1))
    c.add_aux_coord(A.AuxCoord(qc, var_name='QC'), (0, 1))
    for n, v in more:
        c.add_aux_coord(A.AuxCoord(v, var_name=n), (0, 1) if S.shape(v) == shape else None)
    return c


class Group(object):
    def __init__(self, state):
        self.state = state

    def check_readable(self):
        return self.state != 'missing'


STATES = [('ok', 'ok', 'ok'), ('missing', 'ok', 'error'), ('ok', 'error', 'ok'), ('error', 'missing', 'error')]
PIXELS = [slice(0, 2), slice(2, 3), slice(3, 4)]
FILE = [0, 0, 1, 2]
WHERE = [[0, 0, 0, 1], [0, 1, 1, 0], [1, 1, 1, 0]]


def pipeline(S, arrangement):
    """Fields of the grid are statistics of the selected pixels of all files that could be read, and files are reported as they were found."""
    P, F = S.module(PIPE), S.module(FIELD)
    np = S.np
    where = WHERE[arrangement]
    states = S.choice('files', STATES)
    qc = [S.choice('qc%d' % k, [[0, 1, 2], [0, 2], [0, 1], [0]][k]) for k in range(4)]
    x, u = S.array('x', 4, lo=100, hi=400, dtype=F32), S.array('u', 4, lo=0, hi=50, dtype=F32)
    sys = S.array('sys', 3, lo=0, hi=9, dtype=F32)
    groups = [Group(s) for s in states]
    names = S.module(MODIS).SatelliteFieldNamesMODIS()

    class Source(object):
        @staticmethod
        def load(fieldnames, group):
            if group.state == 'error':
                raise ValueError('unreadable')
            f = groups.index(group)
            p = PIXELS[f]
            row = lambda a: np.array(a[p]).reshape(1, p.stop - p.start)
            c = cube(S, row(x), np.zeros((1, p.stop - p.start), np.bool_), np.array([qc[p]], np.int16), np.array([[0.5] * (p.stop - p.start)]), np.array([[w + 0.5 for w in where[p]]]),
                     [('LST_unc_ran', row(u)), ('LST_unc_loc_atm', row(u)), ('LST_unc_loc_sfc', row(u)), ('LST_unc_sys', sys[f:f + 1])])
            return S.module(SAT).SatelliteCollection(names, c)

    class Inputs(object):
        filenames = groups
    line = P.GridBinPipelineSatellite(F.GridFieldAxis(-0.5, 1.0, 1, 'latitude', False), F.GridFieldAxis(-0.5, 1.0, 2, 'longitude', False), 1, 0, 3, 0)
    keep = P.SatelliteCollection
    P.SatelliteCollection = Source
    try:
        report = line.run(names, Inputs)
    finally:
        P.SatelliteCollection = keep
    S.check([r.status for r in report.load] == list(states), 'report of the files')
    S.check([r.filename for r in report.load] == groups, 'files reported in order')
    bins = line.bins
    if 'ok' not in states:
        S.check(len(bins) == 0, 'nothing without files')
        return
    S.check(sorted(b.var_name for b in bins) == sorted(['ts_number_of_observations', 'total_number_of_observations', 'tsmean', 'tsmax', 'tsmin', 'tsvariance', 'tsmean_unc_ran',
                                                        'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_spl', 'tsmean_unc_sys']), 'fields of the result')
    get = lambda n, j: S.flat(bins.get_field(n).data)[j]
    read = [k for k in range(4) if states[FILE[k]] == 'ok']
    for j in (0, 1):
        valid = [k for k in read if where[k] == j and qc[k] == 0]
        total = [k for k in read if where[k] == j and qc[k] != 1]
        n, t = len(valid), len(total)
        S.eq(get('ts_number_of_observations', j), n, 'number of clear pixels')
        S.eq(get('total_number_of_observations', j), t, 'number of pixels of the time of day')
        if not n:
            for f in ('tsmean', 'tsmax', 'tsmin', 'tsvariance', 'tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_spl', 'tsmean_unc_sys'):
                S.check(get(f, j) is None, 'cells without clear pixels are masked')
            continue
        total_x = S.sum([x[k] for k in valid])
        S.close(get('tsmean', j) * n, total_x, 'mean', tol=1e-2)
        S.eq(get('tsmax', j), S.max([x[k] for k in valid]), 'maximum')
        S.eq(get('tsmin', j), S.min([x[k] for k in valid]), 'minimum')
        for f, d in (('tsmean_unc_ran', n * n), ('tsmean_unc_loc_atm', n), ('tsmean_unc_loc_sfc', n)):
            S.close(get(f, j) * get(f, j) * d, S.sum([u[k] * u[k] for k in valid]), f, tol=1e-2)
        S.close(get('tsmean_unc_sys', j) * get('tsmean_unc_sys', j) * n, S.sum([sys[FILE[k]] * sys[FILE[k]] for k in valid]), 'systematic uncertainty', tol=1e-2)
        if n < 2:
            S.check(get('tsvariance', j) is None, 'no variance of one pixel')
            S.check(get('tsmean_unc_spl', j) is None, 'no sampling uncertainty of one pixel')
        else:
            var, spl = get('tsvariance', j), get('tsmean_unc_spl', j)
            S.close(var * (n - 1) * n, S.sum([n * x[k] * x[k] for k in valid]) - total_x * total_x, 'variance', tol=3)
            S.check(spl >= 0, 'sampling uncertainty not negative')
            S.close(spl * spl * (t - 1) * (t - 1), (t - n) * (t - n) * var, 'sampling uncertainty', tol=1)


def run_files(S):
    """The command of the first gridding program: every file that can be read once, others reported."""
    G, F = S.module(GRID), S.module(FILEAGG)
    np = S.np
    a = F.SatelliteFileAggregator(G.GridAxis(0.0, 1.0, 1), G.GridAxis(0.0, 1.0, 2), 'LST', 1, 0, 3, 0, 10)
    where = S.choice('where', WHERE)
    states = S.choice('files', STATES)
    qc = [S.choice('qc%d' % k, [[0, 1, 2], [0, 2], [0], [0, 1]][k]) for k in range(4)]
    x, u = real(S, 'x', 4, 1), real(S, 'u', 4, 0, 50)
    sys = S.array('sys', 3, lo=0, hi=9, dtype=F32)
    groups = [Group(s) for s in states]

    def load(group):
        if group.state == 'error':
            raise ValueError('unreadable')
        f = groups.index(group)
        p = PIXELS[f]
        n = p.stop - p.start
        return File(S, {'LST': x[p], 'QC': np.array(qc[p]), 'lat': np.array([0.5] * n), 'lon': np.array([w + 0.5 for w in where[p]]),
                        'LST_unc_ran': u[p], 'LST_unc_loc_atm': u[p], 'LST_unc_loc_sfc': u[p], 'LST_unc_sys': sys[f]})
    keep = F.SatelliteFile
    F.SatelliteFile = load
    try:
        result = a.run(groups)
    finally:
        F.SatelliteFile = keep
    S.check([r.status for r in result.load] == list(states), 'report of the files')
    S.check([r.filename for r in result.load] == groups, 'files reported in order')
    if 'ok' not in states:
        S.check(result.fields is None, 'nothing without files')
        return
    X, U, Y = list(S.flat(x)), list(S.flat(u)), [sys[FILE[k]] for k in range(4)]
    cells(S, result.fields, where, qc, [k for k in range(4) if states[FILE[k]] == 'ok'], X, U, Y)


def cells(S, fields, where, qc, read, X, U, Y):
    for j in (0, 1):
        valid = [k for k in read if where[k] == j and qc[k] == 0]
        total = [k for k in read if where[k] == j and qc[k] != 1]
        stats(S, fields, j, valid, X, U, U, U, Y)
        S.eq(list(S.flat(fields['total_number_of_observations']))[j], len(total), 'all pixels of the time of day')
        var, spl = list(S.flat(fields['tsvariance']))[j], list(S.flat(fields['tsmean_unc_spl']))[j]
        n, t = len(valid), len(total)
        if n < 2:
            S.eq(var, -1.0, 'no variance of fewer than two pixels')
            S.eq(spl, -1.0, 'no sampling uncertainty of fewer than two pixels')
        else:
            sx = S.sum([X[k] for k in valid])
            S.close(var * (n - 1) * n, S.sum([n * X[k] * X[k] for k in valid]) - sx * sx, 'variance', tol=3)
            S.check(spl >= 0, 'sampling uncertainty not negative')
            S.close(spl * spl * (t - 1) * (t - 1), (t - n) * (t - n) * var, 'sampling uncertainty', tol=1)


def readable(S):
    """A source can be read if all its files are there and may be read."""
    import os
    there = dict((n, (S.fork_bool('there_' + n), S.fork_bool('allowed_' + n))) for n in ('lst', 'aux'))
    F, A = S.module(SATFILE), S.module(SAT)
    ok = lambda p: there[os.path.basename(p)]

    class Path(object):
        def __getattr__(self, name):
            return getattr(os.path, name)
        isfile = exists = staticmethod(lambda p: ok(p)[0])

    class Os(object):
        path = Path()
        R_OK = os.R_OK
        access = staticmethod(lambda p, mode: ok(p)[0] and (ok(p)[1] or mode != os.R_OK))
    want = all(a and b for a, b in there.values())
    kept = F.os, A.os
    F.os = A.os = Os
    try:
        f = F.SatelliteFilename('x/lst', 'x/aux')
        S.check(bool(f.check_readable()) == want, 'readable exactly if both files are')
        g = A.SatelliteFilenames()
        g.extend(['x/lst', 'x/aux'])
        S.check(bool(g.check_readable()) == want, 'readable exactly if both files are')
    finally:
        F.os, A.os = kept
