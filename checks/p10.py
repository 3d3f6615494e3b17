"""P10: statistics of satellite pixels in each cell of a grid."""
from vf.api import harness
from checks import satpipe
from checks.satpipe import stats

AGG = 'eustace.satgrid.aggregate_grid'
FILEAGG = 'eustace.satgrid.file_aggregate_grid'
GRID = 'eustace.satgrid.grid'
SATFILE = 'eustace.satgrid.satellite_file'
FIELD = 'eustace.satgrid_iris.gridbin.gridfieldlist'
BIN = 'eustace.satgrid_iris.gridbin.gridbin'
OP = 'eustace.satgrid_iris.gridbin.operation.'
SAT = 'eustace.satgrid_iris.satellite'
FLOATS = ('floating point numbers are real numbers; aggregate.c is interpreted from its source, and compiled for the replay',)
STUB = ('iris cubes and coordinates are stand-ins; the replay uses iris itself', 'floating point numbers are real numbers')
F32 = 'float32'


def iris():
    from vf import fakeiris
    return fakeiris.modules()


def real(S, name, n, lo=-500, hi=500):
    return S.array(name, n, lo=lo, hi=hi, dtype=F32)


WHERE = [[0, 0, 0], [1, 3, 1], [0, 1, 5], [3, 2, 3], [4, 4, 0]]


def idx(S, where):
    return S.np.array(where, S.np.int32)


def which_grid(S, A, kind):
    return A.AggregateGridArray((2, 3), 3) if kind == 'array' else A.AggregateGridCountSumMinMax((2, 3))


@harness(params=[('sums',), ('array',)], assumptions=FLOATS, max_paths=20000, tol=1e-4,
         bounds='3 pixels in 5 arrangements over a 2 x 3 grid, in one file or two, any temperatures 1..500 and uncertainties 0..50')
def cell_statistics(S, kind):
    """Mean, extremes, count and propagated uncertainties of a cell are those of its pixels over all files; empty cells are flagged."""
    A = S.module(AGG)
    g = which_grid(S, A, kind)
    where = S.choice('where', WHERE)
    x, ran, atm, sfc = real(S, 'x', 3, 1), real(S, 'ran', 3, 0, 50), real(S, 'atm', 3, 0, 50), real(S, 'sfc', 3, 0, 50)
    sys = [S.real('sys0', 0, 50), S.real('sys1', 0, 50)]
    cut = S.choice('first', [1, 3])
    parts = [(slice(0, cut), sys[0])] + ([(slice(cut, 3), sys[1])] if cut < 3 else [])
    for p, s in parts:
        g.aggregate_at_indices(idx(S, where[p]), x[p], ran[p], atm[p], sfc[p], s)
    fields = g.compute_fields(-1.0)
    each = [sys[0] if k < cut else sys[1] for k in range(3)]
    for j in range(6):
        stats(S, fields, j, [k for k in range(3) if where[k] == j], *[list(S.flat(q)) for q in (x, ran, atm, sfc)], each)


@harness(assumptions=FLOATS, bounds='3 pixels in 5 arrangements over a 2 x 3 grid, any temperatures, any invalid flag', tol=1e-4)
def sums_counts_deviations(S):
    """Counts, sums, means and squared deviations per cell."""
    A = S.module(AGG)
    where = S.choice('where', WHERE)
    x = real(S, 'x', 3)
    c, s, d = A.AggregateGridCount((2, 3)), A.AggregateGridSum((2, 3)), A.AggregateGridSumDevSq((2, 3))
    means = real(S, 'mean', (2, 3))
    flag = S.real('flag', -1000, 1000)
    for p in (slice(0, 2), slice(2, 3)):
        c.aggregate_at_indices(idx(S, where[p]))
        s.aggregate_at_indices(idx(S, where[p]), x[p])
        d.aggregate_at_indices(means, idx(S, where[p]), x[p])
    m = s.get_mean(flag)
    for j in range(6):
        mine = [k for k in range(3) if where[k] == j]
        S.eq(list(S.flat(c.count))[j], len(mine), 'count')
        S.eq(list(S.flat(s.count))[j], len(mine), 'count of the sum')
        S.close(list(S.flat(s.sum))[j], S.sum([x[k] for k in mine]), 'sum', tol=1e-3)
        S.close(list(S.flat(d.sum_devsq))[j], S.sum([(x[k] - list(S.flat(means))[j]) * (x[k] - list(S.flat(means))[j]) for k in mine]), 'squared deviations', tol=1)
        S.close(list(S.flat(m))[j], S.sum([x[k] for k in mine]) / len(mine) if mine else flag, 'mean or flag', tol=1e-3)


@harness(assumptions=FLOATS, max_paths=20000, tol=1e-4, bounds='two files of 2 pixels in 3 arrangements over a 1 x 2 grid, each pixel day or night, clear or cloudy; any temperatures and uncertainties')
def files_to_fields(S):
    """Fields of a set of files: statistics of the clear pixels, variance and sampling uncertainty from clear and all pixels of the time of day."""
    satpipe.files_to_fields(S)


# -- the same over fields of cubes
def bins(S):
    F, B = S.module(FIELD), S.module(BIN)
    return B.GridBins([F.GridFieldAxis(-0.5, 1.0, 2, 'latitude', False), F.GridFieldAxis(-0.5, 1.0, 3, 'longitude', False)])


def pixels(S, where, x, mask, extra=()):
    A = S.module(SAT)
    np = S.np
    cube = A.Cube(np.ma.masked_array(data=x, mask=mask), var_name='LST')
    cube.add_aux_coord(A.AuxCoord(np.array([w // 3 + 0.5 for w in where]), var_name='latitude'), 0)
    cube.add_aux_coord(A.AuxCoord(np.array([w % 3 + 0.5 for w in where]), var_name='longitude'), 0)
    for name, v in extra:
        cube.add_aux_coord(A.AuxCoord(v, var_name=name), 0 if S.shape(v) == (len(where),) else None)
    return cube


@harness(overrides=iris, assumptions=STUB, max_paths=20000, tol=1e-4,
         bounds='3 pixels in 5 arrangements over a 2 x 3 grid, any mask, in one cube or two, any values; existing means of any value')
def bin_operations(S):
    """Sums, counts, extremes, squares and deviations of every bin are those of its unmasked pixels; bins without pixels stay masked."""
    F = S.module(FIELD)
    D = F.GridFieldDescriptor
    np = S.np
    g = bins(S)
    where = S.choice('where', [[0, 0, 0], [1, 3, 1], [0, 1, 2], [5, 2, 3], [2, 2, 4]])
    x, u = real(S, 'x', 3), real(S, 'u', 3, 0, 50)
    mask = S.array('m', 3, 'bool')
    const = S.array('k', 2, lo=0, hi=50, dtype=F32)
    scm, cnt, sq, dev = S.module(OP + 'sumcountmaxmin').GridBinOperationSumCountMaxMin(), S.module(OP + 'count').GridBinOperationCount(), \
        S.module(OP + 'sumsq').GridBinOperationSumSq(), S.module(OP + 'sumsqdev').GridBinOperationSumSqDev()
    csq = S.module(OP + 'sumsq').GridBinOperationSumConstSq()
    scm.set_input_descriptor('inputvalue', D('LST')).set_output_descriptor('total', D('total', dtype=np.float32)) \
       .set_output_descriptor('count', D('count', dtype=np.int32, usemask=False)) \
       .set_output_descriptor('maximum', D('max', dtype=np.float32), initialvalue=-1.0E20).set_output_descriptor('minimum', D('min', dtype=np.float32), initialvalue=1.0E20)
    cnt.set_input_descriptor('inputvalue', D('LST')).set_output_descriptor('count', D('only', dtype=np.int32, usemask=False))
    sq.set_input_descriptor('inputvalue', D('u')).set_output_descriptor('sumsq', D('sumsq', dtype=np.float32))
    csq.set_input_descriptor('singlevalue', D('k')).set_output_descriptor('sumsq', D('constsq', dtype=np.float32))
    dev.set_input_descriptor('inputvalue', D('LST')).set_output_descriptor('existingmean', D('mean', dtype=np.float32)).set_output_descriptor('sumsqdev', D('dev', dtype=np.float32))
    means = real(S, 'mean', (2, 3))
    g.create_field(D('mean'), np.ma.masked_array(data=means, mask=np.zeros((2, 3), np.bool_)))
    cut = S.choice('first', [1, 3])
    parts = [(0, cut, const[0])] + ([(cut, 3, const[1])] if cut < 3 else [])
    for a, b, c in parts:
        p = slice(a, b)
        cube = pixels(S, where[p], x[p], mask[p], [('u', u[p]), ('k', const[a:a + 1] if a == 0 else const[1:2])])
        m = g.compute_input_map(cube)
        for op in (scm, cnt, sq, csq, dev):
            op.run(m)
    hidden = [bool(v) for v in S.flat(mask)]
    get = lambda n, j: list(S.flat(getattr(g.get_field(n).data, 'data') if hasattr(g.get_field(n).data, 'mask') else g.get_field(n).data))[j]
    for j in range(6):
        mine = [k for k in range(3) if where[k] == j and not hidden[k]]
        for n in ('total', 'max', 'min', 'sumsq', 'constsq', 'dev'):
            S.eq(list(S.flat(g.get_field(n).data.mask))[j], not mine, 'bins without pixels are masked')
        S.eq(get('count', j), len(mine), 'count')
        S.eq(get('only', j), len(mine), 'occupancy')
        if mine:
            S.close(get('total', j), S.sum([x[k] for k in mine]), 'sum', tol=1e-3)
            S.eq(get('max', j), S.max([x[k] for k in mine]), 'maximum')
            S.eq(get('min', j), S.min([x[k] for k in mine]), 'minimum')
            S.close(get('sumsq', j), S.sum([u[k] * u[k] for k in mine]), 'sum of squares', tol=1e-2)
            S.close(get('constsq', j), S.sum([const[0 if k < cut else 1] * const[0 if k < cut else 1] for k in mine]), 'sum of squares of the constant of its file', tol=1e-2)
            mu = list(S.flat(means))[j]
            S.close(get('dev', j), S.sum([(x[k] - mu) * (x[k] - mu) for k in mine]), 'squared deviations', tol=1)
    S.raises(ValueError, lambda: scm.set_input_descriptor('other', D('LST')), 'unknown input')
    S.raises(ValueError, lambda: scm.set_output_descriptor('other', D('LST')), 'unknown output')


@harness(params=[(0,), (2,)], overrides=iris, assumptions=STUB, max_paths=20000, tol=1e-3,
         bounds='3 files of 2, 1 and 1 pixels in 2 arrangements over 1 x 2 cells, each file there, missing or unreadable, pixels clear, cloudy or of the other time of day, any temperatures and uncertainties')
def pipeline(S, arrangement):
    """Fields of the grid are statistics of the selected pixels of all files that could be read."""
    satpipe.pipeline(S, arrangement)


@harness(assumptions=FLOATS, max_paths=20000, tol=1e-4, bounds='3 files of 2, 1 and 1 pixels in 3 arrangements over 1 x 2 cells, each file there, missing or unreadable, pixels clear, cloudy or of the other time of day, any temperatures and uncertainties')
def run_files(S):
    """Statistics are those of the selected pixels of all files that could be read."""
    satpipe.run_files(S)
