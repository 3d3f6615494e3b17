"""P32: gridded satellite files hold the fields of the time or day asked for."""
import types
from datetime import datetime, timedelta

from vf.api import harness
from vf import fakeiris, fakenc

BUILDER = 'eustace.satgrid.filebuilder'
COMMAND = 'eustace.satgrid.command'
SATFILE = 'eustace.satgrid.satellite_file'
FILEAGG = 'eustace.satgrid.file_aggregate_grid'
SAT = 'eustace.satgrid_iris.satellite'
IRISCOMMAND = 'eustace.satgrid_iris.command'

OVER = dict(fakenc.modules())
SAVER = types.ModuleType('eustace.satgrid_iris.saver')
SAVER.write_cubes = None
OVERIRIS = dict(fakeiris.modules(), **fakenc.modules())
FILES = ['netCDF files are stand-ins that give back what was put in, missing cells masked, packed values rounded to whole numbers']
TEMPERATURES = ['tsmean', 'tsmin', 'tsmax']
UNCERTAINTIES = ['tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_sys', 'tsmean_unc_spl']
COUNTS = ['ts_number_of_observations', 'total_number_of_observations']
VARIANCE = ['tsvariance']
# range and precision of what has to be stored
RANGE = dict([(n, (180.0, 350.0, 0.0026)) for n in TEMPERATURES] + [(n, (0.0, 60.0, 0.0006)) for n in UNCERTAINTIES] + [(n, (0.0, 2000.0, 0.0000026)) for n in VARIANCE])


def gridded(S, nlat, nlon, invalid, chosen):
    """Any values of the field chosen, values of their own in others; invalid(name, cell) says which cells are flagged."""
    np = S.np
    want, fields = {}, {}
    for n in sorted(RANGE):
        lo, hi, _ = RANGE[n]
        want[n] = [None if invalid(n, k) else S.real('%s[%d]' % (n, k), lo, hi) if n == chosen else lo + 10.0 + len(n) + 3.25 * sorted(RANGE).index(n) + 0.125 * k for k in range(nlat * nlon)]
        fields[n] = np.array([-1.0 if v is None else v for v in want[n]], dtype=np.float64).reshape(nlat, nlon)
    for n in COUNTS:
        want[n] = [S.int('%s[%d]' % (n, k), 0, 32000) if n == chosen else 100 * len(n) + k for k in range(nlat * nlon)]
        fields[n] = np.array(want[n], dtype=np.int32).reshape(nlat, nlon)
    for n, limit, count in (('latitude', 90, nlat), ('longitude', 180, nlon)):
        want[n] = [S.real('%s[%d]' % (n, k), -limit, limit) if n == chosen else 10.5 - 2.0 * len(n) + 3.0 * k for k in range(count)]
    for n in ('latitude', 'longitude'):
        fields[n] = np.array(want[n], dtype=np.float64)
    return fields, want


def held(S, dataset, want, nlat, nlon):
    """The file holds the fields under their own names."""
    for n in sorted(want):
        S.check(n in dataset.variables, 'every field is there')
        v = dataset.variables[n]
        S.eq(list(S.shape(v)), [nlat, nlon] if n not in ('latitude', 'longitude') else [len(want[n])], 'shape of the field')
        got = S.flat(v[:])
        for g, w in zip(got, want[n]):
            if w is None:
                S.check(g is None, 'invalid cells are missing')
            elif n in COUNTS:
                S.eq(g, w, 'counts')
            else:
                S.check(g is not None, 'valid cells are there')
                S.close(g, w, 'values of the field', tol=RANGE.get(n, (0, 0, 1e-4))[2])


def room(S, dataset, want):
    """What is stored fits the type, apart from the value that stands for missing cells."""
    for n in sorted(set(want) & set(RANGE)):
        v = dataset.variables[n]
        v.set_auto_maskandscale(False)
        raw = S.flat(v[:])
        v.set_auto_maskandscale(True)
        limits = {2: (-32768, 32767), 4: (-2**31, 2**31 - 1)}.get(S.np.dtype(v.dtype).itemsize) if S.np.dtype(v.dtype).kind == 'i' else None
        if limits is None:
            continue
        for r, w in zip(raw, want[n]):
            if w is not None and r is not None:
                S.check(S.and_(r >= limits[0], r <= limits[1]), 'values fit the type stored')
                S.check(r != v._FillValue, 'values are not taken for missing ones')


def load(S, name):
    return S.module('eustace.outputformats.filebuilder').Dataset(name, 'r')


def n_flags(S, chosen, k):
    return chosen in RANGE and S.fork_bool('invalid[%d]' % k)


@harness(params=[(1, 2), (2, 1), (2, 3)], overrides=OVER, assumptions=FILES, max_paths=4000,
         bounds='grids of 1 x 2, 2 x 1 and 2 x 3 cells, temperatures 180 to 350 K, uncertainties to 60 K, variances to 2000 K2, counts to 32000, one field (2 cells: any of them, 6 cells: 4 of them) of any values with two cells flagged invalid or not, the others of given values; with and without compression')
def fields(S, nlat, nlon):
    """Each field is under its own name with its own values to the stated precision; invalid cells, and only those, are missing."""
    cells = nlat * nlon
    chosen = S.choice('field', sorted(RANGE) + COUNTS + ['latitude', 'longitude'] if cells == 2 else ['tsmean', 'tsvariance', 'ts_number_of_observations', 'longitude'])
    free = 2
    flags = [n_flags(S, chosen, k) for k in range(free)] + [False] * (cells - free)
    f, want = gridded(S, nlat, nlon, lambda n, k: flags[k] if n == chosen else (k == cells - 1), chosen)
    name = S.file('gridded.nc')
    S.module(BUILDER).FileBuilderAggregateField.save(name, f, 'the source', S.choice('compression', [0, 4] if cells == 2 else [4]))
    d = load(S, name)
    held(S, d, want, nlat, nlon)
    S.check(d.source == 'the source', 'source of the file')
    room(S, d, want)
    d.close()


class Args(object):
    x0, xs, xn, y0, ys, yn = 0.0, 1.0, 2, 0.0, 1.0, 1
    qc_mask_obs, qc_filter_obs, qc_mask_valid, qc_filter_valid = 1, 0, 3, 0
    obsname, wrapcoords, maxbinobs, source, complevel = 'LST', False, 512, 'here', 4
    path, pattern_lst, pattern_aux = '/data', '%Y/%m/%d/LST_%Y%m%d_%H%M.nc', 'aux/%Y%m/AUX_%d%H%M_%Y.nc'

    def __init__(self, date, o='out.nc'):
        self.date, self.o = date, o


DAYS = ['20030101', '20040229', '19991231', '20100731']


def lists(S):
    return S.choice('program', ['first', 'second'])


def names_of(S, program, args):
    """Mode and pairs of names."""
    if program == 'first':
        m = S.module(COMMAND).FilenameList(args)
        return m.time_mode, [(f.filename_lst, f.filename_aux) for f in m.filenames]
    m = S.module(SAT).SatelliteInputList(args)
    return m.time_mode, [tuple(f) for f in m.filenames]


def wanted_names(args, t):
    return ('/data/' + t.strftime(args.pattern_lst), '/data/' + t.strftime(args.pattern_aux))


@harness(overrides=OVERIRIS, bounds='4 days including the last of a year and a leap day; any time of day in whole minutes of 12 values, and the whole day; both programs')
def inputs(S):
    """A day asked for is every five minutes of that day, once each and in order; a time asked for is that time: for each the pair of files named for it."""
    program = lists(S)
    day = S.choice('day', DAYS)
    start = datetime.strptime(day, '%Y%m%d')
    clock = S.choice('time', [None, '0000', '0005', '0955', '1200', '1234', '2355', '2359'])
    args = Args(day if clock is None else day + clock)
    mode, got = names_of(S, program, args)
    if clock is None:
        S.check(mode == 'day', 'a whole day')
        want = [wanted_names(args, start + timedelta(minutes=5 * k)) for k in range(288)]
    else:
        S.check(mode == 'single', 'a single time')
        want = [wanted_names(args, datetime.strptime(day + clock, '%Y%m%d%H%M'))]
    S.check(len(got) == len(want), 'number of inputs')
    S.check([g[0] for g in got] == [w[0] for w in want], 'names of the temperature files')
    S.check([g[1] for g in got] == [w[1] for w in want], 'names of the auxiliary files')


CORE = ['LST', 'QC', 'lat', 'lon']
AUX = ['LST_unc_ran', 'LST_unc_loc_atm', 'LST_unc_loc_sfc', 'LST_unc_sys']


class Handle(object):
    """What is read of a file; each file has variables of every name."""

    class Var(object):
        def __init__(self, v):
            self.v = v

        def __getitem__(self, i):
            return self.v

    def __init__(self, values):
        self.variables = dict((k, Handle.Var(v)) for k, v in values.items())


@harness(bounds='2 x 2 pixels of any values and flags, selection by masks and values 0 to 7, every variable present in both files')
def variables(S):
    """Temperatures, flags and coordinates are read from the temperature file and uncertainties from the auxiliary file; the pixels chosen are those whose masked flags have the value asked for."""
    M = S.module(SATFILE)
    np = S.np
    v = {}
    for f in ('lst', 'aux'):
        v[f] = dict((n, S.array('%s.%s' % (f, n), 4, lo=0, hi=400).reshape(2, 2)) for n in CORE + AUX if n != 'QC')
        v[f]['QC'] = np.array([S.int('%s.qc%d' % (f, k), 0, 7) for k in range(4)]).reshape(2, 2)
    M.Dataset = lambda name, *a, **k: Handle(v[name])
    f = M.SatelliteFile(M.SatelliteFilename('lst', 'aux'))
    for n in CORE:
        S.eq(S.flat(f.get_variable(n)), S.flat(v['lst'][n]), 'variables of the temperature file')
    for n in AUX:
        S.eq(S.flat(f.get_variable(n)), S.flat(v['aux'][n]), 'uncertainties of the auxiliary file')
    S.raises(ValueError, f.get_variable, 'other names are refused', 'LST_unc')
    mask, flt = S.choice('select', [(1, 0), (3, 0), (7, 0), (3, 2), (6, 4), (1, 1)])
    qc = S.flat(v['lst']['QC'])
    chosen = [int(k) for k in S.flat(f.get_indices_from_qc(mask, flt))]
    S.eq(chosen, sorted(set(chosen)), 'pixels in order, once each')
    for k in range(4):
        S.check((qc[k] & mask == flt) if k in chosen else S.not_(qc[k] & mask == flt), 'pixels chosen by their flags')
    n = S.choice('name', ['LST', 'LST_unc_ran', 'lon'])
    S.eq(S.flat(f.get_variable_at_indices(n, np.array(chosen, dtype=np.int64))), [S.flat(f.get_variable(n))[k] for k in chosen], 'values of the pixels chosen')


@harness(overrides=OVER, assumptions=FILES, bounds='a run that gives fields of 1 x 2 cells or none, any values of one of three fields; a day or a time asked for')
def run(S):
    """The first gridding program saves what the aggregation of the inputs gives, under the name and source asked for, and says whether there was any."""
    C = S.module(COMMAND)
    some = S.fork_bool('some')
    f, want = gridded(S, 1, 2, lambda n, k: k == 1 and n != 'tsmin', S.choice('field', ['tsmin', 'tsmean_unc_sys', 'total_number_of_observations']))
    asked = {}

    class Result(object):
        fields, load = (f if some else None), ['the report']

    class Aggregator(object):
        @staticmethod
        def from_command_arguments(args):
            asked['args'] = args
            return Aggregator()

        def run(self, filenames):
            asked['names'] = [(n.filename_lst, n.filename_aux) for n in filenames]
            return Result()
    C.SatelliteFileAggregator = Aggregator
    out = S.file('result.nc')
    fakenc.FILES.pop(str(out), None)
    args = Args(S.choice('date', ['20040229', '200402292355']), out)
    r = C.run(args)
    S.check(asked.get('args') is args, 'arguments of the aggregation')
    S.check(asked.get('names') == names_of(S, 'first', args)[1], 'inputs of the aggregation')
    S.check(r.load == ['the report'], 'report of the files')
    S.check(r.time_mode == ('day' if len(args.date) == 8 else 'single'), 'mode of the run')
    there = not S.attempt(load, S, out).raised
    S.check(there == some, 'a file is saved exactly if there are fields')
    S.check(r.output_status == ('ok' if some else 'no_data'), 'status of the run')
    if some:
        d = load(S, out)
        held(S, d, want, 1, 2)
        S.check(d.source == 'here', 'source of the file')
        d.close()


@harness(overrides=dict(OVERIRIS, **{'eustace.satgrid_iris.saver': SAVER}), bounds='a pipeline that gives no or some fields; a day or a time asked for')
def run_second(S):
    """The second gridding program runs the inputs asked for and writes its fields exactly if there are any."""
    C = S.module(IRISCOMMAND)
    bins = S.choice('bins', [(), ('a',), ('a', 'b')])
    asked, written = {}, []

    class Pipeline(object):
        def __init__(self):
            self.bins = []

        @staticmethod
        def from_command_arguments(args):
            asked['args'] = args
            return Pipeline()

        def run(self, names, inputlist):
            asked['names'] = [tuple(n) for n in inputlist.filenames]
            asked['fields'] = names.primary
            self.bins.extend(bins)
            return 'the report'
    C.GridBinPipelineSatellite = Pipeline
    C.write_cubes = lambda filename, source, cubes: written.append((filename, source, list(cubes)))
    args = Args(S.choice('date', ['20040229', '200402292355']))
    r = C.run(args)
    S.check(asked.get('args') is args, 'arguments of the pipeline')
    S.check(asked.get('names') == names_of(S, 'second', args)[1], 'inputs of the pipeline')
    S.check(asked.get('fields') == 'LST', 'names of the fields')
    S.check(r.run_result == 'the report', 'report of the files')
    S.check(r.time_mode == ('day' if len(args.date) == 8 else 'single'), 'mode of the run')
    S.check(written == ([('out.nc', 'here', list(bins))] if bins else []), 'fields written exactly if there are any')
    S.check(r.output_status == ('ok' if bins else 'no_data'), 'status of the run')


class ClassDataset(fakenc.Group):
    """Only to be extended."""


def saving():
    nc = dict(fakenc.modules())['netCDF4']
    nc.Dataset = ClassDataset
    m = types.ModuleType('iris.fileformats.netcdf')
    m.Saver = object
    f = types.ModuleType('iris.fileformats')
    f.netcdf = m
    return {'netCDF4': nc, 'iris.fileformats': f, 'iris.fileformats.netcdf': m}


@harness(params=sorted(RANGE), overrides=dict(fakeiris.modules(), **saving()), bounds='any value in 180 to 350 K, uncertainties to 60 K, variances to 2000 K2')
def packing(S, name):
    """The storage declared for each field of the second gridding program keeps any value to the stated precision, in a type that has room for it, and apart from missing ones."""
    np = S.np
    S.module('eustace.satgrid_iris.saver')
    table = S.module('eustace.outputformats.iriscubesaver').NetCDFSaverEUSTACE.storage_override
    S.check(name in table, 'storage is declared')
    t = table[name]
    lo, hi, tol = RANGE[name]
    x = S.real('x', lo, hi)
    kind = np.dtype(t.datatype)
    S.check(kind.kind == 'i' and kind.itemsize in (2, 4), 'stored as whole numbers')
    limit = 2**(8 * kind.itemsize - 1)
    packed = (x - float(t.add_offset)) / float(t.scale_factor)
    k = S.int('k', -2**50, 2**50)
    S.assume(S.and_(k - packed <= 0.5, packed - k <= 0.5))          # netCDF4 rounds to the nearest
    S.check(S.and_(k >= -limit, k < limit), 'values fit the type stored')
    S.check(k != int(t.fill_value), 'values are not taken for missing ones')
    S.close(k * float(t.scale_factor) + float(t.add_offset), x, 'precision of the field', tol=tol)
