"""P28: land and ocean air temperature products hold the fields of their own day's model output."""
import types
from vf.api import harness
from vf import fakeiris, fakenc, symtext

REMAP = 'eustace.surfaceairmodel.fileio.remap'
LAND = 'eustace.surfaceairmodel.fileio.land'
OCEAN = 'eustace.surfaceairmodel.fileio.ocean'
ICE = 'eustace.surfaceairmodel.fileio.ice'
CONSISTENT = 'eustace.surfaceairmodel.fileio.consistent'
CUBEMAP = 'eustace.surfaceairmodel.fileio.cubemap'
POST = 'eustace.surfaceairmodel.fileio.post_processing'
MODELLAND = 'eustace.surfaceairmodel.model_land'
MODELOCEAN = 'eustace.surfaceairmodel.model_ocean'
RUN = 'eustace.surfaceairmodel.run_%s'
DEFS = 'eustace.outputformats.definitions'
BUILDER = 'eustace.outputformats.globalfield_filebuilder'
RANGES = 'eustace.surfaceairmodel.correlation_ranges'

OVER = dict(fakeiris.modules(), **fakenc.modules())
OVERRE = dict(OVER, re=symtext.RE)
FILES = ['netCDF files and iris cubes are stand-ins that give back what was put in, missing cells masked']
REAL = ['arithmetic over the reals']

LANDPARTS = {q: ['unc_%s_%s' % (k, q) for k in ('rand', 'corr_atm', 'corr_sfc', 'sys')] for q in ('tasmin', 'tasmax')}
LANDCOPIES = dict([('%s_unc_%s' % (q, k), 'unc_%s_%s' % (k, q)) for q in ('tasmin', 'tasmax') for k in ('rand', 'corr_atm', 'corr_sfc', 'sys')] +
                  [(n, n) for n in ('tasmin', 'tasmax', 'tasmin_model_number', 'tasmax_model_number')])
OCEANPARTS = ['unc_rand_tas', 'unc_corr_tas', 'unc_syst_tas', 'unc_corr2_tas', 'unc_syst2_tas'] + ['unc_parameter_%d_tas' % k for k in range(5)]


def field(S, name, shape, time_last, masks=True, lo=0, hi=400):
    """A field as a file gives it (with a time dimension of one), and its cells, None where missing."""
    n = shape[0] * shape[1]
    v = [S.real('%s[%d]' % (name, k), lo, hi) for k in range(n)]
    full = shape if time_last is None else shape + (1,) if time_last else (1,) + shape
    if masks is None:
        return S.np.ma.masked_array(S.np.array(v).reshape(full)), v
    m = [S.fork_bool('%s.missing[%d]' % (name, k)) if masks is True else masks[k] for k in range(n)]
    return S.np.ma.masked_array(S.np.array(v).reshape(full), mask=S.np.array(m).reshape(full)), [None if k else x for x, k in zip(v, m)]


class File(object):
    """What the code reads of a netCDF file."""

    class Var(object):
        def __init__(self, data, units='days since then'):
            self.data, self.units = data, units
            self.shape, self.ndim = getattr(data, 'shape', ()), getattr(data, 'ndim', 0)

        def __getitem__(self, i):
            return self.data[i].copy() if hasattr(self.data[i], 'copy') else self.data[i]

    def __init__(self, fields):
        self.variables = {k: File.Var(v) for k, v in fields.items()}

    def close(self):
        pass


def small(S, shape):
    S.module(DEFS).GLOBAL_FIELD_SHAPE = (1,) + shape


@harness(params=[False, True, None], overrides=OVER, assumptions=FILES + REAL, bounds='fields of 2 by 2 cells, time as first or last dimension or without time; any values, any cells missing in one of the components')
def total(S, time_last):
    """The total uncertainty is the root of the sum of the squares of all components, missing wherever one of them is."""
    m = S.module(REMAP)
    small(S, (2, 2))
    parts = [field(S, 'a', (2, 2), time_last), field(S, 'b', (2, 2), time_last, [False] * 4), field(S, 'c', (2, 2), time_last, [False, True, False, False])]
    f = File({'a': parts[0][0], 'b': parts[1][0], 'c': parts[2][0], 'other': field(S, 'o', (2, 2), time_last, [False] * 4)[0]})
    results = {'kept': 1}
    m.RemapNetCDFSpecTotalUncertainty('out', ['a', 'b', 'c']).operate(results, f)
    S.check(sorted(results) == ['kept', 'out'], 'one result')
    S.eq(list(S.shape(results['out'])), [2, 2], 'a field of two dimensions')
    for got, cells in zip(S.flat(results['out']), zip(*[p[1] for p in parts])):
        if any(c is None for c in cells):
            S.check(got is None, 'missing where a component is')
        else:
            S.check(got is not None, 'present where all components are')
            S.check(got >= 0, 'not negative')
            S.close(got * got, sum(c * c for c in cells), 'sum of squares', tol=1e-6)


@harness(params=[False, True, None], overrides=OVER, assumptions=FILES + REAL, bounds='a field of 2 by 3 cells, time first, last or absent, any values, any cells missing, any offset or none')
def copy(S, time_last):
    """A field is copied cell by cell under its new name, with the offset added if one is given."""
    m = S.module(REMAP)
    data, cells = field(S, 'a', (2, 3), time_last)
    offset = S.real('offset', -300, 300) if S.fork_bool('has offset') else None
    f = File({'in': data, 'out': data * 2})
    results = {}
    m.RemapNetCDFSpecCopy('out', 'in', offset).operate(results, f)
    S.eq(list(S.shape(results['out'])), [2, 3], 'a field of two dimensions')
    S.close(results['out'], S.np.ma.masked_array(S.np.array([[0.0 if c is None else c + (offset or 0) for c in cells]]).reshape((2, 3)),
                                                 mask=S.np.array([c is None for c in cells]).reshape((2, 3))), 'cell by cell')


@harness(params=['land', 'ocean'], overrides=OVER, dates=True, assumptions=FILES + REAL, bounds='all fields of 1 by 2 cells with any values, day any second of 1850..2030')
def mapping(S, which):
    """The fields of a land or ocean product are those of the model output of the same meaning: every component under its own name, totals of all components of the same quantity, ocean temperatures in kelvin, the day as days since 1850."""
    m = S.module(REMAP)
    small(S, (1, 2))
    names = sorted(set(LANDCOPIES.values())) if which == 'land' else ['tas'] + OCEANPARTS
    data = {n: field(S, n, (1, 2), which == 'land', [False, False]) for n in names}
    t = S.datetime('t', lo=(1850, 1, 1), hi=(2030, 12, 31))
    fields = {n: d[0] for n, d in data.items()}
    fields['time'] = [7]
    asked = []

    class NC(object):
        @staticmethod
        def Dataset(name, mode='r'):
            asked.append(name)
            return File(fields)

        @staticmethod
        def num2date(number, units):
            asked.append((number, units))
            return t
    keep = m.netCDF4
    m.netCDF4 = NC
    try:
        r = (S.module(LAND).RemapNetCDFLandWP1() if which == 'land' else S.module(OCEAN).RemapNetCDFOceanWP1()).read_fields('/a/file')
    finally:
        m.netCDF4 = keep
    S.check(asked == ['/a/file', (7, 'days since then')], 'the time in the file')
    days = (t - S.date_of(1850, 1, 1)).total_seconds() / 86400.0
    S.check(S.and_(r['daynumber'] <= days, r['daynumber'] > days - 1), 'whole days since 1850')
    if which == 'land':
        copies, totals = LANDCOPIES, {'tasminuncertainty': LANDPARTS['tasmin'], 'tasmaxuncertainty': LANDPARTS['tasmax']}
    else:
        copies = dict(zip(['tas', 'tas_unc_rand', 'tas_unc_corr_sat', 'tas_unc_sys', 'tas_unc_corr_mod', 'tas_unc_sys_mod'] + ['tas_unc_parameter_%d' % k for k in range(5)],
                          ['tas'] + OCEANPARTS))
        totals = {'tasuncertainty': OCEANPARTS}
    for out, n in copies.items():
        S.check(out in r, 'field %s is there' % out)
        S.close(S.flat(r[out]), [c + (273.15 if out == 'tas' else 0) for c in data[n][1]], 'field %s' % out)
    for out, parts in totals.items():
        for k, got in enumerate(S.flat(r[out])):
            S.check(S.and_(got is not None, got >= 0), 'total %s is there' % out)
            S.close(got * got, sum(data[n][1][k] * data[n][1][k] for n in parts), 'total %s' % out, tol=1e-6)


@harness(params=['some', 'none'], overrides=OVER, assumptions=FILES, max_paths=6000,
         bounds='fields of 1 by 2 cells, any temperatures 1 to 400 K; some: any cells of lowest and highest temperature missing; none: no field has a missing cell')
def crossed(S, missing):
    """Where the lowest temperature of the day is above the highest, every land field is masked; all other cells and the number removed are as they were."""
    c, d = S.module(CONSISTENT), S.module(DEFS)
    n = 2
    extra = [d.SURFACEAIRMODEL_ANCILLARY_LAND_UNCRANDTASMIN, d.SURFACEAIRMODEL_ANCILLARY_LAND_TMAXMODELNUMBER]
    results, before = {'daynumber': 3}, {}
    for v in (d.TASMIN, d.TASMAX, d.TASMINUNCERTAINTY, d.TASMAXUNCERTAINTY, extra[0], extra[1]):
        masks = None if missing == 'none' else (True if v in (d.TASMIN, d.TASMAX) else [False, v is extra[0]])
        f, cells = field(S, v.name, (1, n), False, masks, 1, 400)
        if masks is None:
            f = S.np.ma.masked_array(S.np.array([cells]))
        else:
            f = S.np.ma.masked_array(S.np.array([[-32768.0 if x is None else x for x in cells]]), mask=S.np.array([[x is None for x in cells]]), fill_value=-32768.0)
        results[v.name], before[v.name] = f, cells
    writer = c.ConsistentModelOutputNetCDF(None, extra)
    writer.post_process(results, 'LAND')
    lo, hi = before['tasmin'], before['tasmax']
    crossed = [False if a is None or b is None else bool(a > b) for a, b in zip(lo, hi)]
    S.eq(results['problematic_pixels_count'], sum(crossed), 'number removed')
    for name, cells in before.items():
        got = S.flat(results[name])
        for k in range(n):
            if crossed[k] or cells[k] is None:
                S.check(got[k] is None, 'missing where minimum and maximum cross: ' + name)
            else:
                S.check(got[k] is not None, 'other cells stay: ' + name)
                S.close(got[k], cells[k], 'other cells keep their values: ' + name)


@harness(overrides=OVERRE, dates=True, assumptions=['regular expressions are matched by a stand-in for the re module that backtracks in the same order'], max_paths=3000,
         bounds='two days; date of each file of day and night any digits that are a date, below directories with other digits')
def land_configuration(S):
    """The land model is given, for each day, that day's inputs, output and the date in the names of its surface temperature files; files of day and night of different dates are refused."""
    m = S.module(MODELLAND)
    dates = [S.chars('day%d' % k, 8, '0123456789') for k in (0, 1)]
    night = S.chars('night1', 8, '0123456789')
    name = lambda x, d: S.name_text('/p/20010203/%s.99.' % x) + d + '.nc'
    lst = [[name('a', dates[0]), name('b', dates[0])], [name('c', dates[1]), name('d', night)]]
    inputs = [['fvc%d' % k, 'dem%d' % k, ['n%d' % k, 's%d' % k], 'snow%d' % k, lst[k]] for k in (0, 1)]
    outputs = [['/o%d/' % k, 'id%d' % k] for k in (0, 1)]
    num = lambda t: S.text_number(t)
    ymd = [(num(d[:4]), num(d[4:6]), num(d[6:])) for d in dates + [night]]
    S.assume(S.and_(*[S.and_(y >= 1850, y <= 2100, mo >= 1, mo <= 12, d >= 1, d <= 28) for y, mo, d in ymd]))
    same = S.and_(*[S.code(a) == S.code(b) for a, b in zip(dates[1], night)])
    r = S.attempt(m.ModelLand(['m1', 'm2', 'm3'], 0.2, 3).build_config_dictionary, outputs, inputs)
    if r.raised and not isinstance(r.error, ValueError):
        raise r.error
    S.check(S.not_(same) if r.raised else same, 'refused if and only if the dates differ')
    if r.raised:
        return
    c = r.value
    S.check(c['model'] == {'filename_model_clim_parameters': ['m1', 'm2', 'm3'], 'frac_sat_obs_threshold': 0.2, 'sampling_threshold': 3}, 'parameters of the model')
    S.eq(len(c['data']), 2, 'two days')
    for k in (0, 1):
        e = c['data'][k]
        S.eq([e['date']['year'], e['date']['month'], e['date']['day']], list(ymd[k]), 'the date of the files')
        S.check([e['dir_input_fvc'], e['filename_input_dem'], e['filename_input_mask'], e['filename_input_snow'], e['filename_output_id'], e['dir_output']] ==
                ['fvc%d' % k, 'dem%d' % k, ['n%d' % k, 's%d' % k], 'snow%d' % k, 'id%d' % k, '/o%d/' % k], 'inputs and output of the day')
        S.check(e['filename_input_lst'] is lst[k] or list(e['filename_input_lst']) == lst[k], 'day and night files, in this order')


@harness(overrides=OVER, dates=True, bounds='two files of any times 1850..2030')
def ocean_configuration(S):
    """The ocean model is given, for each day, that day's input and output and the date in the input file."""
    m = S.module(MODELOCEAN)
    times = {'/in%d' % k: S.datetime('t%d' % k, lo=(1850, 1, 1), hi=(2030, 12, 31)) for k in (0, 1)}

    class NC(object):
        @staticmethod
        def Dataset(name, mode='r'):
            f = File({'time': [name]})
            return f

        @staticmethod
        def num2date(number, units):
            return times[number]
    keep = m.netCDF4
    m.netCDF4 = NC
    try:
        c = m.ModelOcean('p', 'u', 's').build_config_dictionary(['/out0', '/out1'], ['/in0', '/in1'])
    finally:
        m.netCDF4 = keep
    S.check(c['model'] == {'filename_parameters': 'p', 'filename_uncertainty': 'u', 'filename_stdev': 's'}, 'parameters of the model')
    S.eq(len(c['data']), 2, 'two days')
    for k in (0, 1):
        e, t = c['data'][k], times['/in%d' % k]
        S.eq([e['date']['year'], e['date']['month'], e['date']['day']], [t.year, t.month, t.day], 'the date in the file')
        S.check([e['filename_output'], e['filename_input']] == ['/out%d' % k, '/in%d' % k], 'input and output of the day')


class Replace(object):
    """Module attributes set for a while."""

    def __init__(self, module, **values):
        self.module, self.values = module, values

    def __enter__(self):
        self.old = {k: getattr(self.module, k) for k in self.values}
        for k, v in self.values.items():
            setattr(self.module, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.module, k, v)


@harness(params=[(a, b) for a in ('land', 'ocean') for b in ('one', 'many')], overrides=OVER, assumptions=['the model itself (IDL) is a stand-in that notes which inputs make which intermediate file'],
         bounds='one day, or 1 to 3 days run together; the land model with or without snow input on each day')
def runs(S, which, how):
    """Running one day or several at once, the outputs of every day hold the fields the model made from that day's inputs, with the crossed cells of land removed before writing."""
    m = S.module(RUN % which)
    n = 1 if how == 'one' else S.choice('days', [1, 2, 3])
    snow = [S.fork_bool('snow%d' % k) if which == 'land' and how == 'many' else True for k in range(n)]
    made, log = {}, []

    class Model(object):
        def __init__(self, *parameters):
            self.parameters = parameters

        def run_idl(self, outputs, inputs):
            S.check(len(outputs) == len(inputs), 'as many inputs as outputs')
            for o, i in zip(outputs, inputs):
                made[o if which == 'ocean' else o[0] + o[1]] = (self.parameters, i)

    class Remapper(object):
        VARIABLES_ANCILLARY = ANCILLARY_VARIABLES = ['anc']

        def read_fields(self, name):
            return {'from': made[name], 'daynumber': name, 'problematic_pixels_count': 4}

    class Attributes(object):
        comment = ''

        def __init__(self, modulename, institution, catalogue):
            self.who = (institution, catalogue)

    class Writer(object):
        def __init__(self, attributes, variables):
            self.dataset_attributes, self.variables = attributes, variables

        def post_process(self, fields, surface):
            fields['processed'] = surface

        def write_primary(self, name, fields):
            log.append(('main', name, fields.get('from'), fields.get('processed'), self.dataset_attributes.who, self.variables))

        def write_ancillary(self, name, fields):
            log.append(('ancillary', name, fields.get('from'), fields.get('processed'), self.dataset_attributes.who, self.variables))
    days, expected = [], []
    for k in range(n):
        if which == 'land':
            days.append(dict(catalogue_id='cat', institution='inst', output_main='main%d' % k, output_ancillary='anc%d' % k, input_model_1='m1', input_model_2='m2', input_model_3='m3',
                             input_satellite_land_day='day%d' % k, input_satellite_land_night='night%d' % k, input_satellite_land_snow='snow%d' % k if snow[k] else None,
                             input_satellite_land_mask_north='north', input_satellite_land_mask_south='south', input_satellite_land_DEM='dem', input_satellite_land_fvc='fvc',
                             frac_sat_obs_threshold=0.2, sampling_threshold=3))
            expected.append(((['m1', 'm2', 'm3'], 0.2, 3), ['fvc', 'dem', ['north', 'south'], 'snow%d' % k if snow[k] else 'MISSING', ['day%d' % k, 'night%d' % k]]))
        else:
            days.append(dict(catalogue_id='cat', institution='inst', output_main='main%d' % k, output_ancillary='anc%d' % k, input_model_parameters='p', input_model_uncertainty='u',
                             input_model_stdev='s', input_satellite_ocean='in%d' % k))
            expected.append((('p', 'u', 's'), 'in%d' % k))
    stubs = {'DatasetAttributesConsistentModelOutput': Attributes, 'ConsistentModelOutputNetCDF': Writer, 'Model' + which.capitalize(): Model, 'RemapNetCDF%sWP1' % which.capitalize(): Remapper}
    with Replace(m, **stubs):
        if how == 'one':
            m.run_day(**days[0])
        else:
            m.run_multiple_days([m.return_daily_inputs(**d) for d in days])
    S.eq(len(log), 2 * n, 'two outputs a day')
    for k in range(n):
        for kind, name in (('main', 'main%d' % k), ('ancillary', 'anc%d' % k)):
            at = [x for x in log if x[:2] == (kind, name)]
            S.check(len(at) == 1, 'each output is written once')
            S.check(at[0][2] == expected[k], 'from the inputs of its own day')
            S.check(at[0][3] == ('LAND' if which == 'land' else None), 'crossed cells of land are removed first')
            S.check(at[0][4] == ('inst', 'cat') and at[0][5] == ['anc'], 'attributes')


@harness(params=['land', 'ocean'], overrides=OVER, assumptions=['the process that runs the model (IDL) is a stand-in with any exit status'], bounds='exit status -64..255, started or not')
def model_process(S, which):
    """The model is run once, on the configuration of the days asked for; if it cannot be started or fails, so does the run."""
    m = S.module(MODELLAND if which == 'land' else MODELOCEAN)
    status, starts, log = S.int('status', -64, 255), S.fork_bool('starts'), []

    class Process(object):
        returncode = None

        def wait(self):
            self.returncode = status
            return status

        def poll(self):
            return self.wait()

        def communicate(self, *a):
            self.wait()
            return None, None

    def start(command, *a, **k):
        log.append(('run', list(command)))
        if not starts:
            raise OSError('not there')
        return Process()

    def call(command, *a, **k):
        return start(command).wait()

    def check_call(command, *a, **k):
        r = call(command)
        if r != 0:
            raise ValueError('failed')
        return r

    Sub = types.SimpleNamespace(Popen=start, call=call, check_call=check_call, PIPE=-1, STDOUT=-2, CalledProcessError=ValueError)
    model = (m.ModelLand if which == 'land' else m.ModelOcean)('p', 'u', 's')
    model.write_config_file = lambda name, outputs, inputs: log.append(('config', name, outputs, inputs))
    failed = False
    m.subprocess, m._py2_popen = Sub, start
    try:
        model.run_idl(['out'], ['in'])
    except (ValueError, OSError):
        failed = True
    S.check(len(log) == 2 and log[0][0] == 'config' and log[0][2:] == (['out'], ['in']), 'configuration of the days asked for')
    S.check(log[1][0] == 'run' and log[0][1] in log[1][1], 'one run, on this configuration')
    S.check((status != 0) if failed and starts else (True if failed else status == 0), 'fails exactly if the model does')
    S.check(failed or starts, 'fails if the model cannot be started')


@harness(params=['land', 'ocean', 'ice'], overrides=OVER, bounds='the command line of each surface, each argument a text of its own')
def command_line(S, which):
    """The command line runs the day with every argument in its own place."""
    m = S.module(RUN % which)
    args = {'land': dict(institution='institution', output_main='output_main', output_ancillary='output_ancillary', input_model1_parameters='input_model_1', input_model2_parameters='input_model_2',
                         input_model3_parameters='input_model_3', inputfvc='input_satellite_land_fvc', inputDEM='input_satellite_land_DEM', inputmasknord='input_satellite_land_mask_north',
                         inputmasksouth='input_satellite_land_mask_south', inputsnow='input_satellite_land_snow', inputday='input_satellite_land_day', inputnight='input_satellite_land_night',
                         frac_sat_obs_threshold='frac_sat_obs_threshold', sampling_threshold='sampling_threshold'),
            'ocean': {k: k for k in ('institution', 'output_main', 'output_ancillary', 'input_model_parameters', 'input_model_uncertainty', 'input_model_stdev', 'input_satellite_ocean')},
            'ice': {k: k for k in ('institution', 'output_main', 'output_ancillary', 'input_model_nh', 'input_model_sh', 'input_satellite_nh', 'input_satellite_sh')}}[which]
    got = []
    names = m.run_day.__code__.co_varnames[:m.run_day.__code__.co_argcount]

    def run_day(*a, **k):
        given = dict(zip(names, a), **k)
        S.check(set(given) <= set(names), 'arguments that run_day knows')
        got.append(given)
    import sys
    argv = sys.argv
    sys.argv = ['run'] + [x for k in sorted(args) for x in ('--' + k, 'text of ' + args[k])]
    try:
        with Replace(m, run_day=run_day):
            m.main()
    finally:
        sys.argv = argv
    S.eq(len(got), 1, 'one run')
    S.check(all(got[0].get(v) == 'text of ' + v for v in args.values()), 'every argument in its own place')


@harness(overrides=OVER, assumptions=FILES, bounds='a day 0..70000; fields of 2 by 4 cells of 90 degrees with any values and any cell missing, with or without a time dimension')
def written(S):
    """An output file holds exactly the fields of its list that there are, cell by cell on the axes of the globe, for the day given."""
    import math
    c, d, b = S.module(CONSISTENT), S.module(DEFS), S.module(BUILDER)
    fakenc.FILES.clear()
    d.GLOBAL_FIELD_SHAPE, d.GLOBAL_FIELD_RESOLUTION = (1, 2, 4), 90.0
    day = S.int('day', 0, 70000)
    two = S.fork_bool('two dimensions')
    tas, cells = field(S, 'tas', (2, 4), False, [S.fork_bool('missing')] + [False] * 6 + [True], 200, 320)
    unc, ucells = field(S, 'unc', (2, 4), False, [False] * 8, 0, 5)
    if two:
        tas, unc = tas[0], unc[0]
    results = {'daynumber': day, d.TAS.name: tas, d.TASUNCERTAINTY.name: unc, d.SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM.name: unc}

    class Attributes(object):
        def __init__(self):
            self.__dict__.update(dataset='d', version='v', mainvariable='tas', institution='i', comment='c', history='h', source='s')
    path = S.file('out.nc')
    c.ConsistentModelOutputNetCDF(Attributes(), [d.SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM]).write_primary(path, results)
    nc = S.module(BUILDER).Dataset(path, 'r')
    have = set(nc.variables) - {'time', 'timebounds', 'latitude', 'longitude', 'timeoffset'}
    S.check(have == {'tas', 'tasuncertainty'}, 'the fields of the list that there are')
    S.eq(S.flat(nc.variables['time'][:]), [day], 'the day')
    S.eq(S.flat(nc.variables['timebounds'][:]), [day, day + 1], 'midnight to midnight')
    S.close(S.flat(nc.variables['latitude'][:]), [-45, 45], 'latitudes')
    S.close(S.flat(nc.variables['longitude'][:]), [-135, -45, 45, 135], 'longitudes')
    S.close(S.flat(nc.variables['timeoffset'][:]), [-135 / 360.0, -45 / 360.0, 45 / 360.0, 135 / 360.0], 'local time')
    for name, expect, half in (('tas', cells, 0.0025), ('tasuncertainty', ucells, 0.0005)):
        v = nc.variables[name][:]
        S.eq(list(S.shape(v)), [1, 2, 4], 'time, latitude, longitude')
        for got, want in zip(S.flat(v), expect):
            S.check((got is None) == (want is None), 'missing where it was')
            if want is not None:
                S.close(got, want, 'value of the cell', tol=half * 1.001)
    nc.close()


@harness(overrides=OVER, assumptions=FILES, bounds='a grid of 2 by 3 cells of any latitudes and longitudes, any values, any cells missing or none, any uncertainty missing', params=[True, False])
def cubes(S, some):
    """Observations from a gridded product: one for each cell, with the cell's own place, value and uncertainties, missing where the cell is."""
    import importlib
    m, base = S.module(CUBEMAP), S.module('eustace.analysis.observationsource')
    iris_cube, iris_coords = importlib.import_module('iris.cube') if not S.symbolic else OVER['iris'].cube, importlib.import_module('iris.coords') if not S.symbolic else OVER['iris'].coords
    lat = [S.real('lat%d' % k, -90, 90) for k in (0, 1)]
    lon = [S.real('lon%d' % k, -180, 180) for k in (0, 1, 2)]
    S.assume(S.and_(lat[0] < lat[1], lon[0] < lon[1], lon[1] < lon[2]))
    miss = [S.fork_bool('missing%d' % k) for k in range(3)] + [False, some, False]
    half = [False] * 5 + [S.fork_bool('no uncertainty')]
    time = S.int('time', 0, 70000)
    vals = {n: [S.real('%s%d' % (n, k), 0, 400) for k in range(6)] for n in ('meas', 'rand', 'corr', 'sys', 'junk')}

    def cube(n):
        gone = miss if n == 'meas' else half
        data = S.np.ma.masked_array(S.np.array(vals[n]).reshape((2, 3)), **({'mask': S.np.array(gone).reshape((2, 3))} if any(gone) else {}))       # as iris reads files
        r = iris_cube.Cube(data, var_name=n)
        r.add_dim_coord(iris_coords.DimCoord(S.np.array(lat), standard_name='latitude', units='degrees'), 0)
        r.add_dim_coord(iris_coords.DimCoord(S.np.array(lon), standard_name='longitude', units='degrees'), 1)
        r.add_aux_coord(iris_coords.AuxCoord(S.np.array([time]), long_name='time'))
        return r
    with Replace(m, load=lambda name: [cube(n) for n in ('junk', 'corr', 'meas', 'sys', 'rand')]):
        s = m.ObservationSourceCubeMapGrid({'T': m.ObservationMap('meas', 'rand', ['corr', 'sys'], [1.0, 2.0])}, '/f')
    if S.symbolic:
        s.extract = lambda c: [x for x in s if c.extract(x) is not None]
    S.check(list(s.observables()) == ['T'], 'what it observes')
    S.eq(s.number_of_observations(), 6, 'one for each cell')
    o = s.observations('T')
    S.eq(list(S.shape(o.mask)), [6], 'one mask for each cell')
    S.close(o.measurement, vals['meas'], 'values')
    S.eq([bool(x) for x in S.flat(o.mask)], miss, 'missing cells')
    S.close(o.uncorrelatederror, vals['rand'], 'independent uncertainty')
    S.eq(len(o.locallycorrelatederror), 2, 'two locally correlated uncertainties')
    S.close(o.locallycorrelatederror[0], vals['corr'], 'first locally correlated uncertainty')
    S.close(o.locallycorrelatederror[1], vals['sys'], 'second locally correlated uncertainty')
    S.eq(S.flat(o.time), [time], 'time')
    look = s.observation_location_lookup()
    S.eq(list(S.shape(look)), [2, 6], 'latitude and longitude of each place')
    where = [int(x) for x in S.flat(o.location)]
    S.close([S.flat(look)[w] for w in where], [lat[k // 3] for k in range(6)], 'latitude of the cell')
    S.close([S.flat(look)[6 + w] for w in where], [lon[k % 3] for k in range(6)], 'longitude of the cell')
    S.check(s.local_correlation_length_scale('T') == [1.0, 2.0], 'length scales')


@harness(overrides=OVER, assumptions=FILES, bounds='southern and northern grids of 2 or 3 rows of 2 columns, 1 to 4 rows apart, rows 0.25, 0.5 or 1 degree high; any values')
def hemispheres(S):
    """Observations of the two hemispheres put together keep their own places on one grid of the whole range of latitudes; grids that do not fit together are refused."""
    m, obs = S.module(ICE), S.module('eustace.analysis.observationsource')
    res = S.choice('resolution', [0.25, 0.5, 1.0])
    rows = [S.choice('rows%d' % k, [2, 3]) for k in (0, 1)]
    gap = S.choice('gap', [1, 2, 4])
    wrong = S.choice('wrong', [None, 'longitude', 'order', 'resolution'])
    lon = [-20.0, 30.0]
    lats = [[-80.0 + res * k for k in range(rows[0])]]
    lats.append([lats[0][-1] + res * (gap + k) for k in range(rows[1])])
    lons = [lon, lon]
    if wrong == 'longitude':
        lons = [lon, [-20.0, 31.0]]
    if wrong == 'order':
        lats = lats[::-1]
    if wrong == 'resolution':
        lats[1] = [lats[1][0] + 2 * res * k for k in range(rows[1])]
    vals = [[S.real('v%d_%d' % (h, k), 200, 300) for k in range(2 * len(lats[h]))] for h in (0, 1)]

    class Coord(object):
        def __init__(self, points):
            self.points = S.np.array(points)

    class Field(object):
        def __init__(self, h):
            self.h = h

        def coords(self, name):
            return [Coord((lats if name == 'latitude' else lons)[self.h])]

    class Source(object):
        OBSERVATIONMAPS = m.ObservationSourceIceDMI.OBSERVATIONMAPS

        def __init__(self, name):
            self.h = int(name)

        def get_field_by_name(self, name):
            return Field(self.h)

        def number_of_observations(self):
            return len(vals[self.h])

        def observations(self, what):
            n = len(vals[self.h])
            return obs.Observations(S.np.array([False] * n), 5, S.np.array(range(n), dtype='uint64'), S.np.array(vals[self.h]), S.np.array([1.0] * n), [])
    with Replace(m, ObservationSourceIceDMI=Source):
        r = S.attempt(m.ObservationSourceIceDMICombined, ['0', '1'])
    if r.raised and not isinstance(r.error, ValueError):
        raise r.error
    S.check(r.raised == (wrong is not None), 'refused if and only if the grids do not fit')
    if r.raised:
        return
    s = r.value
    n = len(vals[0]) + len(vals[1])
    S.eq(s.number_of_observations(), n, 'number of observations')
    o = s.observations(obs.ObservationSource.TMEAN)
    look = S.flat(s.observation_location_lookup())
    half = len(look) // 2
    S.eq(half, 2 * (rows[0] + gap - 1 + rows[1]), 'every row of the whole range is there')
    where = [int(x) for x in S.flat(o.location)]
    S.close(o.measurement, vals[0] + vals[1], 'values')
    place = [(la, lo) for h in (0, 1) for la in lats[h] for lo in lon]
    S.close([look[w] for w in where], [p[0] for p in place], 'latitude of each observation', tol=1e-6)
    S.close([look[half + w] for w in where], [p[1] for p in place], 'longitude of each observation', tol=1e-6)
