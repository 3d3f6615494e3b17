"""P30: station files and global fields hold what was put in, and verification passes exactly the files that meet their specification."""
from vf.api import harness
from vf import fakenc

DATA = 'eustace.outputformats.stationdata'
STATIONS = 'eustace.outputformats.stations'
DEFS = 'eustace.outputformats.definitions'
OUTVAR = 'eustace.outputformats.outputvariable'
BUILDER = 'eustace.outputformats.filebuilder'
GLOBAL = 'eustace.outputformats.globalfield_filebuilder'
VERIFY = 'eustace.outputformats.verify.verify'
VGLOBAL = 'eustace.outputformats.verify.verify_globalfield'
VSTATIONS = 'eustace.outputformats.verify.verify_stations'
SPEC = 'eustace.outputformats.verify.specification'

OVER = dict(fakenc.modules())
FILES = ['netCDF files are stand-ins that give back what was put in, missing cells masked']
REAL = ['arithmetic over the reals']
NEAR, FAR = 0.0004, 0.001
NAMES = ['Sofia', 'Bungo', 'Tomsk']


def stations(S, n):
    m = S.module(DATA)
    return m.StationData(m.StationDescriptionArray([m.StationDescription(NAMES[k], 10.0 + k, 20.0 + k, 5.0) for k in range(n)]))


def close_or_apart(S, times):
    """Any two times are either the same measurement time or different ones."""
    for i in range(len(times)):
        for j in range(i):
            d = times[i] - times[j]
            S.assume(S.or_(S.and_(d <= NEAR, d >= -NEAR), d >= FAR, d <= -FAR))


def same(S, a, b):
    return S.and_(a - b <= NEAR, b - a <= NEAR)


@harness(bounds='3 samples at any times of 4 days, any two at most 0.0004 days or at least 0.001 days apart')
def times(S):
    """The time axis has each measurement time once, in order: times within the resolution are one, and no sample is without its time."""
    m = S.module(DATA)
    data = stations(S, 2)
    t = [S.real('time[%d]' % k, 59998, 60002) for k in range(3)]
    close_or_apart(S, t)
    for k, x in enumerate(t):
        data.add_temperature_sample(m.StationTemperatureSample(NAMES[k % 2], x, 280.0, 0, 290.0, 0))
    axis = list(data.get_unique_temperature_sample_times())
    for a, b in zip(axis, axis[1:]):
        S.check(b - a >= FAR, 'in order, each once')
    for x in t:
        S.check(S.or_(*[same(S, x, a) for a in axis]), 'the time of each sample is there')
    for a in axis:
        S.check(S.or_(*[same(S, x, a) for x in t]), 'no time without a sample')


@harness(params=['tasmin', 'tasmax', 'tasmin_qc'], assumptions=REAL,
         bounds='2 stations, 2 times, 3 samples of any station, time within the resolution and value, no two of the same station and time')
def samples(S, name):
    """A sample is at its own time and station and nowhere else; everything without a sample is missing."""
    m, d = S.module(DATA), S.module(DEFS)
    data = stations(S, 2)
    axis = [S.real('axis[%d]' % k, 59998, 60002) for k in range(2)]
    S.assume(axis[1] - axis[0] >= FAR)
    want = {}
    for k in range(3):
        where = (S.choice('time[%d]' % k, [0, 1]), S.choice('station[%d]' % k, [0, 1]))
        S.assume(where not in want)
        v = {n: S.int('%s[%d]' % (n, k), 0, 9) if n.endswith('qc') else S.real('%s[%d]' % (n, k), 200, 330) for n in ('tasmin', 'tasmin_qc', 'tasmax', 'tasmax_qc')}
        t = axis[where[0]] + S.real('shift[%d]' % k, -NEAR, NEAR)
        data.add_temperature_sample(m.StationTemperatureSample(NAMES[where[1]], t, v['tasmin'], v['tasmin_qc'], v['tasmax'], v['tasmax_qc']))
        want[where] = v[name]
    got = data.get_temperature_samples(axis, {'tasmin': d.TASMIN, 'tasmax': d.TASMAX, 'tasmin_qc': d.TASMIN_QC}[name])
    S.eq(list(S.shape(got)), [2, 2], 'times by stations')
    mask = S.flat(S.np.ma.getmaskarray(got))
    flat = S.flat(S.np.ma.getdata(got))
    for i in range(2):
        for j in range(2):
            k = 2 * i + j
            if (i, j) in want:
                S.check(S.not_(mask[k]), 'sample is there')
                S.close(flat[k], want[(i, j)], 'value of the sample of that time and station')
            else:
                S.check(mask[k], 'missing without a sample')


@harness(assumptions=REAL, bounds='2 stations, 1 time; one sample of either station, before or after one of a station without description, any values')
def stranger(S):
    """A sample of a station that is not described does not become a value of the others."""
    m, d = S.module(DATA), S.module(DEFS)
    data = stations(S, 2)
    here = S.choice('station', [0, 1])
    v, w = S.real('v', 200, 330), S.real('w', 200, 330)
    add = [(NAMES[here], v), ('Nowhere', w)]
    if S.fork_bool('stranger first'):
        add.reverse()
    for name, x in add:
        data.add_temperature_sample(m.StationTemperatureSample(name, 60000.0, x, 0, x, 0))
    r = S.attempt(data.get_temperature_samples, [60000.0], d.TASMIN)
    S.check(True, 'refused, or left out')
    if not r.raised:
        mask = S.flat(S.np.ma.getmaskarray(r.value))
        S.check(S.and_(mask[1 - here], S.not_(mask[here])), 'only the station with a sample has a value')
        S.close(S.flat(S.np.ma.getdata(r.value))[here], v, 'its own')


@harness(assumptions=REAL, bounds='3 stations, up to 3 breaks of either quantity at any stations with any amplitude and times; 2 periods of break detection of any quality')
def breaks(S):
    """Breaks of each quantity keep their order, with the place of their own station in the list, own amplitude and own times."""
    m, d = S.module(DATA), S.module(DEFS)
    data = stations(S, 3)
    want = {'tasmin': [], 'tasmax': []}
    for k in range(3):
        q = S.choice('quantity[%d]' % k, ['tasmin', 'tasmax'])
        s = S.choice('station[%d]' % k, [0, 1, 2]) if k < 2 else 1
        a = S.real('amplitude[%d]' % k, -9, 9)
        b = [S.real('bounds[%d][%d]' % (k, i), 0, 60000) for i in range(4)]
        data.add_break(d.TASMIN if q == 'tasmin' else d.TASMAX, m.StationBreak(NAMES[s], a, b[:2], b[2:]))
        want[q].append((s, a, b))
    for q in want:
        get = lambda name: data.get_break_variable(getattr(d, ('%s_BREAK_%s' % (q, name)).upper()))
        S.eq(S.flat(get('station')), [w[0] for w in want[q]], 'stations')
        S.close(S.flat(get('amplitude')), [w[1] for w in want[q]], 'amplitudes')
        S.close(S.flat(get('time_bounds')), [x for w in want[q] for x in w[2][:2]], 'times')
        S.close(S.flat(get('time_affected_bounds')), [x for w in want[q] for x in w[2][2:]], 'times affected')
    periods = [(S.real('period[%d]' % k, 0, 60000), S.int('lo[%d]' % k, 0, 2), S.int('hi[%d]' % k, 0, 2)) for k in range(2)]
    for p in periods:
        data.add_break_detection_period(m.StationBreakDetectionQuality(*p))
    for k, v in enumerate((d.DETECTION_TIME, d.TASMIN_DETECTION_QC, d.TASMAX_DETECTION_QC)):
        S.close(S.flat(data.get_break_detection_quality_variable(v)), [p[k] for p in periods], 'detection quality')


def attributes(S, nc, want, what):
    for k, v in want.items():
        r = S.attempt(nc.getncattr, k)
        S.check(not r.raised, '%s has %s' % (what, k))
        if isinstance(v, (str, bytes)):
            S.check(r.value == v, '%s: own %s' % (what, k))
        else:
            S.close(S.flat(S.np.atleast_1d(r.value)), S.flat(S.np.atleast_1d(v)), '%s: own %s' % (what, k))


def content(S, nc, var, dims, values, what, tol=0.0):
    """The variable is there with type, dimensions, attributes and values."""
    S.check(var.name in nc.variables, '%s is there' % what)
    v = nc.variables[var.name]
    S.check(tuple(v.dimensions) == tuple(dims), '%s: dimensions' % what)
    S.check(S.np.dtype(v.dtype) == S.np.dtype(var.dtype), '%s: type' % what)
    attributes(S, v, dict(var.get_metadata(), **({} if var.fill_value is None else {'_FillValue': var.fill_value})), what)
    got = v[:]
    S.eq(list(S.shape(got)), list(S.shape(values)), '%s: shape' % what)
    for g, w in zip(S.flat(got), S.flat(values)):
        if w is None:
            S.check(g is None, '%s: missing stays missing' % what)
        else:
            S.check(g is not None, '%s: not missing' % what)
            S.check(S.and_(g - w <= tol, w - g <= tol), '%s: value' % what)


def masked(S, name, shape, lo, hi, masks=2):
    n = 1
    for k in shape:
        n *= k
    v = [S.real('%s[%d]' % (name, k), lo, hi) for k in range(n)]
    m = [S.fork_bool('%s.missing[%d]' % (name, k)) if k < masks else k % 2 == 1 for k in range(n)]
    return S.np.ma.masked_array(S.np.array(v).reshape(shape), mask=S.np.array(m).reshape(shape))


@harness(overrides=OVER, assumptions=FILES + REAL, bounds='1 to 3 stations with names of 1 to 40 characters, 2 times, any values, any of 2 cells missing; breaks of both quantities')
def station_files(S):
    """Temperatures go to the temperature file at their times (each a day long) and stations, status to the status file; names are cut at 32 characters."""
    st, d, dm = S.module(STATIONS), S.module(DEFS), S.module(DATA)
    n = S.choice('stations', [1, 2, 3])
    names = (['A', 'Bungo Station', 'x' * 30 + 'yz'] if S.fork_bool('short') else ['abc' * 13, 'Z' * 33, 'Sofia'])[:n]
    days = S.int('first', 10000, 60000)
    axis = S.np.array([days * 1.0, days + 3.0])
    b = st.FileBuilderStationData(S.file('').rstrip('/'), 'Global', 'R1', 'an institution', 'a comment', 'the past', 'a source')
    b.set_temperature_dimensions(dm.StationDescriptionArray([dm.StationDescription(x, 1.0, 2.0, 3.0) for x in names]), axis)
    low, high = masked(S, 'low', (2, n), 150, 350), masked(S, 'high', (2, n), 150, 350, 0)
    b.add_temperature_variable(d.TASMIN, low)
    b.add_temperature_variable(d.TASMAX, high)
    b.add_status_dimension(d.DIMENSION_NAME_TASMIN_BREAK)
    where, size = S.np.array([S.choice('station', [0, 1, 2]), 1], S.np.int32), S.np.array([S.real('size', -9, 9), 2.5])
    bounds = S.np.array([[1.0, 2.0], [S.real('from', 0, 60000), S.real('to', 0, 60000)]])
    b.add_status_variable(d.DIMENSION_NAME_TASMIN_BREAK, d.TASMIN_BREAK_STATION, where)
    b.add_status_variable(d.DIMENSION_NAME_TASMIN_BREAK, d.TASMIN_BREAK_AMPLITUDE, size)
    b.add_status_variable(d.DIMENSION_NAME_TASMIN_BREAK, d.TASMIN_BREAK_TIME_BOUNDS, bounds, bounds=True)
    b.save_and_close()
    nc = st.FileBuilder.create.__globals__['Dataset'](S.file('eustace_stations_global_R1_temperature.nc'), 'r')
    status = st.FileBuilder.create.__globals__['Dataset'](S.file('eustace_stations_global_R1_status.nc'), 'r')
    try:
        common = dict(institution='an institution', comment='a comment', history='the past', source='a source', Conventions='CF-1.6')
        attributes(S, nc, dict(common, title=d.TITLE_PREFIX + d.STATIONS_TEMPERATURE_TITLE_SUFFIX, featureType='timeSeries'), 'temperature file')
        attributes(S, status, dict(common, title=d.TITLE_PREFIX + d.STATIONS_STATUS_TITLE_SUFFIX), 'status file')
        S.check(nc.dimensions['time'].isunlimited(), 'times without limit')
        S.check(status.dimensions['tasmin_break'].isunlimited(), 'breaks without limit')
        S.check(S.and_(len(nc.dimensions['station']) == n, len(nc.dimensions['bounds']) == 2, len(status.dimensions['bounds']) == 2), 'sizes')
        chars = S.np.ma.filled(nc.variables['station_name'][:], b'')
        S.check([b''.join(bytes(c) for c in row).rstrip(b'\0').decode() for row in chars.tolist()] == [x[:32] for x in names], 'names')
        content(S, nc, d.TIME, ['time'], axis, 'time')
        content(S, nc, d.TIME_BOUNDS, ['time', 'bounds'], S.np.array([[days * 1.0, days + 1.0], [days + 3.0, days + 4.0]]), 'bounds')
        content(S, nc, d.TASMIN, ['time', 'station'], low, 'lowest', 0.0026)
        content(S, nc, d.TASMAX, ['time', 'station'], high, 'highest', 0.0026)
        S.check('tasmin' not in status.variables and 'tasmin_break_amplitude' not in nc.variables, 'each in its file')
        content(S, status, d.TASMIN_BREAK_STATION, ['tasmin_break'], where, 'break stations')
        content(S, status, d.TASMIN_BREAK_AMPLITUDE, ['tasmin_break'], size, 'break amplitudes', 1e-4)
        content(S, status, d.TASMIN_BREAK_TIME_BOUNDS, ['tasmin_break', 'bounds'], bounds, 'break times', 1e-2)
    finally:
        nc.close()
        status.close()


@harness(overrides=OVER, assumptions=FILES + REAL, bounds='a world of 2 by 4 cells; any day 0..70000, any temperatures 150 to 350 K and uncertainties 0 to 30 K, any of 2 cells missing')
def global_file(S):
    """A global field file has the day and its bounds, the centres of the cells, and every field given, missing where it was missing."""
    g, d = S.module(GLOBAL), S.module(DEFS)
    keep = d.GLOBAL_FIELD_SHAPE, d.GLOBAL_FIELD_RESOLUTION
    d.GLOBAL_FIELD_SHAPE, d.GLOBAL_FIELD_RESOLUTION = (1, 2, 4), 90.0
    day = S.int('day', 0, 70000)
    t, u, p = masked(S, 't', (1, 2, 4), 150, 350), masked(S, 'u', (1, 2, 4), 0, 30, 0), masked(S, 'p', (1, 2, 4), 0, 30, 1)
    try:
        b = g.FileBuilderGlobalField(S.file('2000/out.nc'), day, 'a set', 'v', 'tas', 'an institution', 'a comment', 'the past', 'a source')
        b.add_global_field(d.TASMIN, t)
        b.add_global_field(d.TASMINUNCERTAINTY, u)
        b.add_uncertainty_parameter('part', 'A part of it', p)
        count = S.module(OUTVAR).OutputVariable('count', S.np.int32, 0, long_name='How many')
        b.add_global_field(count, S.np.ma.masked_array(S.np.array([[[3, 4, 5, 6], [7, 8, 9, 1]]]), mask=S.np.array([[[False, True, False, False], [False, False, False, True]]])))
        b.save_and_close()
    finally:
        d.GLOBAL_FIELD_SHAPE, d.GLOBAL_FIELD_RESOLUTION = keep
    nc = g.FileBuilder.create.__globals__['Dataset'](S.file('2000/out.nc'), 'r')
    try:
        attributes(S, nc, dict(institution='an institution', comment='a comment', history='the past', source='a source', Conventions='CF-1.6', title=d.TITLE_PREFIX + 'a set'), 'file')
        dims = ['time', 'latitude', 'longitude']
        S.check(nc.dimensions['time'].isunlimited(), 'times without limit')
        content(S, nc, d.TIME, ['time'], S.np.array([day * 1.0]), 'time')
        content(S, nc, d.TIME_BOUNDS, ['time', 'bounds'], S.np.array([[day * 1.0, day + 1.0]]), 'bounds')
        content(S, nc, d.LATITUDE, ['latitude'], S.np.array([-45.0, 45.0]), 'latitudes')
        content(S, nc, d.LONGITUDE, ['longitude'], S.np.array([-135.0, -45.0, 45.0, 135.0]), 'longitudes')
        content(S, nc, d.TIME_OFFSET, ['longitude'], S.np.array([-0.375, -0.125, 0.125, 0.375]), 'solar time')
        content(S, nc, d.TASMIN, dims, t, 'temperature', 0.0026)
        content(S, nc, d.TASMINUNCERTAINTY, dims, u, 'uncertainty', 0.0006)
        part = S.module(OUTVAR).OutputVariable('part', S.np.int16, d.TEMPERATURE_UNCERTAINTY_FILL_VALUE, long_name='A part of it', units='K',
                                               scale_factor=d.TEMPERATURE_UNCERTAINTY_SCALE_FACTOR, add_offset=d.TEMPERATURE_UNCERTAINTY_ADD_OFFSET)
        content(S, nc, part, dims, p, 'parameter', 0.0006)
        content(S, nc, count, dims, S.np.ma.masked_array(S.np.array([[[3, 4, 5, 6], [7, 8, 9, 1]]]), mask=S.np.array([[[False, True, False, False], [False, False, False, True]]])), 'count')
    finally:
        nc.close()


@harness(dates=True, bounds='every day 1850..2030, two of them')
def pathname(S):
    """The file of a day is named by its own quantity, collection and date, in the folder of its year."""
    g = S.module(GLOBAL)
    a = g.DatasetAttributesGlobalField('Some Set', 'v1', 'tasmin', 'i', 'c', 'h', 's')
    dn = S.module('eumopps.timeutils.datetime_numeric')
    build = dn.build_from_pattern
    if not hasattr(build, 'takes_text'):
        dn.build_from_pattern = lambda pattern, t: build(S.text(pattern), t)
        dn.build_from_pattern.takes_text = True
    n = S.int('day', 0, 66000)
    t = S.module('eumopps.timeutils.timebase').TimeBaseDays(S.date_of(1850, 1, 1)).number_to_datetime(n)
    S.check(a.build_pathname('/base', n) == dn.build_from_pattern(S.text('/base/%Y/tasmin_some set_eustace_0_%Y%m%d.nc'), t), 'folder of the year, name of the quantity, set and date')


RANGES = [('TASMIN', 130, 400), ('TASMAX', 130, 400), ('TAS', 130, 400), ('TASMINUNCERTAINTY', 0, 32), ('TASMAXUNCERTAINTY', 0, 32), ('TASUNCERTAINTY', 0, 32)]


@harness(params=[r for r in RANGES], assumptions=REAL, bounds='any temperature 130 to 400 K, any uncertainty 0 to 32 K')
def packed(S, name, lo, hi):
    """Every temperature or uncertainty that occurs fits the type it is stored in, to half a step and without becoming the mark of missing cells."""
    d = S.module(DEFS)
    v = getattr(d, name)
    x = S.real('value', lo, hi)
    q = (x - v.add_offset) / v.scale_factor
    info = S.np.iinfo(v.dtype)
    S.check(S.and_(q >= info.min + 1, q <= info.max - 1), 'fits')
    S.check(S.or_(q - v.fill_value >= 1, v.fill_value - q >= 1), 'not taken as missing')
    S.check(v.scale_factor <= 0.005, 'to a few thousandths')


@harness(bounds='a template with or without long name and units; any of four keywords given or not, integer values any')
def templates(S):
    """A variable made from a template has the template's description with what was given instead; the template stays as it is."""
    m = S.module(OUTVAR)
    long_template, units = S.fork_bool('template has long name'), S.fork_bool('template has units')
    scale, fill = S.int('scale', 1, 9), S.int('fill', -9, 0)
    t = m.OutputVariableTemplate(S.np.int16, fill, template_long_name='{quantity} of {place}' if long_template else None, units='K' if units else None, scale_factor=scale)
    before = dict(t.__dict__)
    given = {}
    if S.fork_bool('has other scale'):
        given['scale_factor'] = S.int('other scale', 1, 9)
    if S.fork_bool('has offset'):
        given['add_offset'] = S.int('offset', 0, 9)
    want = dict(([('units', 'K')] if units else []) + [('scale_factor', scale)], **given)
    e = m.OutputVariableTemplate.extend(t, **given)
    S.check(sorted(e.get_metadata()) == sorted(want), 'what the extended template describes')
    for k in want:
        S.check(e.get_metadata()[k] == want[k], 'extended template')
    S.check(S.and_(e.fill_value == fill, e.dtype == S.np.int16, e.template_long_name == t.template_long_name), 'type and long name of the template')
    own = S.fork_bool('own long name')
    words = {} if own or not long_template else {'quantity': 'mean', 'place': 'Somewhere'}
    v = m.OutputVariable.from_template(t, 'name', 'Own' if own else None, **dict(words, **given))
    long_name = 'Own' if own else ('Mean of Somewhere' if long_template else None)
    if long_name:
        want['long_name'] = long_name
    S.check(sorted(v.get_metadata()) == sorted(want), 'what the variable describes')
    for k in want:
        S.check(v.get_metadata()[k] == want[k], 'variable')
    S.check(S.and_(v.name == 'name', v.fill_value == fill, v.dtype == S.np.int16), 'name, type and mark of missing values')
    S.check(sorted(t.__dict__) == sorted(before), 'template as before')
    for k in before:
        S.check(t.__dict__[k] is before[k] or t.__dict__[k] == before[k], 'template as before')


class Thing(object):
    """An object of a file as the verifier sees it: attributes in its dictionary."""

    def __init__(self, attributes):
        self.__dict__.update(attributes)

    def ncattrs(self):
        return list(self.__dict__)

    def getncattr(self, k):
        return self.__dict__[k]


def opened(S, attributes, variables, dimensions):
    class NC(Thing):
        def close(self):
            pass
    NC.variables, NC.dimensions = variables, dimensions
    return NC(attributes)


def variable(S, dtype, attributes):
    class V(Thing):
        pass
    V.dtype = S.np.dtype(dtype)
    return V(attributes)


class Dimension(object):
    def __init__(self, size, unlimited):
        self.size, self.unlimited = size, unlimited

    def __len__(self):
        return self.size

    def isunlimited(self):
        return self.unlimited


class Args(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Text(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)


def verdict(S, spec, nc):
    """Verdict of the verifier on one file."""
    m = S.module(VERIFY)

    class One(m.Verifier):
        def check_all(self, args):
            self.check_file(args.pathname, spec, 'Open file')
    keep = m.Dataset

    def dataset(path, mode='r'):
        if nc is None or path != '/the/file':
            raise IOError('no such file')
        return nc
    m.Dataset = dataset
    out = Text()
    try:
        r = S.attempt(lambda: One().run(Args(pathname='/the/file'), out))
    finally:
        m.Dataset = keep
    S.check(not r.raised, 'verification ends with a verdict')
    S.check(len(out.parts) > 0, 'a table is written')
    return r.value


def spec_of(S, attributes, variables, dimensions):
    m = S.module(SPEC)
    s = m.FileSpecification()
    s.attributes, s.dimensions = attributes, dimensions
    for name, dtype, meta in variables:
        v = m.VariableSpecification(name, dtype)
        for k, x in meta:
            v.add_metadata(k, x)
        s.variables.append(v)
    return s


@harness(bounds='3 required attributes, each there or not, values right or wrong')
def verify_attributes(S):
    """A file passes only if every attribute the specification names is there, with the value it gives if it gives one."""
    spec = spec_of(S, {'title': True, 'Conventions': 'CF-1.6', 'source': True, 'optional': False}, [('a', None, [])], {})
    have, good = {}, True
    for k, right in (('title', None), ('Conventions', 'CF-1.6'), ('source', None)):
        if S.fork_bool('%s there' % k):
            have[k] = S.choice('%s value' % k, ['CF-1.6', 'CF-1.5', 'CF-1.6.1 CF-1.6', ''])
            good = good and right in (None, have[k])
        else:
            good = False
    if S.fork_bool('optional there'):
        have['optional'] = 'x'
    S.eq(bool(verdict(S, spec, opened(S, have, {'a': variable(S, 'f4', {})}, {}))), good, 'verdict')


@harness(bounds='2 specified variables (each in the file or not, of 2 types) with attributes of text, any value, or lists of 2; file attributes there or not, as text, number or list of 1 to 3 numbers of any value')
def verify_variables(S):
    """A file passes only if it has a specified variable and each one it has is of its type, with the attributes of the specification."""
    spec = spec_of(S, {}, [('a', S.np.float32, [('units', 'K'), ('any', None)]), ('b', S.np.dtype('i2'), [('range', [0, 2])])], {})
    have, good, some = {'other': variable(S, 'f4', {})}, True, False
    if S.fork_bool('a there'):
        some = True
        t = S.choice('type of a', ['f4', 'f8'])
        meta = {}
        good = good and t == 'f4'
        units = S.choice('units', ['K', 'C', 'none', 'list'])
        if units == 'list':
            meta['units'] = S.np.array([1, 2])
        elif units != 'none':
            meta['units'] = units
        good = good and units == 'K'
        if S.fork_bool('any there'):
            meta['any'] = 'x'
        else:
            good = False
        have['a'] = variable(S, t, meta)
    if S.fork_bool('b there'):
        some = True
        n = S.choice('range of b', [0, 1, 2, 3, 'text', 'none'])
        meta, ok = {}, False
        if n == 'text':
            meta['range'] = '0 2'
        elif n != 'none':
            x = [S.int('range[%d]' % k, -1, 3) for k in range(n)]
            meta['range'] = S.np.array(x, S.np.int16) if n != 1 else S.np.array(x, S.np.int16)[0]
            ok = n == 2 and bool(S.and_(x[0] == 0, x[1] == 2))
        good = good and ok
        have['b'] = variable(S, 'i2', meta)
    S.eq(bool(verdict(S, spec, opened(S, {}, have, {}))), good and some, 'verdict')


@harness(bounds='2 specified dimensions, each there or not, of 2 sizes, limited or not')
def verify_dimensions(S):
    """A file passes only if the dimensions are there, unlimited where they should be and of the size given elsewhere; a file that cannot be opened never passes."""
    spec = spec_of(S, {}, [('a', None, [])], {'time': None, 'bounds': 2})
    have, good = {}, True
    for k, right in (('time', lambda n, u: u), ('bounds', lambda n, u: not u and n == 2)):
        if S.fork_bool('%s there' % k):
            n, u = S.choice('size of %s' % k, [1, 2, 3]), S.fork_bool('%s unlimited' % k)
            have[k] = Dimension(n, u)
            good = good and right(n, u)
        else:
            good = False
    readable = S.fork_bool('readable')
    S.eq(bool(verdict(S, spec, opened(S, {}, {'a': variable(S, 'f4', {})}, have) if readable else None)), good and readable, 'verdict')


@harness(params=['global', 'stations'], bounds='a file in every way as specified but for one requirement of any kind, or none; station data in two files')
def verify_products(S, kind):
    """Global fields pass if and only if they meet all requirements of the specification; station data only if both of their files do."""
    v = S.module(VERIFY)
    m = S.module(VGLOBAL if kind == 'global' else VSTATIONS)
    specs = [m.SpecificationGlobalField()] if kind == 'global' else [m.SpecificationStationTemperature(), m.SpecificationStationStatus()]
    paths = ['/the/file'] if kind == 'global' else ['/the/file_temperature.nc', '/the/file_status.nc']
    wrong = S.choice('file with a fault', list(range(-1, len(specs))))
    files = {}
    for k, (path, s) in enumerate(zip(paths, specs)):
        attributes = {a: x if isinstance(x, str) else 'text' for a, x in s.attributes.items() if x}
        variables = {x.name: variable(S, x.dtype, {a: (S.np.array(y) if isinstance(y, list) else y if y is not None else 'any') for a, y in x.metadata.items()}) for x in s.variables}
        dimensions = {a: Dimension(5 if n is None else n, n is None) for a, n in s.dimensions.items()}
        if wrong == k:
            fault = S.choice('fault', ['absent', 'attribute', 'value', 'variables', 'type', 'metadata', 'dimension', 'limit'])
            if fault == 'absent':
                continue
            if fault == 'attribute':
                attributes.pop(S.choice('which', sorted(attributes)))
            elif fault == 'value':
                attributes['Conventions'] = 'CF-1.5'
            elif fault == 'variables':
                variables = {}
            elif fault == 'type':
                type(variables[S.choice('which', sorted(variables))]).dtype = S.np.dtype('f8')
            elif fault == 'metadata':
                x = variables[S.choice('which', sorted(a for a in variables if variables[a].__dict__))]
                a = S.choice('what', sorted(x.__dict__))
                required = {q.name: q for q in s.variables}
                name = [q for q in variables if variables[q] is x][0]
                if required[name].metadata[a] is None or S.fork_bool('removed'):
                    x.__dict__.pop(a)
                else:
                    x.__dict__[a] = 'something else'
            elif fault == 'dimension':
                dimensions.pop(S.choice('which', sorted(dimensions)))
            else:
                a = S.choice('which', sorted(dimensions))
                dimensions[a] = Dimension(len(dimensions[a]), not dimensions[a].isunlimited())
        files[path] = opened(S, attributes, variables, dimensions)
    keep = v.Dataset

    def dataset(path, mode='r'):
        if path not in files:
            raise IOError('no such file')
        return files[path]
    v.Dataset = dataset
    try:
        r = S.attempt(lambda: (m.VerifyGlobalField if kind == 'global' else m.VerifyStationData)().run(Args(pathname='/the/file', pathnameprefix='/the/file'), Text()))
    finally:
        v.Dataset = keep
    S.check(not r.raised, 'verification ends with a verdict')
    S.eq(bool(r.value), wrong == -1, 'verdict')


@harness(params=['global', 'stations'], bounds='any verdict')
def verify_programs(S, kind):
    """The programs end with status zero if and only if verification passed."""
    import sys
    m = S.module(VGLOBAL if kind == 'global' else VSTATIONS)
    good = S.fork_bool('passes')
    seen = []

    def run(self, args, out):
        seen.append(args.pathname if kind == 'global' else args.pathnameprefix)
        return good
    c = m.VerifyGlobalField if kind == 'global' else m.VerifyStationData
    keep, argv = c.run, sys.argv
    c.run, sys.argv = run, ['program', '/the/file']
    try:
        m.main()
        status = 0
    except SystemExit as e:
        status = e.code
    finally:
        c.run, sys.argv = keep, argv
    S.check(seen == ['/the/file'], 'the file asked for')
    S.check((status in (0, None)) == bool(good), 'status')
