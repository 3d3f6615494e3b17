"""P24: masking of the analysis by its quality flags."""
import datetime

from vf.api import harness

POST = 'eustace.postprocess.'
REAL = ('floating point numbers are real numbers',)
BITS = ['DAY', 'PRIOR_WINDOW', 'POST_WINDOW', 'PRIOR_CALENDAR', 'POST_CALENDAR', 'CLIMATOLOGY_UNC', 'LARGE_SCALE_UNC', 'AREAL_LOW', 'AREAL_HIGH', 'EXTREME_LOW', 'EXTREME_HIGH',
        'PERSISTANT_OUTLIER', 'MISSING_MARINE', 'LOCATION_LOW', 'LOCATION_HIGH', 'MISSING_FLAG']
ALWAYS = ['CLIMATOLOGY_UNC', 'LARGE_SCALE_UNC', 'AREAL_LOW', 'AREAL_HIGH', 'EXTREME_LOW', 'EXTREME_HIGH', 'LOCATION_LOW', 'LOCATION_HIGH']
TITLES = ['air_temperature', 'Total uncertainty in average daily surface air temperature', 'Observation influence for average daily surface air temperature',
          'Average daily surface air temperature ensemble']


def flag(*names):
    return sum(1 << BITS.index(n) for n in names)


class Cube(object):
    def __init__(self, name, data, var_name=''):
        self.title, self.data, self.var_name = name, data, var_name

    def name(self):
        return self.title


class Builder(object):
    made = None

    def __init__(self, *a, **k):
        self.args, self.fields, self.closed = a, [], False
        Builder.made.append(self)

    def add_global_field(self, variable, data):
        assert not self.closed
        self.fields.append((variable, data))

    def save_and_close(self):
        self.closed = True


def setup(S, contents, shape):
    m = S.module(POST + 'apply_mask')
    iris = S.module('iris')

    def load(name, *a):
        if str(name) not in contents:
            raise IOError('no such file: %s' % name)
        return list(contents[str(name)])
    iris.load, iris.load_cube = load, lambda name, c=None: load(name)[0]
    Builder.made = []
    m.FileBuilderGlobalField = Builder
    m.get_revision_id_for_module = lambda x: 'R1'
    S.module('eustace.outputformats.definitions').GLOBAL_FIELD_SHAPE = shape
    return m


@harness(bounds='up to 3 conditions of any disjoint sets of flags, any flags of 2 cells')
def mask(S):
    """Masked exactly where, for one of the conditions, all flags to be set are set and none that prevents masking."""
    m = S.module(POST + 'apply_mask')
    f = S.array('f', (1, 2), kind='bv', bits=16)
    spec = [(S.bv('a%d' % i, 16), S.bv('b%d' % i, 16)) for i in range(3)]
    S.assume(S.all([(a & b) == 0 for a, b in spec]))
    got = S.flat(m.compute_mask(f, [list(s) for s in spec]))
    for g, w in zip(got, S.flat(f)):
        S.check(S.ite(g, True, False) == S.any([S.and_((w & a) == a, (w & b) == 0) for a, b in spec]), 'masked cells')


def whole(S, day, iteration, second, cells=2):
    """Files of one day: flags, analysis and components of any values; returns what to expect."""
    y, d = '%04d' % day.year, '%04d%02d%02d' % (day.year, day.month, day.day)
    want, contents = {}, {}

    def cubes(kind, members=()):
        out = []
        for i, t in enumerate(TITLES[:3]):
            data = S.array('%s.%s.%d' % (d, kind, i), (1, 2, 2), lo=-100, hi=400)
            want[kind, i] = S.flat(data)
            out.insert(0, Cube(t, data))
        for k in members:
            data = S.array('%s.member%d' % (d, k), (1, 2, 2), lo=-100, hi=400)
            want['member', k] = S.flat(data)
            out.insert(1, Cube(TITLES[3], data, 'tasensemble_%d' % k))
        return out + [Cube('other', None)]
    contents['/an/eustace_analysis_%d/%s/eustace_analysis_%d_%s.nc' % (iteration, y, iteration, d)] = cubes('analysis', (2, 0, 10))
    for kind in ('climatology', 'large_scale', 'local'):
        contents['/an/eustace_%s_component_%d/%s/eustace_%s_component_%d_%s.nc' % (kind, iteration, y, kind, iteration, d)] = cubes(kind)
    words = S.array(d + '.flags', (1, 2, 2), kind='bv', bits=16)
    want['flags'] = S.flat(words)
    contents['/f1/%s/eustace_analysis_%d_qc_flags_%s.nc' % (y, iteration, d)] = [Cube('Quality control flags', words)]
    if second:
        words = S.array(d + '.more', (1, 2, 2), kind='bv', bits=16)
        want['flags'] = [a | b for a, b in zip(want['flags'], S.flat(words))]
        contents['/f2/%s/eustace_analysis_%d_qc_flags_%s.nc' % (y, iteration, d)] = [Cube('Quality control flags', words)]
    return contents, want


COAST = '/gws/nopw/j04/eustace/data/internal/climatology_covariates/coastal_influence.test.0.25_0.25.nc'


@harness(params=[(datetime.datetime(*day), it, second, op) for day, it, second, op in (((2012, 12, 31), 9, True, False), ((2013, 1, 1), 9, False, False), ((1999, 2, 1), 4, True, False),
                                                                                       ((2012, 12, 31), 9, True, True), ((2013, 1, 1), 9, True, True), ((2001, 6, 2), 9, False, True))],
         assumptions=REAL, bounds='6 days around the end of 2012 and others, 2 by 2 cells with any flags in one or two files and any values, 3 samples')
def output(S, day, iteration, second, operation):
    """Every field of the masked files has the values of the analysis where no condition holds, and none elsewhere; marine cells are masked from 2013 on."""
    contents, want = whole(S, day, iteration, second)
    coast = S.np.array([[100.0, 100.0], [0.0, 0.0]])      # rows of the edges are set to land and sea by the code
    m = setup(S, contents, (1, 2, 2))
    contents[COAST] = [Cube('coast', coast, 'coastal_influence')]
    late = day.year > 2012
    if operation:
        m.operation_dates = lambda reference, index: [day]
        m.masking_operation('1880-01-01', 3, '/an', iteration, '/f1', '/f2' if second else None, '/out')
    else:
        conditions = list(m.FLAGS_TO_MASK) + ([[S.np.uint16(flag('MISSING_MARINE')), S.np.uint16(0)]] if late else [])
        m.apply_mask('/an', iteration, '/f1', '/f2' if second else None, conditions, day, '/out')
    hidden = []
    for k, f in enumerate(want['flags']):
        sea = k >= 2
        hidden.append(S.or_((f & flag(*ALWAYS)) != 0, sea and late, S.and_(not sea, (f & flag('MISSING_FLAG')) != 0)))
    d, y = day.strftime('%Y%m%d'), '%04d' % day.year
    version = {4: 'R001400/20190326', 9: 'R001413/20190405'}[iteration]
    S.eq([b.args[0] for b in Builder.made], ['/out/%s/global/%s/tas_global_eustace_0_%s.nc' % (version, y, d)] + [
        '/out/eustace_%s_component_%d/%s/eustace_%s_component_%d_masked_%s.nc' % (k, iteration, y, k, iteration, d) for k in ('climatology', 'large_scale', 'local')], 'output files')
    for b, kind in zip(Builder.made, ('analysis', 'climatology', 'large_scale', 'local')):
        S.check(b.closed, 'file complete')
        S.eq(b.args[1], (day - datetime.datetime(1850, 1, 1)).days, 'day number')
        defs = S.module('eustace.outputformats.definitions')
        first = defs.TAS if kind in ('analysis', 'climatology') else defs.TASPERTURBATION
        names, sources = [first.name, defs.TASUNCERTAINTY.name, defs.TAS_OBSERVATION_INFLUENCE.name], [(kind, i) for i in range(3)]
        if kind == 'analysis':
            names, sources = names + ['%s_%d' % (defs.TASENSEMBLE.name, i) for i in range(3)], sources + [('member', k) for k in (0, 2, 10)]
        S.eq(sorted(v.name for v, x in b.fields), sorted(names), 'fields of the file: ' + kind)
        fields = {v.name: x for v, x in b.fields}
        for name, source in zip(names, sources):
            x = fields[name]
            S.eq(list(S.shape(x)), [1, 2, 2], 'shape')
            masks = S.flat(S.np.ma.getmaskarray(x))
            for g, mk, v, h in zip(S.flat(x.data), masks, want[source], hidden):
                S.check(S.ite(mk, True, False) == h, 'masked where the flags say')
                S.check(S.or_(h, g == v), 'values which are not masked')


@harness(assumptions=REAL, bounds='3 by 4 cells with any flags and any fractions of water')
def marine(S):
    """Cells with more than 95 % water are marine and no others; the first row is land, the last one sea, and the first and last columns are as the ones next to them."""
    f = S.array('f', (1, 3, 4), kind='bv', bits=16)
    before = S.flat(f)
    water = S.array('water', (3, 4), lo=0, hi=100)
    w = S.flat(water)
    m = setup(S, {COAST: [Cube('coast', water, 'coastal_influence')]}, (1, 3, 4))
    got = m.reset_marine_flag(f)
    S.eq(list(S.shape(got)), [1, 3, 4], 'shape')
    bit = flag('MISSING_MARINE')
    for k, g in enumerate(S.flat(got)):
        i, j = k // 4, min(max(k % 4, 1), 2)
        sea = False if i == 0 else True if i == 2 else w[4 * i + j] > 95
        S.check(S.ite(sea, g == before[k] | bit, g == before[k] & (0xffff - bit)), 'marine flag of the cell, other flags as before')


@harness(bounds='2 by 2 cells with any flags, 3 dates')
def flagfile(S):
    """A flag file holds the flags given, names the meaning of each bit in use and has the day of the analysis."""
    m = setup(S, {}, (1, 2, 2))
    day = S.choice('day', [datetime.datetime(1850, 1, 1), datetime.datetime(1999, 12, 31), datetime.datetime(2000, 2, 29)])
    f = S.array('f', (2, 2), kind='bv', bits=16)
    before = S.flat(f)
    m.save_flag_file(f, day, '/tmp/flags.nc')
    S.eq(len(Builder.made), 1, 'a file')
    b = Builder.made[0]
    S.eq(b.args[0], '/tmp/flags.nc', 'file')
    S.eq(b.args[1], (day - datetime.datetime(1850, 1, 1)).days, 'day number')
    S.check(b.closed, 'file complete')
    (v, x), = b.fields
    S.eq(list(S.shape(x)), [1, 2, 2], 'shape')
    for g, w in zip(S.flat(x), before):
        S.check(g == w, 'flags as given')
    meanings, masks = v.flag_meanings.split(' '), [int(k) for k in v.flag_masks]
    S.eq(len(meanings), len(masks), 'a meaning for each bit')
    words = {'DAY': 'day', 'PRIOR_WINDOW': 'prior_window', 'POST_WINDOW': 'post_window', 'PRIOR_CALENDAR': 'prior_calendar', 'POST_CALENDAR': 'post_calendar', 'CLIMATOLOGY_UNC': 'climatology',
             'LARGE_SCALE_UNC': 'large_scale', 'AREAL_LOW': 'areal_low', 'AREAL_HIGH': 'areal_high', 'EXTREME_LOW': 'extreme_low', 'EXTREME_HIGH': 'extreme_high',
             'PERSISTANT_OUTLIER': 'outlier', 'MISSING_MARINE': 'marine', 'LOCATION_LOW': 'location_low', 'LOCATION_HIGH': 'location_high', 'MISSING_FLAG': 'calendar_day'}
    flags = S.module(POST + 'flags')
    for name in BITS:
        bit = int(getattr(flags, name + '_FLAG'))
        S.check(bit in masks and words[name] in meanings[masks.index(bit)], 'meaning of the flag ' + name)


@harness(dates=True, params=[(1, 0), (1, 1), (1, 11), (1, 12), (6, 8), (12, 1), (1, 24 + 3), (3, 5)], bounds='any years from 1850 to 2090, 8 pairs of first month and offset')
def months(S, month, index):
    """The dates of an operation are all days of its month, in order."""
    m = S.module(POST + 'operation_count')
    year = S.int('year', 1850, 2090)
    got = m.operation_dates(S.date_of(year, month, 1), index)
    y, mo = year + (month - 1 + index) // 12, (month - 1 + index) % 12 + 1
    leap = S.or_(y % 400 == 0, S.and_(y % 4 == 0, y % 100 != 0))
    length = S.ite(leap, 29, 28) if mo == 2 else 30 if mo in (4, 6, 9, 11) else 31
    S.eq(length, len(got), 'days of the month')
    first = got[0]
    for i, d in enumerate(got):
        S.check((d - first).days == i, 'days in order')
    S.check(first == S.date_of(y, mo, 1), 'first day')


@harness(dates=True, bounds='any years from 1850 to 2100')
def counts(S):
    """The number of operations of a range of years is the number of its months."""
    m = S.module(POST + 'operation_count')
    a, n = S.int('first', 1850, 2000), S.int('years', 1, 100)
    S.eq(m.operation_count(a, a + n - 1), 12 * n, 'months')
