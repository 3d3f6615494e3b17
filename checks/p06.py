"""P06: raw binary observation files hold exactly the valid observations of their day, and are read back as written."""
import uuid

from vf.api import harness

RAW = 'eustace.analysis.fileio.observationsource_rawbinary'
PTR = 'eustace.analysis.fileio.locationpointers'
OBS = 'eustace.analysis.observationsource'
STUBS = ('files are lists of bytes and numbers in memory; the replay uses real files', 'format identifiers are bytes, as they are for the Python the code is written for')
U1 = uuid.UUID('cb456b34-e723-4053-b755-0ab311c58ae6')
OTHERS = [uuid.UUID(h) for h in ('00000000-e723-4053-b755-0ab311c58ae6', 'cb456b34-e723-4053-b755-0ab311c58ae7', 'db456b34-e723-4053-b755-0ab311c58ae6', 'cb456b34-e723-4053-b756-0ab311c58ae6')]


def raw(S):
    m = S.module(RAW)
    for name in ('FORMATID_OBSERVATION', 'FORMATID_LOCATION_LOOKUP', 'FORMATID_LOCAL_CORRELATION_RANGE', 'CODEID'):
        v = getattr(m, name)
        setattr(m, name, v.encode() if isinstance(v, str) else v)
    m.ensuredirectory = lambda p: None
    return m


def some(S, n, c, name='', locations=(0, 10**6)):
    np = S.np
    mask = S.array(name + 'mask', n, 'bool')
    loc = S.array(name + 'loc', n, 'int', *locations)
    return S.module(OBS).Observations(mask, None, loc, S.array(name + 'x', n), S.array(name + 'u', n), [S.array(name + 'c%d_' % k, n) for k in range(c)])


@harness(bounds='3 observations, any mask, any times within 3 days of the day, 0, 1, 3 or 5 correlated uncertainties, any values', assumptions=STUBS)
def observations_round_trip(S):
    """Reading a day gives exactly the valid observations of that day, in order and value for value."""
    m = raw(S)
    n, c = 3, S.choice('c', [0, 1, 3, 5])
    obs = some(S, n, c)
    day = S.int('day', 3, 70000)
    off = S.array('off', n, 'real', -3, 3)
    obs.time = off + day
    path = S.file('a.bin')
    m.ObservationRawBinaryWriter().write_day(path, U1, obs, day)
    keep = [i for i in range(n) if bool(S.and_(S.not_(obs.mask[i]), off[i] >= 0, off[i] < 1))]
    r = m.ObservationRawBinaryReader(c)
    got = r.read_day(path, U1, day)
    S.eq(got.number_of_observations(), len(keep), 'as many observations as were valid on the day')
    S.eq(got.time, day, 'the day')
    for j, i in enumerate(keep):
        S.eq(got.location[j], obs.location[i], 'location')
        S.close(got.measurement[j], obs.measurement[i], 'measurement')
        S.close(got.uncorrelatederror[j], obs.uncorrelatederror[i], 'uncorrelated uncertainty')
        S.eq(len(got.locallycorrelatederror), c, 'number of correlated uncertainties')
        for k in range(c):
            S.close(got.locallycorrelatederror[k][j], obs.locallycorrelatederror[k][i], 'correlated uncertainty')
    S.check(S.not_(S.any(got.mask)), 'everything read is valid')
    S.eq(r.read_observation_count(path), len(keep), 'counted without reading')
    S.eq(list(S.flat(r.read_location_ids(path, U1))), [obs.location[i] for i in keep], 'locations alone')


@harness(bounds='2 observations of one day given as one number', assumptions=STUBS)
def one_time_for_all(S):
    """A single time applies to all observations."""
    m = raw(S)
    obs = some(S, 2, 1)
    t = S.array('t', 1, 'real', 0, 70000)
    obs.time = t
    day = S.int('day', 0, 70000)
    path = S.file('a.bin')
    m.ObservationRawBinaryWriter().write_day(path, U1, obs, day)
    today = S.and_(t[0] >= day, t[0] < day + 1)
    n = S.sum([S.ite(S.and_(today, S.not_(k)), 1, 0) for k in S.flat(obs.mask)])
    S.eq(m.ObservationRawBinaryReader(1).read_observation_count(path), n, 'number of observations stored')


@harness(bounds='observation files and location pointers of two location tables, their identifiers alike but for the first or last digit', assumptions=STUBS)
def other_locations_refused(S):
    """Files that belong to another table of locations, or of another format, are refused."""
    m = raw(S)
    U2 = S.choice('other', OTHERS)
    obs = some(S, 1, 0)
    obs.time = S.array('t', 1, 'real', 5, 5)
    path = S.file('a.bin')
    m.ObservationRawBinaryWriter().write_day(path, U2, obs, 5)
    r = m.ObservationRawBinaryReader(0)
    S.raises(Exception, lambda: r.read_day(path, U1, 5), 'observations of other locations')
    S.raises(Exception, lambda: r.read_location_ids(path, U1), 'observations of other locations')
    S.raises(Exception, lambda: m.LocationLookupRawBinaryReader().read(path), 'file of another format')
    S.raises(Exception, lambda: m.LocalCorrelationRangeRawBinaryReader().read(path), 'file of another format')
    lp = S.module(PTR)
    lp.FORMATID_LOCATION_POINTERS = b'EUSTACELOCP00001'
    w, lookup, cor = pointers(S, m, 2, 0)
    w.write(S.file('p.bin'))
    e = S.attempt(lp.LocationPointersRawBinaryReader().read_pointer_records, S.file('p.bin'), U2, 0)
    S.check(e.raised and 'mismatch' in str(e.error), 'pointers of other locations')


@harness(bounds='files of observations, locations and ranges whose format identifier differs in the kind or in the version', assumptions=STUBS)
def other_formats_refused(S):
    """Files of another format, be it another version of the same, are refused."""
    m = raw(S)
    kind = S.choice('kind', ['FORMATID_OBSERVATION', 'FORMATID_LOCATION_LOOKUP', 'FORMATID_LOCAL_CORRELATION_RANGE'])
    mine = getattr(m, kind)
    other = S.choice('other', [mine[:-1] + b'2', mine[:11] + b'1' + mine[12:], b'e' + mine[1:], mine[:7] + b'XYZW' + mine[11:]])
    path = S.file('a.bin')

    def write(formatid):
        setattr(m, kind, formatid)
        try:
            if kind == 'FORMATID_OBSERVATION':
                obs = some(S, 1, 0, 'w%d' % (formatid == mine))
                obs.time = S.np.array([5.0])
                m.ObservationRawBinaryWriter().write_day(path, U1, obs, 5)
            elif kind == 'FORMATID_LOCATION_LOOKUP':
                m.LocationLookupRawBinaryWriter().write(path, m.LocationLookupWithID(U1, S.np.zeros((2, 2))))
            else:
                m.LocalCorrelationRangeRawBinaryWriter().write(path, [1.0])
        finally:
            setattr(m, kind, mine)

    def read():
        if kind == 'FORMATID_OBSERVATION':
            return m.ObservationRawBinaryReader(0).read_day(path, U1, 5)
        return (m.LocationLookupRawBinaryReader() if kind == 'FORMATID_LOCATION_LOOKUP' else m.LocalCorrelationRangeRawBinaryReader()).read(path)
    write(mine)
    read()
    write(other)
    if S.open(path).read(16) == other:
        S.raises(Exception, read, 'file of another format')


@harness(bounds='locations -1, the number of locations, and the next', assumptions=STUBS)
def pointers_of_unknown_locations_refused(S):
    """There are no pointers of locations that are not in the table."""
    m = raw(S)
    w, _, _ = pointers(S, m, 2, 0)
    w.write(S.file('p.bin'))
    r = S.attempt(S.module(PTR).LocationPointersRawBinaryReader().read_pointer_records, S.file('p.bin'), U1, S.choice('location', [-1, 2, 3]))
    S.check(r.raised and not isinstance(r.error, (TypeError, IndexError, OverflowError)), 'refused')


@harness(bounds='0 to 3 observations of a missing or present file')
def missing_day(S):
    """A day without a file gives no valid observation."""
    m = raw(S)
    got = m.ObservationRawBinaryReader(S.choice('c', [0, 2])).read_day(None, U1, 7)
    S.check(S.all(got.mask), 'nothing valid')
    spec = m.ObservableFileSpec(None, [1.0])
    src = m.ObservationSourceSingleDayRawBinary(m.LocationLookupWithID(U1, S.np.zeros((2, 3))), {'Tmean': spec}, 7)
    S.eq(src.observations('Tmean').number_of_observations(), 0, 'no observations')
    S.eq(S.shape(src.observation_location_lookup()), (2, 3), 'location table')


@harness(bounds='0 to 3 locations at any coordinates; 0 to 3 ranges of any length', assumptions=STUBS)
def lookup_round_trip(S):
    """Tables of locations and correlation ranges are read back as written."""
    m = raw(S)
    n = S.choice('n', [0, 1, 3])
    table = S.array('t', (2, n))
    path = S.file('l.bin')
    m.LocationLookupRawBinaryWriter().write(path, m.LocationLookupWithID(U1, table))
    got = m.LocationLookupRawBinaryReader().read(path)
    S.check(got.uuid == U1, 'identifier')
    S.close(got.lookuptable, table, 'coordinates')
    u, count = m.LocationLookupRawBinaryReader().read_uuid_and_count(path)
    S.check(u == U1 and count == n, 'identifier and count')
    k = S.choice('k', [0, 1, 3])
    ranges = [S.real('r%d' % j) for j in range(k)]
    m.LocalCorrelationRangeRawBinaryWriter().write(S.file('c.bin'), ranges)
    S.close(list(m.LocalCorrelationRangeRawBinaryReader().read(S.file('c.bin'))), ranges, 'ranges')


def pointers(S, m, n, c):
    lp = S.module(PTR)
    lp.FORMATID_LOCATION_POINTERS = b'EUSTACELOCP00001'
    lp.CODEID = b'NOCODEVERSION   '
    lookup, cor = S.file('loc.bin'), S.file('cor.bin')
    m.LocationLookupRawBinaryWriter().write(lookup, m.LocationLookupWithID(U1, S.np.zeros((2, n))))
    m.LocalCorrelationRangeRawBinaryWriter().write(cor, [1.0] * c)
    return lp.LocationPointersRawBinaryWriter(lookup, cor), lookup, cor


@harness(bounds='3 locations, two days of 2 observations at any of them, 0 or 2 correlated uncertainties, any values', assumptions=STUBS, max_paths=6000)
def pointers_lead_to_measurements(S):
    """The pointers of a location are the days and file positions of exactly its own measurements."""
    m = raw(S)
    n, c = 3, S.choice('c', [0, 2])
    w, _, _ = pointers(S, m, n, c)
    days, sets = [11, 12], []
    for q, day in enumerate(days):
        obs = some(S, 2, c, 'd%d' % q, (0, n - 1))
        obs.mask = S.np.zeros(2, S.np.bool_)
        obs.time = S.np.array([day, day]) * 1.0
        m.ObservationRawBinaryWriter().write_day(S.file('o%d.bin' % q), U1, obs, day)
        w.append_day(S.file('o%d.bin' % q), day)
        sets.append(obs)
    w.write(S.file('p.bin'))
    np = S.np
    f = S.open(S.file('p.bin'))
    S.check(f.read(16) == b'EUSTACELOCP00001', 'format')
    f.read(16)
    S.check(f.read(16) == U1.bytes, 'identifier')
    S.eq(int(np.fromfile(f, np.uint64, 1)[0]), n, 'number of locations')
    table = [[int(v) for v in S.flat(np.fromfile(f, np.uint64, 2))] for _ in range(n)]
    for loc in range(n):
        want = [(q, j) for q in (0, 1) for j in (0, 1) if bool(sets[q].location[j] == loc)]
        offset, count = table[loc]
        S.eq(count, len(want), 'number of measurements of a location')
        f.seek(offset)
        recs = [[int(v) for v in S.flat(np.fromfile(f, np.uint64, 2))] for _ in range(count)]
        for (day, where), (q, j) in zip(recs, want):
            S.eq(day, days[q], 'day of a measurement')
            o = S.open(S.file('o%d.bin' % q))
            o.seek(where)
            S.close(np.fromfile(o, np.float64, 1)[0], sets[q].measurement[j], 'the measurement at that position')


@harness(dates=True, bounds='every day 1850..2030 (day 0 to 66000), any two days')
def file_names(S):
    """Names of observation files are different for different days and carry the date, which is recovered from them."""
    m = raw(S)
    g = m.ObservationSourceBinaryFilenameGenerator('src', '/base')
    build = m.datetime_numeric.build_from_pattern
    if not hasattr(build, 'takes_text'):
        m.datetime_numeric.build_from_pattern = lambda pattern, t: build(S.text(pattern), t)
        m.datetime_numeric.build_from_pattern.takes_text = True
    a, b = S.int('a', 0, 66000), S.int('b', 0, 66000)
    S.assume(a != b)
    for f in (g.filename_observations, g.filename_mobile_locations):
        S.check(S.not_(f('Tmin', a) == f('Tmin', b)), 'names of different days differ')
    for x, y in (('Tmin', 'Tmax'), ('Tmean', 'Tmin'), ('surfaceairtemperature_min', 'surfaceairtemperature_max')):
        S.check(S.not_(g.filename_observations(x, a) == g.filename_observations(y, a)), 'names of different observables differ')
        S.check(S.not_(g.filename_mobile_locations(x, a) == g.filename_mobile_locations(y, a)), 'names of locations of different observables differ')
        S.check(g.filename_local_correlation_ranges(x) != g.filename_local_correlation_ranges(y), 'names of correlation ranges of different observables differ')
    h = m.ObservationSourceBinaryFilenameGenerator('src2', '/base')
    S.check(S.not_(g.filename_observations('Tmin', a) == h.filename_observations('Tmin', a)), 'names of different sources differ')
    S.check(g.filename_local_correlation_ranges('Tmin') != h.filename_local_correlation_ranges('Tmin'), 'names of different sources differ')
