"""P29: readings of stations, ships and lakes become observations of their own place and day."""
import uuid

from vf.api import harness
from vf import fakefile, fakenc

LAND = 'eustace.preprocess.fileio.insitu_land'
BREAKS = 'eustace.preprocess.fileio.insitu_land_breakpoints'
OCEAN = 'eustace.preprocess.fileio.insitu_ocean'
HEIGHT = 'eustace.preprocess.fileio.height_adjustment'
LAKE = 'eustace.surfaceairmodel.fileio.lake'
FIXED = 'eustace.analysis.preparedailyfixed'
MOBILE = 'eustace.analysis.preparedailymobile'
LOOKUP = 'eustace.analysis.preparelocationlookup'
RANGES = 'eustace.analysis.preparecorrelationranges'

OVER = fakenc.modules()
FILES = ['netCDF files are a stand-in that gives back what was put in, missing cells masked; the replay uses real files', 'arithmetic over the reals']
CODES = ['ab01', 'ab02', 'xy  ']


def station_file(S, path, times, n, fields, lat=None, lon=None, elevation=None):
    """A file of stations as the preprocessing of in-situ land data leaves it; fields: name -> (values, missing)."""
    np, nc = S.np, S.module(LAND).netCDF4
    f = nc.Dataset(path, 'w')
    f.createDimension('time', len(times))
    f.createDimension('station', n)
    f.createDimension('name_strlen', 4)
    f.createVariable('time', 'f8', ('time',))[:] = np.array(times)
    c = f.createVariable('station_code', 'S1', ('station', 'name_strlen'))
    import numpy
    c[:] = numpy.array([list(CODES[k]) for k in range(n)], 'S1')
    for name, v in (('latitude', lat), ('longitude', lon), ('elevation', elevation)):
        if v is not None:
            x = f.createVariable(name, 'f8', ('station',), fill_value=-999.0)
            bad = [k is None for k in v]
            x[:] = np.ma.masked_array(np.array([0.0 if k is None else k for k in v]), mask=np.array(bad))
    for name, (values, missing) in fields.items():
        kind = 'i4' if name.endswith('_qc') else 'f8'
        x = f.createVariable(name, kind, ('time', 'station'), fill_value=-999)
        x[:, :] = np.ma.masked_array(np.array(values).reshape(len(times), n), mask=np.array(missing).reshape(len(times), n))
    f.close()
    return path


def held_out(S, path, codes):
    import numpy
    f = S.module(LAND).netCDF4.Dataset(path, 'w')
    f.createDimension('station', len(codes))
    f.createDimension('name_strlen', 4)
    c = f.createVariable('station_code', 'S1', ('station', 'name_strlen'))
    c[:] = numpy.array([list(k) for k in codes], 'S1')
    f.close()
    return path


def stations(S, T, n, missing, heights=False):
    """Any values, any flags, times in order; the file, and what is in it."""
    fakenc.FILES.clear()
    d = {'t': [S.int('t%d' % k, 0, 70000) for k in range(T)]}
    for a, b in zip(d['t'], d['t'][1:]):
        S.assume(a < b)
    for q in ('tasmin', 'tasmax'):
        d[q] = [S.real('%s%d' % (q, k), 200, 330) for k in range(T * n)]
        d[q + '_qc'] = [S.int('%s_qc%d' % (q, k), 0, 300) for k in range(T * n)]
    d['missing'] = missing
    d['lat'] = [S.real('lat%d' % k, -90, 90) for k in range(n)]
    d['lon'] = [S.real('lon%d' % k, -180, 360) for k in range(n)]
    for x in d['lon']:
        S.assume(x < 360)
    d['height'] = [S.real('height%d' % k, -400, 6000) for k in range(n)] if heights else None
    fields = {q: (d[q], missing) for q in ('tasmin', 'tasmax')}
    fields.update({q + '_qc': (d[q + '_qc'], [False] * (T * n)) for q in ('tasmin', 'tasmax')})
    d['file'] = station_file(S, S.file('stations.nc'), d['t'], n, fields, d['lat'], d['lon'], d['height'])
    return d


def same_readings(S, o, which, values, want_missing, times, n, errors=None):
    """The observations are the readings given, one for each."""
    S.check(o is not None, 'there are observations')
    T = len(times)
    S.eq(o.number_of_observations(), T * n, 'one observation for each reading')
    for name, a in (('mask', o.mask), ('time', o.time), ('location', o.location), ('measurement', o.measurement), ('uncertainty', o.uncorrelatederror)):
        S.eq(list(S.shape(a)), [T * n], 'one %s for each reading' % name)
    S.eq(len(o.locallycorrelatederror), 0, 'no correlated uncertainties')
    S.eq(S.flat(o.time), [t for t in times for _ in range(n)], 'own day')
    S.eq(S.flat(o.location), [k for _ in range(T) for k in range(n)], 'own station')
    for i in range(T * n):
        S.check(S.and_(S.implies(o.mask[i], want_missing[i]), S.implies(want_missing[i], o.mask[i])), 'missing exactly where it should be')
        if want_missing[i] is not True:
            off = o.measurement[i] - values[i]
            S.check(S.or_(want_missing[i], S.and_(off < 1e-3, off > -1e-3)), 'own value of ' + which)
            if errors is None:
                S.close(o.uncorrelatederror[i], 0.3, 'uncertainty of 0.3 K', tol=1e-6)


@harness(params=['one', 'none_missing', 'whole'], overrides=OVER, assumptions=FILES,
         bounds='2 days in order and 2 stations, any values, any quality flags 0..300, first day with any reading missing; any day wanted, or all; with and without quality control; '
                'no stations held out, one of them, or others only')
def station_readings(S, which):
    """Readings of stations: those of the day wanted (or all), each with its own station and value, missing where the file has none, the flag is set (if asked), or the station is held out."""
    m = S.module(LAND)
    n, T = 2, 2
    miss = [False] * 4 if which == 'none_missing' else [S.fork_bool('missing0'), S.fork_bool('missing1'), False, True]
    d = stations(S, T, n, miss)
    qc = S.fork_bool('quality control')
    hold = S.choice('held out', [None, [CODES[1]], ['zz99', 'ab0']] if which == 'one' else [None, [CODES[0], 'zz99']])
    hold_file = None
    if hold is not None:
        hold_file = held_out(S, S.file('hold.nc'), [(c + '    ')[:4] for c in hold])
    obs = S.choice('observable', ['Tmin', 'Tmax'])
    base = 'tasmin' if obs == 'Tmin' else 'tasmax'
    day = None if which == 'whole' else S.int('day', 0, 70000)
    src = m.ObservationSourceInsituLand(d['file'], day, hold_file)
    o = src.observations(obs, qc)
    S.eq(src.number_of_stations(), n, 'stations')
    S.eq(src.number_of_days(), T if day is None else 1, 'days')
    S.eq(src.number_of_observations(), (T if day is None else 1) * n, 'observations')
    S.eq(sorted(src.observables()), ['Tmax', 'Tmin'], 'quantities')
    if day is None:
        rows, times = [0, 1], d['t']
    else:
        rows = [k for k in range(T) if bool(day == d['t'][k])]
        times = [day]
        if not rows:
            S.check(o is None, 'nothing of a day that is not in the file')
            return
    index = [k * n + j for k in rows for j in range(n)]
    want = []
    for i in index:
        if miss[i] or (hold is not None and CODES[i % n] in hold):
            want.append(True)
        else:
            want.append((d[base + '_qc'][i] != 0) if qc else False)
    same_readings(S, o, obs, [d[base][i] for i in index], want, times, n)


class Adjust(object):
    """Stands for the altitude adjustment: any numbers for each station; notes what it is asked."""

    def __init__(self, S, shift, unc):
        self.S, self.shift, self.unc, self.loaded, self.asked = S, shift, unc, 0, []

    def load_reference_map(self):
        self.loaded += 1

    def adjustment(self, altitudes, locations):
        self.asked.append((altitudes, locations))
        return self.S.np.ma.masked_array(self.S.np.array(self.shift), mask=self.S.np.ma.getmaskarray(altitudes))

    def adjustment_uncertainty(self, altitudes, locations):
        self.asked.append((altitudes, locations))
        return self.S.np.ma.masked_array(self.S.np.array(self.unc), mask=self.S.np.ma.getmaskarray(altitudes))


@harness(params=['some', 'none'], overrides=OVER, assumptions=FILES, bounds='2 days, 2 stations of any place and height (or missing height), any adjustment and uncertainty for each, any reading of the first day missing')
def station_heights(S, which):
    """With an adjustment for altitude each reading is shifted by that of its own station, and the uncertainties add in squares; without a height there is no reading."""
    m = S.module(LAND)
    miss = [False] * 4 if which == 'none' else [S.fork_bool('missing0'), False, False, True]
    d = stations(S, 2, 2, miss, heights=True)
    if which == 'some' and S.fork_bool('no height'):
        heights = [d['height'][0], None]
        fields = {q: (d[q], miss) for q in ('tasmin', 'tasmax')}
        fields.update({q + '_qc': (d[q + '_qc'], [False] * 4) for q in ('tasmin', 'tasmax')})
        fakenc.FILES.clear()
        d['file'] = station_file(S, S.file('stations2.nc'), d['t'], 2, fields, d['lat'], d['lon'], heights)
    else:
        heights = d['height']
    a = Adjust(S, [S.real('shift%d' % k, -40, 40) for k in range(2)], [S.real('unc%d' % k, 0, 10) for k in range(2)])
    one = S.fork_bool('one day')
    src = m.ObservationSourceInsituLand(d['file'], d['t'][0] if one else None, None, a)
    o = src.observations('Tmin', False)
    rows = [0] if one else [0, 1]
    index = [k * 2 + j for k in rows for j in range(2)]
    S.check(a.loaded >= 1 and len(a.asked) >= 2, 'the reference map is loaded')
    for alt, loc in a.asked:
        S.eq(list(S.shape(loc)), [2, 2], 'a place for each station')
        for k in range(2):
            S.close(loc[k][0], d['lat'][k], 'latitude of the station')
            S.close(loc[k][1], S.ite(d['lon'][k] >= 180, d['lon'][k] - 360, d['lon'][k]), 'longitude of the station')
            if heights[k] is not None:
                S.close(alt[k] * 1000.0, heights[k], 'height of the station in km', tol=1e-5)
    want = [bool(miss[i] or heights[i % 2] is None) for i in index]
    same_readings(S, o, 'Tmin', [d['tasmin'][i] + a.shift[i % 2] for i in index], want, [d['t'][k] for k in rows], 2, errors=False)
    for k, i in enumerate(index):
        if not want[k]:
            u = o.uncorrelatederror[k]
            S.check(u >= 0, 'an uncertainty')
            S.close(u * u, a.unc[i % 2] * a.unc[i % 2] + 0.09, 'uncertainties add in squares', tol=1e-5)


@harness(params=['stations', 'breaks'], overrides=OVER, assumptions=FILES, bounds='3 stations of any latitudes and longitudes -180..360')
def station_places(S, which):
    """Places of the stations in order, with longitudes from -180 to 180."""
    fakenc.FILES.clear()
    lat = [S.real('lat%d' % k, -90, 90) for k in range(3)]
    lon = [S.real('lon%d' % k, -180, 360) for k in range(3)]
    for x in lon:
        S.assume(x < 360)
    path = station_file(S, S.file('stations.nc'), [1.0], 3, {}, lat, lon)
    src = S.module(LAND).ObservationSourceInsituLand(path) if which == 'stations' else S.module(BREAKS).ObservationBreakPointSourceInsituLand(path)
    for _ in range(2):
        p = src.observation_location_lookup()
        S.eq(list(S.shape(p)), [2, 3], 'latitude and longitude of each station')
        for k in range(3):
            S.close(p[0][k], lat[k], 'latitude')
            S.close(p[1][k], S.ite(lon[k] >= 180, lon[k] - 360, lon[k]), 'longitude between -180 and 180')
    S.eq(len(src.local_correlation_length_scale('Tmin')) if which == 'stations' else 0, 0, 'no correlated uncertainties')


@harness(overrides=OVER, assumptions=FILES + ['places inside the map'], bounds='a map of 2 by 2 points of any heights, scale factor 0.001 or 1; 2 stations of any place within it and any height')
def heights(S):
    """The adjustment is 6.5 K for each km above the reference surface at the station, and its uncertainty 1.1 K for each km of difference."""
    m, np = S.module(HEIGHT), S.np
    fakenc.FILES.clear()
    path = S.file('map.nc')
    f = m.Dataset(path, 'w')
    f.createDimension('la', 2)
    f.createDimension('lo', 2)
    lat, lon, c = [10.0, 20.0], [0.0, 10.0], [S.real('map%d' % k, -500, 6000) for k in range(4)]
    f.createVariable('lat', 'f8', ('la', 'lo'))[:, :] = np.array([[x, x] for x in lat])
    f.createVariable('lon', 'f8', ('la', 'lo'))[:, :] = np.array([lon, lon])
    f.createVariable('dem', 'f8', ('la', 'lo'))[:, :] = np.array(c).reshape(2, 2)
    f.close()
    k = S.choice('factor', [0.001, 1.0])
    a = m.AltitudeAdjustment(path, 'lat', 'lon', 'dem', k)
    a.load_reference_map()
    own = [[12.5, 2.5], [17.5, 5.0]]
    alt = [S.real('alt%d' % j, -1, 9) for j in range(2)]
    got = a.adjustment(np.array(alt), np.array(own))
    unc = a.adjustment_uncertainty(np.array(alt), np.array(own))
    S.eq(list(S.shape(got)) + list(S.shape(unc)), [2, 2], 'one for each station')
    for j, (x, y) in enumerate(own):
        u, v = (x - 10.0) / 10.0, y / 10.0
        ref = k * ((1 - u) * (1 - v) * c[0] + (1 - u) * v * c[1] + u * (1 - v) * c[2] + u * v * c[3])
        S.close(got[j], 6.5 * (alt[j] - ref), '6.5 K for each km above the surface', tol=1e-6)
        S.close(unc[j], S.ite(alt[j] >= ref, 1.1 * (alt[j] - ref), 1.1 * (ref - alt[j])), '1.1 K for each km of difference', tol=1e-6)


@harness(overrides=OVER, assumptions=FILES, bounds='3 break points of any time, station 0..2 and likelihood, the likelihood of any of them missing; 3 stations; all break points, or those of any station')
def breakpoints(S):
    """Break points: those with a likelihood, of the station wanted or all, each with its own time, station and likelihood, and the feasibility of the station wanted or of each."""
    m, np = S.module(BREAKS), S.np
    fakenc.FILES.clear()
    t = [S.int('t%d' % k, 0, 70000) for k in range(3)]
    st = [S.int('station%d' % k, 0, 2) for k in range(3)]
    like = [S.int('likelihood%d' % k, 0, 100) for k in range(3)]
    miss = [S.fork_bool('missing%d' % k) for k in range(3)]
    feas = [S.int('feasible%d' % k, 0, 1) for k in range(3)]
    names = m.ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS['merged_break']
    f = m.netCDF4.Dataset(S.file('breaks.nc'), 'w')
    f.createDimension(names['dimension'], 3)
    f.createDimension('station', 3)
    for key, v, dim in (('break_time', t, names['dimension']), ('break_station', st, names['dimension']), ('detection_feasibility', feas, 'station')):
        f.createVariable(names[key].name, 'i4', (dim,))[:] = np.array(v)
    f.createVariable(names['break_likelihood'].name, 'i4', (names['dimension'],), fill_value=-99)[:] = np.ma.masked_array(np.array(like), mask=np.array(miss))
    f.close()
    want = S.choice('station', [None, 0, 1, 2])
    src = m.ObservationBreakPointSourceInsituLand(S.file('breaks.nc'), want)
    r = src.observations()
    own = [k for k in range(3) if want is None or bool(st[k] == want)]
    S.eq(src.number_of_observations('merged_break'), len(own), 'break points of the station in the file')
    keep = [k for k in own if not miss[k]]
    for name, v in (('break_time', t), ('break_station', st), ('break_likelihood', like)):
        S.eq(S.flat(getattr(r, name)), [v[k] for k in keep], name)
    S.eq(S.flat(r.detection_feasibility), feas if want is None else [feas[want]], 'feasibility of the station')


TITLES = ['ID', 'Lat', 'Lon', 'year', 'month', 'day', 'hour', 'Air', 'SST', 'Wind']


class Numpy(object):
    """numpy with a reader of text tables by the contract of genfromtxt, giving columns held in memory."""

    def __init__(self, real, table):
        self.__dict__.update(_real=real, _table=table)

    def __getattr__(self, k):
        return getattr(self._real, k)

    def genfromtxt(self, fname, dtype=None, comments='#', delimiter=None, converters=None, usecols=None, names=None, **k):
        return self._table(dtype, comments, delimiter, converters, usecols, names)


def records(columns, n, kind):
    import numpy
    d = numpy.dtype([(k, kind) for k, v in columns])
    return fakefile.Records(d, n if n > 1 else (), dict(columns))


@harness(params=[1, 2], assumptions=['numpy.genfromtxt, gzip and temporary files by their contract; the replay reads real files'],
         bounds='1 or 2 rows of any place and temperature, the first of any date 30 December 1903..2 March 1904, the second of 31 December 1999; columns of the format file in one of three orders')
def ships(S, n):
    """Readings of ships: one observation for each row of the file, with its own day, place and temperature in kelvin, from the columns the format names."""
    import datetime
    m, np = S.module(OCEAN), S.np
    order = S.choice('order', [TITLES] if n > 1 else [['year', 'month', 'day', 'hour', 'Lat', 'Lon', 'ID', 'Wind', 'SST', 'Air'], list(reversed(TITLES))])
    t = [S.datetime('date0', lo=(1903, 12, 30), hi=(1904, 3, 2), resolution='day')] + [S.date_of(1999, 12, 31), S.date_of(1904, 2, 29)][:n - 1]
    rows = [{'ID': 0, 'Lat': S.int('lat%d' % k, -900, 900), 'Lon': S.int('lon%d' % k, -1800, 1800), 'year': t[k].year, 'month': t[k].month, 'day': t[k].day,
             'hour': S.int('hour%d' % k, 0, 23), 'Air': S.int('air%d' % k, -5000, 5000), 'SST': S.int('sst%d' % k, -300, 3500), 'Wind': S.int('wind%d' % k, 0, 900)} for k in range(n)]
    import os
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='vfscratch')
    try:
        path = os.path.join(scratch, 'format.txt')
        with open(path, 'w') as f:
            f.write('Format of the file\n\n' + ' '.join(order) + ' T\n')
        fmt = m.HadNMAT2Format(path)
    finally:
        shutil.rmtree(scratch)
    S.eq(list(fmt.usecols), [order.index(k) for k in m.HadNMAT2Format.FIELDS], 'columns by their titles')
    if S.symbolic:
        class Blob(object):
            def seek(self, *a):
                pass

        class Any(object):
            open = staticmethod(lambda *a, **k: Blob())
            copyfileobj = staticmethod(lambda *a, **k: None)
            NamedTemporaryFile = staticmethod(lambda *a, **k: Blob())

        def table(dtype, comments, delimiter, converters, usecols, names):
            S.check(delimiter == 8 and comments is None and len(names) == len(usecols) == len(dtype), 'a table of columns of 8 characters, "#" being part of names')
            return records([(name, [r[order[c]] for r in rows]) for name, c in zip(names, usecols)], n, 'i4')
        keep = {k: getattr(m, k) for k in ('numpy', 'gzip', 'shutil', 'tempfile')}
        m.numpy, m.gzip, m.shutil, m.tempfile = Numpy(m.numpy, table), Any, Any, Any
        try:
            src = m.ObservationSourceInsituOceanHadNMAT2(fmt, 'a file')
        finally:
            for k, v in keep.items():
                setattr(m, k, v)
    else:
        import gzip
        gz = S.file('ships.gz')
        with gzip.open(gz, 'wt') as f:
            for r in rows:
                f.write(''.join(('#ship1' if c == 'ID' else str(int(r[c]))).rjust(8) for c in order) + '\n')
        src = m.ObservationSourceInsituOceanHadNMAT2(fmt, gz)
    o = src.observations('Tmean')
    S.eq(src.number_of_observations(), n, 'as many as rows')
    S.eq(list(src.observables()), ['Tmean'], 'mean temperature')
    for a in (o.mask, o.time, o.location, o.measurement, o.uncorrelatederror):
        S.eq(list(S.shape(a)), [n], 'one for each row')
    p = src.observation_location_lookup()
    S.eq(list(S.shape(p)), [2, n], 'a place for each row')
    for k in range(n):
        S.check(S.not_(o.mask[k]), 'all are valid')
        S.eq(o.time[k], (t[k] - S.date_of(1850, 1, 1)).days, 'own day')
        S.eq(o.location[k], k, 'own place')
        S.close(p[0][k], rows[k]['Lat'] * 0.1, 'latitude in degrees', tol=1e-4)
        S.close(p[1][k], rows[k]['Lon'] * 0.1, 'longitude in degrees', tol=1e-4)
        S.close(o.measurement[k], rows[k]['Air'] * 0.01 + 273.15, 'kelvin', tol=1e-3)
        S.close(o.uncorrelatederror[k], 1.1, 'uncertainty of 1.1 K', tol=1e-6)
    S.eq(len(o.locallycorrelatederror), 0, 'no correlated uncertainties')


@harness(params=[1, 2, 3], assumptions=['numpy.genfromtxt by its contract; the replay gives it the numbers', 'arithmetic over the reals'], bounds='1, 2 or 3 rows of any day, place and temperature, places the same or not')
def lakes(S, n):
    """Readings of lakes: one observation for each row with its own day, place and temperature in kelvin; each place once in the table of places."""
    import numpy
    m, np = S.module(LAKE), S.np
    col = {'DateTime': [S.int('day%d' % k, 0, 70000) for k in range(n)], 'lat': [S.real('lat%d' % k, -90, 90) for k in range(n)],
           'lon': [S.real('lon%d' % k, -180, 180) for k in range(n)], 'fTa': [S.real('air%d' % k, -50, 50) for k in range(n)]}
    S.snap(1.0 / 64)

    def table(dtype, comments, delimiter, converters, usecols, names):
        S.check(names is True and list(converters) == ['DateTime'], 'columns by the titles in the file')
        if S.symbolic:
            return records([(k, v) for k, v in col.items()], n, 'f8')
        r = numpy.array(list(zip(*[col[k] for k in col])), dtype=[(k, numpy.float32) for k in col])
        return r if n > 1 else r[0:1].reshape(())
    keep = m.numpy
    m.numpy = Numpy(keep, table)
    try:
        src = m.ObservationSourceLakeReading('a file')
        o = src.observations('Tmean')
    finally:
        m.numpy = keep
    S.eq(src.number_of_observations(), n, 'as many as rows')
    for a in (o.mask, o.time, o.location, o.measurement, o.uncorrelatederror):
        S.eq(list(S.shape(a)), [n], 'one for each row')
    p = src.observation_location_lookup()
    places = int(S.shape(p)[1])
    for k in range(n):
        S.check(S.not_(o.mask[k]), 'all are valid')
        S.eq(o.time[k], col['DateTime'][k], 'own day')
        i = int(o.location[k])
        S.close(p[0][i], col['lat'][k], 'own latitude', tol=1e-6)
        S.close(p[1][i], col['lon'][k], 'own longitude', tol=1e-6)
        S.close(o.measurement[k], col['fTa'][k] + 273.15, 'kelvin', tol=1e-3)
        S.close(o.uncorrelatederror[k], 5.0, 'uncertainty of 5 K', tol=1e-6)
    for i in range(places):
        for j in range(i):
            S.check(S.or_(p[0][i] != p[0][j], p[1][i] != p[1][j]), 'each place once')


class Made(object):
    """Stands for readers and writers; notes what they are given."""

    def __init__(self, S, table, here, observations):
        log = self.log = []
        me = self

        class Source(object):
            def __init__(self, *a, **k):
                log.append(('source', a, k))

            def observations(self, *a, **k):
                log.append(('observations', a, k))
                return observations

            def observation_location_lookup(self):
                return here

            def local_correlation_length_scale(self, *a):
                log.append(('ranges', a, {}))
                return 'the ranges'
        self.Source = Source

        class Reader(object):
            def read(self, path):
                log.append(('lookup', path))
                r = type('Lookup', (object,), {})()
                r.uuid, r.lookuptable = 'the id', table
                return r
        self.Reader = Reader

        class Writer(object):
            def write_day(self, *a):
                log.append(('day', a))

            def write(self, *a):
                log.append(('table', a))
        self.Writer = Writer

    def of(self, what):
        return [x[1:] for x in self.log if x[0] == what]


class Where(object):
    def __init__(self, location):
        self.location = location


@harness(params=['insitu_land', 'surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice'],
         bounds='3 places of any reference and own latitude and longitude, observations of 2 of them; any day; with and without a hold-out list, quality control and altitude adjustment')
def prepare_day(S, kind):
    """Preparing a day writes the observations of the source for that day under the id of the table of places, unless their places differ from the table."""
    import inspect
    m, np = S.module(FIXED), S.np
    ref = [S.real('ref%d' % k, -180, 180) for k in range(6)]
    own = [S.real('own%d' % k, -180, 180) for k in range(6)]
    obs = Where(np.array([2, 0]))
    made = Made(S, np.array(ref).reshape(2, 3), np.array(own).reshape(2, 3), obs)
    t = S.datetime('day', lo=(1850, 1, 1), hi=(2024, 12, 31))
    real = m.SOURCECLASS[kind]
    keep = (m.SOURCECLASS, m.LocationLookupRawBinaryReader, m.ObservationRawBinaryWriter)
    m.SOURCECLASS = dict(m.SOURCECLASS, **{kind: made.Source})
    m.LocationLookupRawBinaryReader, m.ObservationRawBinaryWriter = made.Reader, made.Writer
    given = {}
    if kind == 'insitu_land':
        if S.fork_bool('held out'):
            given['hold_out_list'] = '/hold/out'
        if S.fork_bool('quality control'):
            given['qc_mask'] = True
        if S.fork_bool('adjusted'):
            given['altitude_adjustment'] = 'the adjustment'
    try:
        r = S.attempt(m.run_day, '/out', '/places', '/in', t, kind, 'Tmax', **given)
    finally:
        m.SOURCECLASS, m.LocationLookupRawBinaryReader, m.ObservationRawBinaryWriter = keep
    used = [0, 2, 3, 5]
    differ = S.or_(*[S.or_(ref[k] - own[k] > 0.00011, own[k] - ref[k] > 0.00011) for k in used])
    same = S.and_(*[S.and_(ref[k] - own[k] < 0.00009, own[k] - ref[k] < 0.00009) for k in used])
    if r.raised:
        S.check(isinstance(r.error, ValueError), 'a difference is said')
        S.check(S.not_(same), 'the same places are accepted')
        S.check(not made.of('day'), 'nothing is written')
        return
    S.check(S.not_(differ), 'other places are refused')
    days = (t - S.date_of(1850, 1, 1)).days
    (args, kw), = made.of('source')
    got = inspect.signature(real.__init__).bind(None, *args, **kw).arguments
    if kind == 'insitu_land':
        S.check(got['filename'] == '/in', 'the file given')
        S.eq(got['daynumber'], days, 'the day given')
        S.check(got.get('hold_out_filename') == given.get('hold_out_list'), 'the stations held out')
        S.check(got.get('altitude_adjustment') == given.get('altitude_adjustment'), 'the altitude adjustment')
        (args, kw), = made.of('observations')
        asked = inspect.signature(real.observations).bind(None, *args, **kw).arguments
        S.check(asked['observable'] == 'Tmax' and bool(asked['qc_mask']) == ('qc_mask' in given), 'the quantity, with quality control if asked')
    else:
        S.check(got['filename'] == '/in' and list(got['observables']) == ['Tmax'], 'the quantity of the file given')
        S.check(made.of('observations') == [(('Tmax',), {})], 'the quantity')
    S.check(made.of('lookup') == [('/places',)], 'the table of places given')
    (w,), = made.of('day')
    S.check(w[0] == '/out' and w[1] == 'the id' and w[2] is obs, 'the observations under the id of the table')
    S.eq(w[3], days, 'for the day')


@harness(bounds='any second of any day')
def prepare_ships(S):
    """A day of ships is written with a table of its own places, of the same id, and each day has another id."""
    m, np = S.module(MOBILE), S.np
    here = np.array([[S.real('lat', -90, 90)], [S.real('lon', -180, 180)]])
    obs = Where(np.array([0]))
    made = Made(S, None, here, obs)
    t = S.datetime('day', lo=(1850, 1, 1), hi=(2024, 12, 31))
    keep = (m.SOURCECLASS, m.LocationLookupRawBinaryWriter, m.ObservationRawBinaryWriter)
    m.SOURCECLASS = dict(m.SOURCECLASS, insitu_ocean=made.Source)
    m.LocationLookupRawBinaryWriter = m.ObservationRawBinaryWriter = made.Writer
    try:
        m.run_day('/obs1', '/places1', '/in1', t, 'insitu_ocean', 'Tmean')
        m.run_day('/obs2', '/places2', '/in2', t, 'insitu_ocean', 'Tmean')
    finally:
        m.SOURCECLASS, m.LocationLookupRawBinaryWriter, m.ObservationRawBinaryWriter = keep
    S.check([a for a, _ in made.of('source')] == [('/in1',), ('/in2',)], 'the files given')
    S.check([a for a, _ in made.of('observations')] == [('Tmean',), ('Tmean',)], 'the quantity')
    days, tables = [a for a, in made.of('day')], [a for a, in made.of('table')]
    S.check([a[0] for a in days] == ['/obs1', '/obs2'] and [a[0] for a in tables] == ['/places1', '/places2'], 'the files wanted')
    for a, b in zip(days, tables):
        S.check(a[1] == b[1].uuid and isinstance(a[1], uuid.UUID) and a[2] is obs, 'observations and places of the same id')
        S.eq(a[3], (t - S.date_of(1850, 1, 1)).days, 'for the day')
        S.eq(S.flat(b[1].lookuptable), S.flat(here), 'places of the day')
    S.check(days[0][1] != days[1][1], 'each day its own id')


@harness(params=['insitu_land', 'surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice'], bounds='the kinds of sources that there are')
def prepare_tables(S, kind):
    """The table of places and the correlation ranges written are those of the source."""
    import inspect
    m, r, fixed, mobile, np = S.module(LOOKUP), S.module(RANGES), S.module(FIXED), S.module(MOBILE), S.np
    here = np.array([[S.real('lat%d' % k, -90, 90) for k in range(2)], [S.real('lon%d' % k, -180, 180) for k in range(2)]])
    made = Made(S, None, here, None)
    real = fixed.SOURCECLASS[kind]
    keep = (fixed.SOURCECLASS, m.LocationLookupRawBinaryWriter, r.LocalCorrelationRangeRawBinaryWriter)
    fixed.SOURCECLASS = dict(fixed.SOURCECLASS, **{kind: made.Source})
    m.LocationLookupRawBinaryWriter = r.LocalCorrelationRangeRawBinaryWriter = made.Writer
    try:
        m.run('/places1', '/in1', kind)
        m.run('/places2', '/in2', kind)
        r.run('/ranges', '/in3', kind, 'Tmax')
    finally:
        fixed.SOURCECLASS, m.LocationLookupRawBinaryWriter, r.LocalCorrelationRangeRawBinaryWriter = keep
    got = [inspect.signature(real.__init__).bind(None, *a, **k).arguments for a, k in made.of('source')]
    S.check([g['filename'] for g in got] == ['/in1', '/in2', '/in3'], 'the files given')
    if kind != 'insitu_land':
        S.check(list(got[2]['observables']) == ['Tmax'], 'the quantity')
    S.check(made.of('ranges') == [(('Tmax',), {})], 'ranges of the quantity')
    one, two, three = [a for a, in made.of('table')]
    S.check(one[0] == '/places1' and two[0] == '/places2' and tuple(three) == ('/ranges', 'the ranges'), 'the files wanted')
    S.check(isinstance(one[1].uuid, uuid.UUID) and one[1].uuid != two[1].uuid, 'each table its own id')
    S.eq(S.flat(one[1].lookuptable), S.flat(here), 'places of the source')
