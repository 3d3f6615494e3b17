"""P26: merging the day's products of several satellites into one."""
import os as real_os

from vf.api import harness

MERGER = 'eustace.outputformats.filesmerger'
DAY = 'eustace.outputformats.merge_multiple_outputs'
REAL = ('floating point numbers are real numbers',)
FILL = -32768.0


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


class Cells(object):
    """A field of one day with a row of cells: symbolic values, some missing (decided by forking)."""

    def __init__(self, S, name, n, lo, hi, missing=True):
        self.S, self.n = S, n
        self.values = [S.real('%s%d' % (name, k), lo, hi) for k in range(n)]
        self.gone = [bool(S.fork_bool('%s%d_missing' % (name, k))) if missing else False for k in range(n)]

    def read(self):
        """A fresh masked array, as reading the file gives; without missing cells the mask is one False."""
        np = self.S.np
        data = np.array([[[FILL if g else v for v, g in zip(self.values, self.gone)]]])
        mask = np.array([[self.gone]]) if any(self.gone) else False
        return np.ma.MaskedArray(data, mask=mask, fill_value=FILL)


class Variable(object):
    def __init__(self, read):
        self.read = read

    def __getitem__(self, index):
        return self.read() if index is Ellipsis else self.read()[index]


class Handle(object):
    """An open file."""

    def __init__(self, path, fields):
        self.path, self.attributes, self.open = path, {}, True
        self.variables = {k: Variable(f.read if isinstance(f, Cells) else f) for k, f in fields.items()}

    def filepath(self):
        return self.path

    def setncattr(self, name, value):
        self.attributes[name] = value

    def close(self):
        self.open = False


def name_of(source, part='0', folder='/out'):
    """A name by the convention of the products: the source is its fifth field."""
    return '%s/tas_ocean_eustace_%s_%s_20100203.nc' % (folder, part, source)


def field(S, name):
    V = S.module('eustace.outputformats.outputvariable')
    return V.OutputVariable(name, S.np.float32, FILL, units='K', long_name='The ' + name)


def merged(S, got, want, label, root=None):
    """want: list of expected values, None for missing; root: numbers n such that n times the value is the root of what is wanted."""
    values = S.flat(got)
    S.eq(len(values), len(want), label + ': size')
    for k, (x, y) in enumerate(zip(values, want)):
        S.eq(x is None, y is None, label + ': missing exactly where no source has a value')
        if y is not None and root:
            S.check(x >= 0, label + ': not negative')
            S.close(x * x * (root[k] * root[k]), y, label, tol=1e-6)
        elif y is not None:
            S.close(x, y, label, tol=1e-6)


def mean(S, fields, k):
    have = [f.values[k] for f in fields if not f.gone[k]]
    return S.sum(have) / len(have) if have else None


def spread(S, fields, k, r):
    """Variance of the sum of the sources that have a value."""
    have = [i for i, f in enumerate(fields) if not f.gone[k]]
    if not have:
        return None
    total = S.sum([fields[i].values[k] * fields[i].values[k] for i in have])
    for (i, j), c in zip(pairs(len(fields)), r):
        if i in have and j in have:
            total = total + 2.0 * c * fields[i].values[k] * fields[j].values[k]
    return total


def propagated(S, got, fields, r, label):
    cells = range(fields[0].n)
    merged(S, got, [spread(S, fields, k, r) for k in cells], label, [sum(not f.gone[k] for f in fields) for k in cells])


@harness(bounds='2 or 3 sources, 1 or 2 cells, every combination of missing cells, values in [200, 330]', params=[(2, 2), (3, 1), (3, 2)], assumptions=REAL)
def merged_field_is_mean_of_sources(S, sources, cells):
    """A merged cell is the mean over exactly the sources that have a value there, and missing where none has."""
    M = S.module(MERGER)
    f = [Cells(S, 'f%d_' % i, cells, 200, 330) for i in range(sources)]
    g = [Cells(S, 'g%d_' % i, cells, 200, 330, missing=False) for i in range(sources)]
    handles = [Handle(name_of('SAT%d' % i), {'tas': f[i], 'tasmin': g[i]}) for i in range(sources)]
    results = {}
    M.FilesMerger.compute_mean_fields(['tas', 'tasmin'], handles, results)
    S.eq(sorted(results), ['tas', 'tasmin'], 'one merged field per name')
    merged(S, results['tas'], [mean(S, f, k) for k in range(cells)], 'mean')
    merged(S, results['tasmin'], [mean(S, g, k) for k in range(cells)], 'mean of complete fields')
    S.cover(f[0].gone[0] and not f[1].gone[0], 'a source misses a cell another has')


@harness(bounds='2 or 3 sources, 1 or 2 cells, every combination of missing cells, uncertainties in [0, 20], correlations in [0, 1]',
         params=[(2, 2), (3, 1)], assumptions=REAL)
def merged_uncertainty_is_propagated(S, sources, cells):
    """The uncertainty of a merged cell is that of the mean of the sources which have a value there, correlated by the index of each pair."""
    M = S.module(MERGER)
    f = [Cells(S, 'f%d_' % i, cells, 0, 20) for i in range(sources)]
    n = len(pairs(sources))
    g = [Cells(S, 'g%d_' % i, 1, 0, 20, missing=False) for i in range(sources)]
    r = [[S.real('r%d_%d' % (a, k), 0, 1) for k in range(n)] for a in range(2)]
    given = [list(x) for x in r]
    handles = [Handle(name_of('SAT%d' % i), {'a': f[i], 'b': g[i]}) for i in range(sources)]
    results = {}
    M.FilesMerger.compute_propagated_uncertainties(['a', 'b'], handles, given, results)
    propagated(S, results['a'], f, r[0], 'uncertainty')
    propagated(S, results['b'], g, r[1], 'uncertainty of complete fields by its own correlations')
    S.check(given == r or all(x is y for a, b in zip(given, r) for x, y in zip(a, b)), 'correlation indices are left as given')


@harness(bounds='3 sources, 2 cells, every combination of missing cells, uncertainties in [0, 20], correlations in [0, 1]', assumptions=REAL, tier='thorough')
def merged_uncertainty_of_more_cells(S):
    """As merged_uncertainty_is_propagated."""
    merged_uncertainty_is_propagated(S, 3, 2)


@harness(bounds='2 to 4 files, up to 7 correlation indices')
def wrong_number_of_correlations_is_refused(S):
    """A count of correlation indices other than one per pair of files is refused."""
    M = S.module(MERGER)
    for files in (2, 3, 4):
        count = S.choice('count%d' % files, list(range(8)))
        got = S.attempt(M.FilesMerger.build_triangular_correlation_matrix, files, [0.5] * count)
        S.eq(got.raised, count != len(pairs(files)), 'refused exactly if not one per pair')
        if got.raised:
            S.check(isinstance(got.error, ValueError), 'an ordinary refusal')


class Disk(object):
    """Stands for the os module of the code: a set of files, and a record of what is done to them."""

    def __init__(self, files):
        self.files, self.log = set(files), []
        disk = self

        class path(object):
            isfile = staticmethod(lambda p: p in disk.files)
            exists = staticmethod(lambda p: p in disk.files)
            basename, join, dirname, splitext, split = (staticmethod(getattr(real_os.path, k)) for k in ('basename', 'join', 'dirname', 'splitext', 'split'))
        self.path = path

    def remove(self, p):
        self.log.append(('remove', p))
        self.files.remove(p)

    unlink = remove

    def rename(self, p, q):
        self.log.append(('rename', p, q))
        self.files.remove(p)
        self.files.add(q)


class World(object):
    """The module of the code with stand-ins for disk, netCDF4 and the writer of products."""

    def __init__(self, S, contents, extra=()):
        self.S, self.contents, self.handles, self.modes = S, contents, [], []
        self.disk = Disk(list(contents) + list(extra))
        self.written, self.attributes, self.ancillary = {}, [], []
        M = self.M = S.module(MERGER)
        world = self

        class netCDF4(object):
            @staticmethod
            def Dataset(path, mode='r', *a, **k):
                if path not in world.disk.files:
                    raise IOError('No such file: ' + str(path))
                world.handles.append(Handle(path, world.contents.get(path, {})))
                world.modes.append(mode)
                return world.handles[-1]

        class Attributes(object):
            def __init__(self, modulename, institution, catalogue_id):
                self.given = (modulename, institution, catalogue_id)
                self.comment = None
                world.attributes.append(self)

        class Writer(object):
            def __init__(self, attributes, ancillary):
                self.attributes = attributes
                world.ancillary.append(ancillary)

            def write_primary(self, path, results):
                self._write('primary', path, results)

            def write_ancillary(self, path, results):
                self._write('ancillary', path, results)

            def _write(self, kind, path, results):
                world.disk.log.append(('write', path))
                world.disk.files.add(path)
                world.written[path] = (kind, dict(results), self.attributes)
        self.saved = {k: getattr(M, k) for k in ('netCDF4', 'os', 'ConsistentModelOutputNetCDF', 'DatasetAttributesConsistentModelOutput')}
        M.netCDF4, M.os, M.ConsistentModelOutputNetCDF, M.DatasetAttributesConsistentModelOutput = netCDF4, self.disk, Writer, Attributes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.M, k, v)


def merger(S, M, mains, ancillaries, days, r):
    f = lambda names: [field(S, k) for k in names]
    return M.FilesMerger(mains, ancillaries, S.np.array(days, dtype=S.np.int64), f(['tas']), f(['tasuncertainty']), f(['rnd', 'sys']), r)


@harness(bounds='4 sources, each with both, one or none of its files (or without a name), 2 ancillary fields')
def missing_sources_are_left_out(S):
    """Sources without files are left out together with the correlations of their pairs, those of the rest are kept in order; a source with one of its two files is refused."""
    M = S.module(MERGER)
    state = [S.choice('source%d' % i, ['both', 'none', 'unnamed', 'main', 'ancillary'][:5 if i < 2 else 3]) for i in range(4)]
    mains = [None if s == 'unnamed' else name_of('SAT%d' % i, '0') for i, s in enumerate(state)]
    ancillaries = [None if s == 'unnamed' else name_of('SAT%d' % i, 'anc') for i, s in enumerate(state)]
    there = [p for p, s in zip(mains, state) if s in ('both', 'main')] + [p for p, s in zip(ancillaries, state) if s in ('both', 'ancillary')]
    r = [[10.0 * i + j + 100.0 * a for i, j in pairs(4)] for a in range(2)]
    count = S.np.zeros([1], dtype=S.np.int64)
    keep = [i for i, s in enumerate(state) if s == 'both']
    want = [name_of('SAT%d' % i, '0') for i in keep], [name_of('SAT%d' % i, 'anc') for i in keep]
    with World(S, {}, there):
        got = S.attempt(M.clean_list_of_outputs_to_merge, mains, ancillaries, count, r)
    half = 'main' in state or 'ancillary' in state
    S.eq(got.raised, half, 'refused exactly if a source has one of its two files')
    if half:
        S.check(isinstance(got.error, ValueError), 'an ordinary refusal')
        return
    S.eq((mains, ancillaries), want, 'the files of the sources that have them, paired and in order')
    S.eq(S.flat(count), [len(keep)], 'number of sources')
    S.eq(r, [[10.0 * i + j + 100.0 * a for i, j in pairs(4) if i in keep and j in keep] for a in range(2)], 'correlations of the remaining pairs')


@harness(bounds='3 names')
def unequal_lists_are_refused(S):
    """Lists of different lengths are refused before anything is touched."""
    M = S.module(MERGER)
    n, m = S.choice('n', [0, 1, 2, 3]), S.choice('m', [0, 1, 2, 3])
    a, b = [name_of('S%d' % i) for i in range(n)], [name_of('S%d' % i, 'anc') for i in range(m)]
    r = [[float(k) for k, _ in enumerate(pairs(n))]]
    with World(S, {}, a + b):
        got = S.attempt(M.clean_list_of_outputs_to_merge, a, b, S.np.zeros([1], dtype=S.np.int64), r)
    S.eq(got.raised, n != m, 'refused exactly if the lengths differ')


@harness(bounds='4 days with 2, 1, 1 and 2 sources, or a day with 3, 3 day numbers, 1 cell; each file may be of another day', params=[1, 3], assumptions=REAL)
def days_are_merged_apart(S, second):
    """Every day is merged of its own sources only: fields, uncertainties and originals under the names of their sources, the day of the files, the comment; files of different days are refused and none is removed; inputs are removed when both outputs have been written."""
    np = S.np
    M = S.module(MERGER)
    days = [2, second, 1, 2]
    labels = [['AATSR', 'ATSR2'], ['AATSR', 'ATSR2', 'MODIS'][:second], ['MODIS'], ['ATSR2', 'MODIS']]
    r = [[0.25] * 3, [0.5] * 3]
    contents, fields, number = {}, {}, {}
    mains, ancillaries = [], []
    odd = S.choice('odd', [None, (0, 1, 'main'), (0, 0, 'anc')] + ([(1, 2, 'anc')] if second == 3 else []))
    base = [S.int('day%d' % d, 20000, 20002) for d in range(2)]
    base += [base[0] + 2, base[1] + 3]
    for d in range(4):
        for i, label in enumerate(labels[d]):
            key = '%d_%s' % (d, label)
            values = {k: Cells(S, '%s_%s' % (k, key), 1, 0 if k != 'tas' else 200, 20 if k != 'tas' else 330, missing=False) for k in ('tas', 'tasuncertainty', 'rnd', 'sys')}
            for part, names in (('0', ('tas', 'tasuncertainty')), ('anc', ('rnd', 'sys'))):
                path = name_of(label, part, '/out/%d' % d)
                shift = 1 if odd == (d, i, 'main' if part == '0' else 'anc') else 0
                t = base[d] + shift
                held = {k: values[k] for k in names}
                held['time'] = lambda t=t: np.ma.MaskedArray(np.array([t]))
                contents[path] = held
                (mains if part == '0' else ancillaries).append(path)
            fields[d, label] = values
    if odd is not None and odd[0] == 1 and second == 1:
        return
    n_of = {1: 0, 2: 1, 3: 3}
    # correlation indices are given for one number of sources, so the second day is looked at alone when it has three
    want_days = [0, 1, 2, 3] if second == 1 else ([1] if odd is None or odd[0] == 1 else [0])
    rr = [x[:n_of[2] if want_days != [1] else n_of[3]] for x in r]
    use = lambda paths: [p for p in paths if any('/out/%d/' % d in p for d in want_days)]
    with World(S, contents) as w:
        m = merger(S, M, use(mains), use(ancillaries), [days[d] for d in want_days], [list(x) for x in rr])
        got = S.attempt(m.merge_outputs_from_multiple_daily_sources, 'module', 'institution', 'catalogue')
        expected_error = odd is not None and odd[0] in want_days
        S.eq(got.raised, expected_error, 'refused exactly if files of a day are of different days')
        if expected_error:
            S.check(isinstance(got.error, ValueError), 'an ordinary refusal')
            S.eq(w.disk.files, set(contents), 'nothing is written or removed')
            return
        for d in want_days:
            out, anc = '/out/%d/tas_ocean_eustace_0_20100203.nc' % d, '/out/%d/tas_ocean_eustace_anc_20100203.nc' % d
            comment = 'input data preprocessed from ' + ', '.join(labels[d]) + ' retrievals.'
            for label in labels[d]:
                for part in ('0', 'anc'):
                    S.check(name_of(label, part, '/out/%d' % d) not in w.disk.files, 'inputs of the day are gone')
            S.check(out in w.disk.files and anc in w.disk.files, 'outputs of the day are there under the name without source')
            if len(labels[d]) == 1:
                for handle, mode in zip(w.handles, w.modes):
                    if '/out/%d/' % d in handle.path:
                        S.eq(handle.attributes.get('comment'), comment, 'comment of a day with one source')
                        S.check(mode in ('r+', 'a') and not handle.open, 'updated in place and closed')
                S.check(('rename', name_of(labels[d][0], '0', '/out/%d' % d), out) in w.disk.log, 'main renamed')
                S.check(('rename', name_of(labels[d][0], 'anc', '/out/%d' % d), anc) in w.disk.log, 'ancillary renamed')
                continue
            S.eq([w.written[p][0] for p in (out, anc)], ['primary', 'ancillary'], 'the two outputs')
            writes = [k for k, e in enumerate(w.disk.log) if e[0] == 'write' and e[1] in (out, anc)]
            removals = [k for k, e in enumerate(w.disk.log) if e[0] == 'remove' and '/out/%d/' % d in e[1]]
            S.check(len(writes) == 2 and len(removals) == 2 * len(labels[d]) and max(writes) < min(removals), 'inputs are removed after both outputs have been written')
            variables = {v.name: v for v in w.ancillary[[x for x in want_days if days[x] > 1].index(d)]}
            wanted = ['rnd', 'sys'] + ['%s_%s' % (k, l) for k in ('tas', 'tasuncertainty', 'rnd', 'sys') for l in labels[d]]
            S.eq(sorted(variables), sorted(wanted), 'ancillary variables')
            for k in ('tas', 'tasuncertainty', 'rnd', 'sys'):
                for l in labels[d]:
                    S.check(l in variables['%s_%s' % (k, l)].long_name and variables['%s_%s' % (k, l)].long_name.startswith('The ' + k), 'originals are described by field and source')
            for path in (out, anc):
                kind, results, attributes = w.written[path]
                S.eq(attributes.comment, comment, 'comment names the sources')
                S.eq(attributes.given, ('module', 'institution', 'catalogue'), 'attributes')
                S.eq(results['daynumber'], base[d], 'day number')
                own = [fields[d, l] for l in labels[d]]
                merged(S, results['tas'], [mean(S, [f['tas'] for f in own], 0)], 'mean of the day')
                zero = [0.0] * 3
                propagated(S, results['tasuncertainty'], [f['tasuncertainty'] for f in own], zero, 'uncorrelated uncertainty of the day')
                for a, k in enumerate(('rnd', 'sys')):
                    propagated(S, results[k], [f[k] for f in own], rr[a], 'ancillary uncertainty of the day')
                for k in ('tas', 'tasuncertainty', 'rnd', 'sys'):
                    for l in labels[d]:
                        merged(S, results['%s_%s' % (k, l)], fields[d, l][k].values, 'original of its source')
        S.check(all(not h.open for h in w.handles), 'files are closed')
        S.eq([p.split('/')[2] for p in m.list_of_merged_main_outputs], [str(d) for d in want_days], 'list of merged outputs')
        S.eq(len(m.list_of_merged_ancillary_outputs), len(want_days), 'list of merged ancillary outputs')
        S.eq(S.attempt(m.check_produced_output, m.list_of_merged_main_outputs + ['x'], list(m.list_of_merged_ancillary_outputs)).raised, False, 'outputs are as expected')
        S.eq(S.attempt(m.check_produced_output, ['x'], list(m.list_of_merged_ancillary_outputs)).raised, True, 'unexpected main output is refused')
        S.eq(S.attempt(m.check_produced_output, list(m.list_of_merged_main_outputs), ['x']).raised, True, 'unexpected ancillary output is refused')


@harness(bounds='2 sources with missing cells, 2 cells', assumptions=REAL)
def originals_keep_their_missing_cells(S):
    """Original fields appended to the merged product are those of the file: values and missing cells, under the name of the source."""
    M = S.module(MERGER)
    f = [Cells(S, 'f%d_' % i, 2, 200, 330) for i in range(2)]
    u = [Cells(S, 'u%d_' % i, 1, 0, 20, missing=False) for i in range(2)]
    contents = {}
    for i, label in enumerate(('AATSR', 'ATSR2')):
        contents[name_of(label)] = {'tas': f[i], 'tasuncertainty': u[i], 'time': lambda: S.np.ma.MaskedArray(S.np.array([7]))}
        contents[name_of(label, 'anc')] = {'rnd': u[i], 'sys': f[i], 'time': lambda: S.np.ma.MaskedArray(S.np.array([7]))}
    mains, ancs = [name_of(x) for x in ('AATSR', 'ATSR2')], [name_of(x, 'anc') for x in ('AATSR', 'ATSR2')]
    with World(S, contents):
        m = merger(S, M, mains, ancs, [2], [[0.0], [0.0]])
        results = m.merge_multiple_files(mains, ancs)
    for i, label in enumerate(('AATSR', 'ATSR2')):
        want = [None if g else v for v, g in zip(f[i].values, f[i].gone)]
        merged(S, results['tas_' + label], want, 'original field')
        merged(S, results['sys_' + label], want, 'original ancillary field')
        merged(S, results['tasuncertainty_' + label], u[i].values, 'original uncertainty')
    merged(S, results['tas'], [mean(S, f, k) for k in range(2)], 'mean')
    propagated(S, results['sys'], f, [0.0], 'uncertainty')


class Ranges(object):
    def __init__(self, keys):
        self.keys, self.updated = keys, []

    def update_correlated_uncertainty_ranges(self, variable):
        self.updated.append(variable.name)


@harness(bounds='1 day, 3 sources of which some are missing, correlation indices in [0, 1] to two decimals', assumptions=REAL)
def day_of_available_sources(S):
    """A day is merged of the sources that are there with the correlations of their pairs; with none nothing is done."""
    np = S.np
    M, D = S.module(MERGER), S.module(DAY)
    from eustace.outputformats import definitions as defs
    there = [i for i in range(3) if bool(S.fork_bool('there%d' % i))]
    labels = ['AATSR', 'ATSR2', 'MODIS']
    names = dict(tas='TAS', unc='TASUNCERTAINTY', anc='SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_SYSTEMATIC')
    tas, unc, anc = (getattr(defs, names[k]).name for k in ('tas', 'unc', 'anc'))
    values = [{k: Cells(S, '%s%d_' % (k, i), 1, 1, 20, missing=False) for k in names} for i in range(3)]
    contents = {}
    for i in there:
        t = lambda: np.ma.MaskedArray(np.array([60]))
        contents[name_of(labels[i])] = {tas: values[i]['tas'], unc: values[i]['unc'], 'time': t}
        contents[name_of(labels[i], 'anc')] = {anc: values[i]['anc'], 'time': t}
    mains, ancs = [name_of(l) for l in labels], [name_of(l, 'anc') for l in labels]
    r = [0.25, 0.5, 0.75]
    out = ['/out/tas_ocean_eustace_%s_20100203.nc' % p for p in ('0', 'anc')]
    ranges = Ranges([anc])
    with World(S, contents) as w:
        args = D.return_daily_outputs('catalogue', 'institution', out[0], out[1], str([r]), 'made from ', 'eustace.outputformats.definitions',
                                      [names['tas']], [names['unc']], [names['anc']], ranges, mains, ancs)
        got = S.attempt(D.merge_multiple_days_outputs, [args])
    S.eq(got.raised, False, 'the day is merged')
    S.eq(ranges.updated, [anc], 'correlation ranges of the ancillary variables')
    if not there:
        S.eq(w.disk.log, [], 'nothing to merge, nothing done')
        return
    S.eq(w.disk.files, set(out), 'the two products of the day')
    if len(there) == 1:
        S.eq([h.attributes.get('comment') for h in w.handles], ['made from %s retrievals.' % labels[there[0]]] * 2, 'comment')
        return
    own = [values[i] for i in there]
    rr = [c for (i, j), c in zip(pairs(3), r) if i in there and j in there]
    for path in out:
        kind, results, attributes = w.written[path]
        S.eq(attributes.comment, 'made from %s retrievals.' % ', '.join(labels[i] for i in there), 'comment')
        merged(S, results[tas], [mean(S, [f['tas'] for f in own], 0)], 'mean of the available sources')
        propagated(S, results[unc], [f['unc'] for f in own], [0.0] * 3, 'uncertainty')
        propagated(S, results[anc], [f['anc'] for f in own], rr, 'correlated uncertainty by the pairs that are left')
