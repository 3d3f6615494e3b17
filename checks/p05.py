"""P05: catalogues and their parts survive saving and loading."""
from vf.api import harness

DATASET = 'eumopps.catalogue.dataset'
CAT = 'eumopps.catalogue.catalogue'
STORAGE = 'eumopps.catalogue.storage'
FORMAT = 'eumopps.catalogue.fileio.formatnetcdf'
PARAM = 'eumopps.catalogue.operationparameters'
OPER = 'eumopps.catalogue.operation'
STEP = 'eumopps.catalogue.step'
REF = 'eumopps.catalogue.datareference'
JSON = 'eumopps.jsonobjects.jsonobjects'


def nc():
    from vf import fakenc
    return fakenc.modules()


NCSTUB = ('netCDF4 is replaced by a stand-in in memory; the replay uses netCDF4 itself',)


@harness(bounds='up to 4 references, each of any numbers')
def references(S):
    """References to files survive conversion to plain numbers and back, in order."""
    m = S.module(REF)
    n = S.choice('n', [0, 1, 2, 3, 4])
    refs = [m.DataReference(S.int('d%d' % k, 0, 10**6), S.int('s%d' % k, 0, 10**6), S.int('e%d' % k, -1, 10**6)) for k in range(n)]
    back = m.reference_integers_to_list(m.reference_list_to_integers(refs))
    S.eq(len(back), n, 'as many references')
    for a, b in zip(refs, back):
        S.eq([a.dataset, a.subset, a.entry], [b.dataset, b.subset, b.entry], 'same reference')


def optional(S, name, make):
    return make(name) if S.fork_bool(name + '?') else None


@harness(dates=True, overrides=nc, assumptions=NCSTUB, bounds='2 datasets, one with a subset of 3 files; time and size of every file known or not, any second 1850..2030, any size up to 2^40')
def file_entries(S):
    """Every file of a saved and reloaded catalogue has its own name, time, size and checksum; unknown ones stay unknown."""
    d, cat = S.module(DATASET), S.module(CAT)
    store = S.module(STORAGE).DataStorageFiles
    times = [optional(S, 't%d' % k, lambda q: S.datetime(q, hi=(2030, 12, 31))) for k in range(3)]
    sizes = [optional(S, 'z%d' % k, lambda q: S.int(q, 0, 2**40)) for k in range(3)]
    sums, names = S.choice('texts', [(['x', 'yy', None], ['a.nc', 'b/longer.nc', 'c']), ([None, 'y', 'zzz'], ['long', 'b', 'cc']), (['zzz', None, 'y'], ['a', 'bb', 'ccc'])])
    tags = [['tag'], ['t'], ['tags']] if names[0] == 'a' else [['AB', 'x'], ['C', 'longer'], ['D', 'yy']]
    matches = [d.CatalogueFileEntry(names[k], times[k], tags[k], sums[k], sizes[k]) for k in range(3)]
    sets = [d.CatalogueDataSet('first', '/p1', ['v1', 'v2'], [d.CatalogueDataSubset(store(['%Y/'])), d.CatalogueDataSubset(store(['%Y/', 'n']), matches)], ['left.txt']),
            d.CatalogueDataSet('second', '/p2', ['v3'], [d.CatalogueDataSubset(store(['z']))])]
    c = cat.Catalogue(sets)
    ident = c.identifier
    path = S.file('c.nc')
    f = S.module(FORMAT)
    f.CatalogueWriterNetCDF().save(path, c)
    r = f.CatalogueReaderNetCDF().load(path)
    S.eq(r.identifier, ident, 'identifier')
    S.eq(f.CatalogueReaderNetCDF().load_identifier(path), ident, 'identifier alone')
    S.eq([x.name for x in r.datasets], ['first', 'second'], 'datasets')
    S.eq([x.path for x in r.datasets], ['/p1', '/p2'], 'paths')
    S.check([list(x.toolchain) for x in r.datasets] == [['v1', 'v2'], ['v3']], 'toolchains')
    S.eq(list(r.datasets[0].non_matching), ['left.txt'], 'files that match nothing')
    S.check([[list(y.layout.patterns) for y in x.subsets] for x in r.datasets] == [[['%Y/'], ['%Y/', 'n']], [['z']]], 'patterns')
    S.check([[len(y.matches) for y in x.subsets] for x in r.datasets] == [[0, 3], [0]], 'number of files')
    for k, e in enumerate(r.datasets[0].subsets[1].matches):
        S.check(isinstance(e, d.CatalogueFileEntry), 'an entry of a file')
        S.eq(e.name, names[k], 'name of a file')
        S.check((e.time is None) == (times[k] is None), 'time known or not')
        if times[k] is not None:
            S.check(e.time == times[k], 'time of a file')
        S.eq(e.size, sizes[k], 'size of a file')
        S.eq(e.checksum or None, sums[k], 'checksum of a file')
        S.eq(list(e.tags), tags[k], 'tags of a file')


@harness(overrides=nc, assumptions=NCSTUB, bounds='12 datasets of 1 to 3 subsets and 11 operations; every one of the files, any size')
def many(S):
    """Order and contents survive for more than ten datasets and operations too."""
    d, oper, f = S.module(DATASET), S.module(OPER), S.module(FORMAT)
    store = S.module(STORAGE).DataStorageFiles
    size = [S.int('size%d' % k, 0, 2**40) for k in range(12)]
    subset = lambda k, j: d.CatalogueDataSubset(store(['p%d_%d' % (k, j)]), [d.CatalogueFileEntry('f%d_%d_%d' % (k, j, i), None, None, None, size[k]) for i in range(1 + (k + j) % 2)])
    sets = [d.CatalogueDataSet('set%d' % k, '/p%d' % k, None, [subset(k, j) for j in range(1 + k % 3)]) for k in range(12)]
    ops = [oper.Operation({'python_function': 'm.f%d' % k}, S.module(STEP).StepOnce(), name='op%d' % k, toolchain=['v%d' % k], count=k + 1) for k in range(11)]
    path = S.file('c.nc')
    f.CatalogueWriterNetCDF().save(path, S.module(CAT).Catalogue(sets, None, ops))
    r = f.CatalogueReaderNetCDF().load(path)
    S.eq([x.name for x in r.datasets], ['set%d' % k for k in range(12)], 'datasets in order')
    S.eq([x.name for x in r.operations], ['op%d' % k for k in range(11)], 'operations in order')
    S.eq([int(x.count) for x in r.operations], [k + 1 for k in range(11)], 'counts of operations')
    S.eq([len(x.subsets) for x in r.datasets], [1 + k % 3 for k in range(12)], 'subsets')
    for k, x in enumerate(r.datasets):
        for j, y in enumerate(x.subsets):
            S.eq([e.name for e in y.matches], ['f%d_%d_%d' % (k, j, i) for i in range(1 + (k + j) % 2)], 'files of a subset in order')
            for e in y.matches:
                S.eq(e.size, size[k], 'size of a file')
    ref = S.module(REF).DataReference
    k = S.choice('k', range(12))
    j = S.choice('j', range(1 + k % 3))
    got = f.CatalogueReaderNetCDF().load_data_pathnames(path, [ref(k, j, (k + j) % 2), ref(0, 0, 0), ref(k, j, -1)])
    S.eq(list(got), ['/p%d/f%d_%d_%d' % (k, k, j, (k + j) % 2), '/p0/f0_0_0', None], 'path names')


@harness(dates=True, overrides=nc, assumptions=NCSTUB, bounds='2 operations of 2 or 3 steps with file references (0..2 files of each step), numbers and times; any numbers')
def operations(S):
    """Every operation of a saved and reloaded catalogue has its own per-step references, numbers and times."""
    par, oper = S.module(PARAM), S.module(OPER)
    lens = [S.choice('len%d' % k, [0, 3, 6]) for k in range(3)]
    S.assume(any(lens))
    refs = [[S.int('r%d_%d' % (k, j), -1, 10**6) for j in range(n)] for k, n in enumerate(lens)]
    ints = [S.int('i%d' % k, -10**9, 10**9) for k in range(3)]
    times = [S.datetime('t%d' % k, hi=(2030, 12, 31)) for k in range(3)]
    scale, flag = S.int('scale', 0, 1000), S.int('flag', 0, 1)
    start = S.datetime('start', hi=(2030, 12, 31))
    one = oper.Operation({'python_function': 'a.b', 'inputs': par.OperationFileListReference(refs), 'index': par.OperationParameterList(ints),
                          'time': par.OperationParameterList(times), 'scale': scale}, S.module(STEP).StepDaily(start, start), name='one', toolchain=['v'], count=3)
    two = oper.Operation({'python_function': 'c.d', 'flag': flag, 'stamp': par.OperationTimeStamp(), 'text': 'some text'}, S.module(STEP).StepOnce(), name='two', toolchain=['v', 'w'], count=1)
    f = S.module(FORMAT)
    path = S.file('c.nc')
    f.CatalogueWriterNetCDF().save(path, S.module(CAT).Catalogue([], None, [one, two]))
    r = f.CatalogueReaderNetCDF().load(path)
    S.eq([x.name for x in r.operations], ['one', 'two'], 'operations in order')
    S.eq([x.count for x in r.operations], [3, 1], 'counts')
    a, b = [x.runmodule for x in r.operations]
    S.eq(a['python_function'], 'a.b', 'function')
    S.eq(len(a['inputs'].operation_parameters), 3, 'one list of references per step')
    for x, y in zip(a['inputs'].operation_parameters, refs):
        S.eq(list(x), y, 'references of a step')
    S.eq(list(a['index'].operation_parameters), ints, 'numbers of the steps')
    for x, y in zip(a['time'].operation_parameters, times):
        S.check(x == y, 'times of the steps')
    S.eq(a['scale'], scale, 'plain number')
    S.check(r.operations[0].step.start == start, 'start of the schedule')
    S.eq(b['flag'], flag, 'plain number')
    S.eq(b['text'], 'some text', 'plain text')
    S.check(isinstance(b['stamp'], par.OperationTimeStamp), 'kind of parameter')
    S.check(isinstance(a['inputs'], par.OperationFileListReference) and isinstance(r.operations[1].step, S.module(STEP).StepOnce), 'kind of parameter')
    again = f.CatalogueReaderNetCDF().load_operation(path, 'one')
    S.eq(list(again.runmodule['index'].operation_parameters), ints, 'an operation loaded alone')
    for n, name in ((3, 'one'), (1, 'two'), (0, 'three')):
        S.eq(f.CatalogueReaderNetCDF().operationcount(path, name), n, 'count of an operation')
    for name, n in (('a.b', 3), ('c.d', 1), ('a', 0), ('b', 0)):
        S.eq(f.CatalogueReaderNetCDF().operationcount(path, name), n, 'an operation is found by its function')


@harness(overrides=nc, assumptions=NCSTUB, bounds='2 operations of 1 to 9 steps, each known by name and function; names may coincide; batches of 1 to 4')
def operations_by_name(S):
    """Operations are found by name or function, and refused where a name stands for more than one."""
    oper, f = S.module(OPER), S.module(FORMAT)
    module = [S.choice('module%d' % k, ['p.one', 'p.two']) for k in range(2)]
    name = [S.choice('name%d' % k, ['first', 'second'][k:] + ['p.two']) for k in range(2)]
    count = [S.int('count%d' % k, 1, 9) for k in range(2)]
    path = S.file('c.nc')
    ops = [oper.Operation({'python_function': module[k]}, S.module(STEP).StepOnce(), name=name[k], toolchain=['v'], count=count[k]) for k in range(2)]
    f.CatalogueWriterNetCDF().save(path, S.module(CAT).Catalogue([], None, ops))
    asked = S.choice('asked', ['first', 'second', 'p.one', 'p.two', 'p'])
    size = S.choice('size', [1, 2, 4])
    found = [k for k in range(2) for x in (module[k], name[k]) if x == asked]
    got = S.attempt(f.CatalogueReaderNetCDF().operationcount, path, asked, size)
    S.eq(got.raised, len(found) > 1, 'refused exactly if the name is ambiguous')
    if not got.raised:
        n = count[found[0]] if found else 0
        S.check(S.and_(got.value * size >= n, (got.value - 1) * size < n) if found else got.value == 0, 'batches cover the steps of the operation found')


def js():
    """json by its contract: dump turns what it cannot write into what default gives, load calls object_hook on every object, innermost first."""
    import types
    m = types.ModuleType('json')

    def plain(x, default):
        if isinstance(x, dict):
            return {str(k): plain(v, default) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [plain(v, default) for v in x]
        from vf.core import Sym
        if x is None or isinstance(x, (str, int, float, Sym)):
            return x
        return plain(default(x), default)

    def hooked(x, hook):
        if isinstance(x, dict):
            return hook({k: hooked(v, hook) for k, v in x.items()})
        if isinstance(x, list):
            return [hooked(v, hook) for v in x]
        return x

    m.dump = lambda obj, fp, default=None, **k: setattr(fp, 'tree', plain(obj, default))
    m.load = lambda fp, object_hook=None, **k: hooked(fp.tree, object_hook)
    return {'json': m}


def stream(S):
    import io

    class Stream(io.StringIO):
        pass
    return Stream()


@harness(dates=True, overrides=js, bounds='nested objects, lists and dictionaries with any numbers, zero included, truth values and times at whole seconds 1850..2030',
         assumptions=('json is replaced by its contract; the replay uses json itself',))
def json_round_trip(S):
    """Objects described in JSON survive saving and loading: every value, zero, false and empty ones included."""
    d, m, place = S.module(DATASET), S.module(JSON), S.module('eumopps.catalogue.placeholder')
    n = S.int('n', 0, 10**9)
    x = S.real('x', -1000, 1000)
    sub = S.int('sub', 0, 3)
    t = S.datetime('t', hi=(2030, 12, 31)) if S.fork_bool('dated') else None
    flag = S.fork_bool('flag')
    tags = S.choice('tags', [[], ['a'], ['a', 'b']])
    entry = d.CatalogueFileEntry('name', None, tags, '', n)
    tree = {'in': place.InputFile('set', sub, 'skip'), 'entries': [entry, d.CatalogueFileEntry('other')], 'value': {'x': x, 'flag': flag, 't': t}, 'none': None,
            'sub': d.CatalogueDataSubset(layout=S.module(STORAGE).DataStorageFiles(['%Y', 'x']), matches=[entry])}
    f = stream(S)
    m.save(f, tree)
    f.seek(0)
    r = m.load(f)
    S.eq([r['in'].datasetname, r['in'].missing_data], ['set', 'skip'], 'texts')
    S.eq(r['in'].subsetindex, sub, 'numbers')
    for e in (r['entries'][0], r['sub'].matches[0]):
        S.eq(e.size, n, 'numbers')
        S.eq([e.name, e.time, e.checksum], ['name', None, ''], 'texts')
        S.eq(list(e.tags), tags, 'lists')
    S.check(r['entries'][1].name == 'other' and r['entries'][1].size is None, 'missing values')
    S.close(r['value']['x'], x, 'numbers')
    S.check(r['value']['flag'] is flag and r['none'] is None, 'truth values and nothing')
    S.check((r['value']['t'] is None) if t is None else r['value']['t'] == t, 'times')
    S.eq(list(r['sub'].layout.patterns), ['%Y', 'x'], 'lists of texts')


@harness(dates=True, bounds='every second 1850..2030')
def numeric_text_of_time(S):
    """The numeric text of a time has the digits of its fields."""
    m = S.module('eumopps.timeutils.datetime_numeric')
    y, mo, d, h, mi, s = S.int('y', 1850, 2030), S.int('m', 1, 12), S.int('d', 1, 28), S.int('h', 0, 23), S.int('mi', 0, 59), S.int('s', 0, 59)
    text = m.build(S.date_of(y, mo, d, h, mi, s))
    S.eq(len(text), 14, 'fourteen digits')
    pat = m.build_from_pattern(S.text('%Y%m%d%H%M%S'), S.date_of(y, mo, d, h, mi, s))
    S.check(text == pat, 'the same digits as the patterns give')
    k, v, n = S.choice('field', [((0, 4), y, 4), ((4, 6), mo, 2), ((6, 8), d, 2), ((8, 10), h, 2), ((10, 12), mi, 2), ((12, 14), s, 2)])
    want = S.int('want', 0, 9999)
    S.assume(want == v)
    digit = S.choice('digit', range(4))
    if digit < n:
        c = S.choice('c', range(10))
        got = text[k[0]:k[1]][digit]
        S.check(S.implies((v // 10 ** (n - 1 - digit)) % 10 == c, got == str(c)), 'digits of the field')
