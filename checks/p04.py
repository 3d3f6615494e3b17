"""P04: operations are given the inputs and outputs of their own step, and missing inputs are treated as configured."""
from vf.api import harness

PLACE = 'eumopps.catalogue.placeholder'
PARAM = 'eumopps.catalogue.operationparameters'
OPER = 'eumopps.catalogue.operation'
STEP = 'eumopps.catalogue.step'
DATASET = 'eumopps.catalogue.dataset'
CAT = 'eumopps.catalogue.catalogue'
STORAGE = 'eumopps.catalogue.storage'
FORMAT = 'eumopps.catalogue.fileio.formatnetcdf'
EXSTEP = 'eustace.analysis.advanced_standard.examples.step'

POLICIES = ['not_allowed', 'allowed', 'skip']
STUB = ('path names are looked up in the catalogue in memory instead of its file', 'toolchain versions are a constant')


def dataset(S, name, patterns, matches, path='/p', subset=0):
    d = S.module(DATASET)
    sub = d.CatalogueDataSubset(layout=S.module(STORAGE).DataStorageFiles(patterns), matches=matches)
    before = [d.CatalogueDataSubset(layout=S.module(STORAGE).DataStorageFiles(['another']), matches=[entry(S, 'another')]) for k in range(subset)]
    return d.CatalogueDataSet(name=name, path=path + name, subsets=before + [sub])


def entry(S, name, time=None):
    return S.module(DATASET).CatalogueFileEntry(name, time)


def trios(refs):
    return [list(refs[k:k + 3]) for k in range(0, len(refs), 3)]


@harness(dates=True, bounds='3 daily steps from any day 1850..2030; 3 input files, each at any second from 2 days before the first to 2 days after the last step; every policy')
def files_of_their_day(S):
    """With dated names, each daily step gets exactly the files of its day, in catalogue order; steps without files follow the policy."""
    n, k = 3, 3
    start = S.datetime('start', resolution='day', lo=(1850, 1, 1), hi=(2030, 12, 31))
    tb = S.module('eumopps.timeutils.timebase').TimeBaseDays(start)
    step = S.module(STEP).StepDaily(start, tb.number_to_datetime(n - 1))
    days, secs = [], []
    matches = []
    for j in range(k):
        days.append(S.int('day%d' % j, -2, n + 1))
        secs.append(S.int('sec%d' % j, 0, 86399))
        midnight = tb.number_to_datetime(days[j])
        matches.append(entry(S, 'f%d' % j, S.module('eumopps.timeutils.timebase').TimeBaseSeconds(midnight).number_to_datetime(secs[j])))
    cat = S.module(CAT).Catalogue(datasets=[dataset(S, 'other', ['x'], []), dataset(S, 'in', ['%Y%m%d%H%M%S.nc'], matches, subset=1)])
    policy = S.choice('policy', POLICIES)
    request = [False] * n
    r = S.attempt(S.module(PLACE).InputFileList('in', 1, policy).operation_input_resolve, request, cat, step)
    empty = [S.and_(*[days[j] != s for j in range(k)]) for s in range(n)]
    if r.raised:
        S.check(policy == 'not_allowed', 'only the strict policy refuses')
        S.check(isinstance(r.error, S.module(PLACE).OperationException), 'refused with the documented error')
        S.check(S.any(empty), 'refused only when a step has no input')
        return
    if policy == 'not_allowed':
        S.check(S.not_(S.any(empty)), 'the strict policy accepts only complete inputs')
    S.eq(r.value.count(), n, 'one list of inputs per step')
    for s in range(n):
        got = trios(r.value.operation_parameters[s])
        S.eq(bool(request[s]), policy == 'skip' and bool(empty[s]), 'exactly the steps without inputs are skipped, by the skipping policy only')
        if bool(empty[s]):
            S.eq([g[2] for g in got], [-1] if policy == 'allowed' else [], 'a step without input')
            continue
        want = [j for j in range(k) if bool(days[j] == s)]
        S.eq([g[2] for g in got], want, 'the files of the day of the step, in order')
        S.check(all(g[0] == 1 and g[1] == 1 for g in got), 'references lead to the dataset')


@harness(dates=True, bounds='steps of 3 years or of 3 months from January, February or December 1999; 2 input files named by day, each at any day of the steps or the periods next to them; every policy', params=['StepAnnual', 'StepMonthly'])
def files_of_their_period(S, which):
    """With dated names, each annual or monthly step gets exactly the files of its year or month."""
    n, k = 3, 2
    y0, m0 = 1999, S.choice('m', [1, 2, 12])
    first = y0 * 12 + m0 - 1
    length = 12 if which == 'StepAnnual' else 1
    last = first + (n - 1) * length
    step = getattr(S.module(EXSTEP), which)(S.date_of(y0, m0, 1), S.date_of(last // 12, last % 12 + 1, 1))
    S.eq(step.count(), n, 'steps')
    matches, own = [], []
    for j in range(k):
        mo = S.choice('month%d' % j, [-1, 0, 1, 2, 3] if length == 1 else [-1 - m0, 0, 12, 13 - m0, 24, 37 - m0])
        t = first + mo
        matches.append(entry(S, 'f%d' % j, S.date_of(t // 12, t % 12 + 1, S.int('day%d' % j, 1, 28))))
        own.append(t // 12 - y0 if length == 12 else mo)
    cat = S.module(CAT).Catalogue(datasets=[dataset(S, 'in', ['%Y%m%d.nc'], matches)])
    policy = S.choice('policy', POLICIES)
    request = [False] * n
    r = S.attempt(S.module(PLACE).InputFileList('in', 0, policy).operation_input_resolve, request, cat, step)
    empty = [S.and_(*[o != s for o in own]) for s in range(n)]
    S.check(S.implies(policy == 'not_allowed', r.raised) if bool(S.any(empty)) else not r.raised, 'refused exactly when strict and incomplete')
    if r.raised:
        return
    for s in range(n):
        want = [j for j in range(k) if bool(own[j] == s)] or ([-1] if policy == 'allowed' else [])
        S.eq([g[2] for g in trios(r.value.operation_parameters[s])], want, 'the files of the period of the step, in order')
        S.eq(bool(request[s]), policy == 'skip' and bool(empty[s]), 'steps skipped')


@harness(dates=True, bounds='3 daily steps from five days of each year 2000..2002; yearly files of 2000..2004, each present or not; every policy')
def shared_files(S):
    """With names that several steps share, each step gets the one file its name leads to."""
    n = 3
    y, (mo, d) = S.choice('y', [2000, 2001, 2002]), S.choice('md', [(1, 1), (6, 15), (12, 29), (12, 30), (12, 31)])
    start = S.date_of(y, mo, d)
    tb = S.module('eumopps.timeutils.timebase').TimeBaseDays(start)
    step = S.module(STEP).StepDaily(start, tb.number_to_datetime(n - 1))
    here = {yy: S.fork_bool('has%d' % yy) for yy in (2000, 2002)}
    here.update({2001: True, 2003: True, 2004: False})
    matches = [entry(S, S.text('%d.data' % yy)) for yy in sorted(here) if here[yy]]
    position = {yy: k for k, yy in enumerate(sorted(q for q in here if here[q]))}
    cat = S.module(CAT).Catalogue(datasets=[dataset(S, 'in', [S.text('%Y.data')], matches)])
    policy = S.choice('policy', POLICIES)
    request = [False] * n
    r = S.attempt(S.module(PLACE).InputFile('in', 0, policy).operation_input_resolve, request, cat, step)
    years = [int(tb.number_to_datetime(s).year) for s in range(n)]
    missing = [not here[yy] for yy in years]
    S.eq(r.raised, policy == 'not_allowed' and any(missing), 'refused exactly when strict and incomplete')
    if r.raised:
        return
    for s in range(n):
        got = r.value.operation_parameters[s]
        if missing[s]:
            S.eq(list(got), [0, 0, -1] if policy == 'allowed' else [], 'a step without input')
        else:
            S.eq(list(got), [0, 0, position[years[s]]], 'the file of the year of the step')
        S.eq(bool(request[s]), policy == 'skip' and missing[s], 'steps skipped')


@harness(dates=True, bounds='2 daily steps, 2 files on any of the days of the steps')
def single_file(S):
    """An input declared as a single file refuses a step that several files belong to."""
    start = S.datetime('start', resolution='day', lo=(1850, 1, 1), hi=(2030, 12, 31))
    tb = S.module('eumopps.timeutils.timebase').TimeBaseDays(start)
    step = S.module(STEP).StepDaily(start, tb.number_to_datetime(1))
    d = [S.int('d0', 0, 1), S.int('d1', 0, 1)]
    cat = S.module(CAT).Catalogue(datasets=[dataset(S, 'in', ['%Y%m%d.nc'], [entry(S, 'f%d' % j, tb.number_to_datetime(d[j])) for j in (0, 1)])])
    r = S.attempt(S.module(PLACE).InputFile('in', 0, 'allowed').operation_input_resolve, [False, False], cat, step)
    S.eq(r.raised, bool(d[0] == d[1]), 'refused exactly when a step has two files')


class Module(object):
    def __init__(self, **k):
        self.__dict__.update(k)

    def run(self):
        return self


@harness(dates=True, bounds='3 daily steps from 1999-12-31 and from 2000-02-28; two dated inputs, every file present or not, policies of both inputs; every operation', max_paths=20000,
         assumptions=STUB, time_s=200)
def skipping_keeps_step(S):
    """After steps are skipped, every operation still has the inputs, output, time and index of one and the same step."""
    n = 3
    place, oper, par = S.module(PLACE), S.module(OPER), S.module(PARAM)
    start = S.date_of(*S.choice('start', [(1999, 12, 31), (2000, 2, 28)]))
    tb = S.module('eumopps.timeutils.timebase').TimeBaseDays(start)
    step = S.module(STEP).StepDaily(start, tb.number_to_datetime(n - 1))
    here = [[S.fork_bool('a%d' % s) for s in range(n)], [S.fork_bool('b%d' % s) for s in range(n)]]
    policy = [S.choice('pa', POLICIES), S.choice('pb', POLICIES)]
    sets = [dataset(S, 'ab'[q], ['%Y%m%d.nc'], [entry(S, '%s%d' % ('ab'[q], s), tb.number_to_datetime(s)) for s in range(n) if here[q][s]]) for q in (0, 1)]
    out = dataset(S, 'out', [S.text('o'), S.text('%Y%m%d.nc')], [], None and '' or '/p')
    cat = S.module(CAT).Catalogue(datasets=sets)
    module = Module(a=place.InputFile('a', 0, policy[0]), inner={'b': [place.InputFileList('b', 0, policy[1])]}, t=place.StepTime(), i=place.StepIndex(),
                    out=place.OutputFile('out'), fixed=17)
    oper.Operation.current_runtime_toolchain = lambda self: ['v']
    op = oper.Operation(module, step, newdatasets=[out])
    r = S.attempt(op.resolve_operation_references, cat, '/default')
    lacking = [any(not here[q][s] for s in range(n)) for q in (0, 1)]
    S.eq(r.raised, any(policy[q] == 'not_allowed' and lacking[q] for q in (0, 1)), 'refused exactly when a strict input is incomplete')
    if r.raised:
        S.check(cat.dataset('out') is None or len(cat.datasubset('out', 0).matches) == 0, 'no outputs are listed when refused')
        return
    kept = [s for s in range(n) if all(policy[q] != 'skip' or here[q][s] for q in (0, 1))]
    S.eq(op.count, len(kept), 'one operation per step not skipped')
    S.eq(len(cat.datasubset('out', 0).matches), len(kept), 'one output per operation')
    if not kept:
        return
    names = lambda ref: [None if x.entry < 0 else cat.datasets[x.dataset].path + '/' + cat.datasets[x.dataset].subsets[x.subset].matches[x.entry].name for x in ref]
    par.CatalogueReaderNetCDF = lambda: type('R', (), {'load_data_pathnames': staticmethod(lambda c, ref: names(ref) if c == 'c.nc' else ['from another catalogue']), 'load_identifier': staticmethod(lambda c: 'id')})()
    k = S.choice('k', range(len(kept)))
    s = kept[k]
    op.resolve_single_operation('c.nc', k, 'now')
    got = op.runmodule
    S.check(isinstance(got, Module), 'the module of the operation')
    S.eq(got.a, '/pa/a%d' % s if here[0][s] else None, 'first input')
    b = got.inner['b'][0]
    S.eq(list(b), ['/pb/b%d' % s] if here[1][s] else [None], 'second input')
    S.check(got.t == tb.number_to_datetime(s), 'time')
    S.eq(int(got.i), s, 'index')
    S.eq(got.fixed, 17, 'other parameters unchanged')
    t = tb.number_to_datetime(s)
    S.check(got.out == S.text('/pout/') + step.filename_from_patterns([S.text('o'), S.text('%Y%m%d.nc')], t), 'output')
    S.check(op.run() is got, 'the module that was resolved runs')


@harness(dates=True, bounds='4 of 5 daily steps from six starting days around year and month ends; outputs of the first or second subset named by day, month or year, in the folder or the file name')
def outputs_listed_once(S):
    """Steps whose names coincide share one output; different names give different outputs in step order."""
    place = S.module(PLACE)
    start = S.date_of(*S.choice('start', [(1999, 12, 31), (2000, 2, 27), (1900, 2, 26), (2021, 6, 5), (1850, 1, 1), (1999, 12, 28)]))
    tb = S.module('eumopps.timeutils.timebase').TimeBaseDays(start)
    step = S.module(STEP).StepDaily(start, tb.number_to_datetime(4))
    pattern = S.choice('pattern', ['%Y%m%d', '%Y%m', '%Y', '%Y%m%d/out.nc', '%Y/%m/x%d'])
    subset = S.choice('subset', [0, 1])
    cat = S.module(CAT).Catalogue(datasets=[dataset(S, 'first', ['x'], []), dataset(S, 'out', [S.text(pattern)], [], subset=subset)])
    output = place.OutputFile('out', subset)
    refs = output.operation_output_resolve(cat, step, [0, 1, 3, 4]).operation_parameters
    names = [step.filename_from_patterns([S.text(pattern)], tb.number_to_datetime(s)) for s in (0, 1, 3, 4)]
    matches = cat.datasubset('out', subset).matches
    for r, name in zip(refs, names):
        S.eq(len(r), 3, 'one output per operation')
        S.eq(list(r[:2]), [1, subset], 'references lead to the dataset and its subset')
        S.check(matches[r[2]].name == name, 'the output carries the name of the step')
    for a in range(len(matches)):
        for b in range(a):
            S.check(S.not_(matches[a].name == matches[b].name), 'no name is listed twice')
    again = S.attempt(output.operation_output_resolve, cat, step, [0])
    S.check(again.raised, 'outputs of a dataset are defined once')


@harness(bounds='2 datasets of 2 subsets of 3 files; any 3 references including missing ones')
def path_names(S):
    """References lead to the path of their dataset joined with the name of their entry, or to nothing for a missing file."""
    import numpy
    m = S.module(FORMAT)
    pick = lambda q: [S.choice('d%d' % q, [0, 1]), S.choice('s%d' % q, [0, 1]), S.choice('e%d' % q, [-1, 0, 1, 2])]

    class G(object):
        def __init__(self, **k):
            self.__dict__.update(k)

        def getncattr(self, k):
            return self.path

        def close(self):
            pass
    chars = lambda texts: numpy.array([[c.encode() for c in t] for t in texts], 'S1')
    name = lambda d, s, e: 'n%d%d%d' % (d, s, e)
    f = G(groups={'datasets_%08d' % d: G(path='/p%d' % d, groups={'subsets_%08d' % s: G(groups={'matches': G(variables={'name': chars([name(d, s, e) for e in range(3)])})})
                                                                  for s in (0, 1)}) for d in (0, 1)})
    m.netcdfobjects.nc_open_for_load = lambda p: f
    refs = [pick(q) for q in range(2)]
    ref = S.module('eumopps.catalogue.datareference')
    got = m.CatalogueReaderNetCDF().load_data_pathnames('c.nc', ref.reference_integers_to_list([x for r in refs for x in r]))
    S.eq(got, [None if e < 0 else '/p%d/%s' % (d, name(d, s, e)) for d, s, e in refs], 'path names')


@harness(bounds='up to 4 operations, found by name, class or function, each with or without such a name')
def operation_by_name(S):
    """An operation is found by name only if exactly one has that name."""
    m = S.module(FORMAT)

    class Attrs(object):
        def __init__(self, d, runmodule=None):
            self.__dict__.update(d)
            self._d, self._r = d, runmodule

        def ncattrs(self):
            return list(self._d)

        def getncattr(self, k):
            return self._d[k]

        def __getitem__(self, k):
            return self._r
    kinds = [S.choice('kind%d' % q, ['none', 'name', 'class', 'function']) for q in range(3)]
    groups = [Attrs({'name': 'it' if k == 'name' else 'no'}, Attrs({'class': {'python_class': 'it'}, 'function': {'python_function': 'it'}}.get(k, {}))) for k in kinds]
    r = m.CatalogueReaderNetCDF()
    r.findgroups = lambda f, l: groups
    got = S.attempt(r.findoperation, None, 'it')
    hits = [g for g, k in zip(groups, kinds) if k != 'none']
    if len(hits) > 1:
        S.check(got.raised, 'an ambiguous name is refused')
    else:
        S.check(got.value is (hits[0] if hits else None), 'the operation of that name')
