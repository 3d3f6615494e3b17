"""P31: in the iterated analysis every operation reads the latest solutions of the other components and writes data sets of its own."""
import io
import json
import re
from vf.api import harness

EUMOPPS = 'eumopps.catalogue.jsonfiller'
EXAMPLE = 'eustace.analysis.advanced_standard.examples.jsonfiller'
STORAGE = ['storage_climatology', 'storage_large_scale', 'storage_local']
SOLUTION = ['solution_climatology', 'solution_large_scale', 'solution_local']
MEASUREMENT = ['measurement_climatology', 'measurement_large_scale']
OUTPUTS = ['out_all', 'out_climatology', 'out_large_scale', 'out_local']
NAMES = dict(measurement_climatology_command='climatology_input', measurement_climatology_name=MEASUREMENT[0],
             solution_climatology_command='climatology_solve', solution_climatology_name=SOLUTION[0],
             measurement_large_scale_command='large_scale_input', measurement_large_scale_name=MEASUREMENT[1],
             solution_large_scale_command='large_scale_solve', solution_large_scale_name=SOLUTION[1],
             local_scale_command='local_input_and_solve', solution_local_scale_name=SOLUTION[2],
             output_grid_command='output_grid', output_grid_name=OUTPUTS[0],
             output_climatology_name=OUTPUTS[1], output_large_scale_name=OUTPUTS[2], output_local_name=OUTPUTS[3])
KINDS = {'single': 'operation.json', 'batch': 'batch.json', 'grid': 'grid.json'}
ASKED = []
READS = ('statefilename_read', 'statefilelist_read')
COUNT = ['names of data sets carry the number of the iteration as symbolic text']


def templates():
    """Templates of operations, each with a mark of its own."""
    out = {}
    for kind, name in KINDS.items():
        out[name] = {
            'python_class': 'Operation', 'name': None,
            'runmodule': {'template': kind, 'time_index': {}, 'inputsources': [{'name': n} for n in ('insitu_land', 'something_else', 'surfaceairmodel_ice', 'insitu_ocean')]},
            'step': {'python_class': 'step of ' + kind, 'start': None, 'end': None},
            'newdatasets': [{'name': None, 'subsets': [{'layout': {'patterns': None}}]}]}
        for s in STORAGE:
            out[name]['runmodule'][s] = {'python_class': kind}
            if kind == 'grid':
                for k in ('statefilename_read', 'sample_filename_read', 'prior_sample_filename_read'):
                    out[name]['runmodule'][s][k] = {'python_class': 'InputFile', 'datasetname': None}
    return out


class Pieces(object):
    """Text with numbers in it."""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != '' or not isinstance(p, str):
                self.parts.append(p)

    def __add__(self, o):
        return Pieces(self.parts + (o.parts if isinstance(o, Pieces) else [o]))

    def __radd__(self, o):
        return Pieces([o] + self.parts)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        if isinstance(o, str):
            o = Pieces([o])
        if not isinstance(o, Pieces):
            return False
        texts = lambda x: [p if isinstance(p, str) else None for p in x.parts]
        if texts(self) == texts(o):
            r = True
            for a, b in zip(self.parts, o.parts):
                if not isinstance(a, str):
                    r = (a == b) & r
            return r
        if all(isinstance(p, str) for p in o.parts):
            m = re.match(''.join(re.escape(p) if isinstance(p, str) else r'(\d+)' for p in self.parts) + r'\Z', ''.join(o.parts))
            r = bool(m)
            for p, g in zip([p for p in self.parts if not isinstance(p, str)], m.groups() if m else ()):
                r = (p == int(g)) & r
            return r
        return o == self if all(isinstance(p, str) for p in self.parts) else False

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    __hash__ = None

    def __repr__(self):
        return 'text'


def name(S, prefix, n, rest=''):
    return prefix + str(n) + rest if isinstance(n, int) else Pieces([prefix, n, rest])


class Files(object):
    """Templates to read, descriptors written."""

    def __init__(self):
        self.written, self.templates = {}, {'/in/' + k: json.dumps(v) for k, v in templates().items()}

    def open(self, path, mode='r', *a):
        if 'w' in mode:
            files = self

            class Out(io.StringIO):
                def close(self):
                    if not self.closed:
                        files.written[path] = self.getvalue()
                    io.StringIO.close(self)
            return Out()
        if path not in self.templates:
            raise IOError('no such file')
        return io.StringIO(self.templates[path])


def filler(S, which, iterations, grid=True, biases=(1, 0)):
    """The filler, for iterations (first, number)."""
    m = S.module(EUMOPPS if which == 'eumopps' else EXAMPLE)
    files = Files()
    m.open = m._py2_open = files.open
    m.print = lambda *a, **k: None
    m.str = lambda x='': Pieces([x]) if hasattr(x, 'e') else str(x)
    first, number = iterations
    when = S.choice('dates', [('19800102', '19990304'), ('20010615', '20010620')])
    ASKED[:] = [when, biases]
    start = (number,) if which == 'eumopps' else (first, first + number - 1, grid)
    f = m.FullstaceJsonFiller(*start, inpath='/in', outpath='/out', operation_template=KINDS['single'], batch_operation_template=KINDS['batch'],
                              output_grid_template=KINDS['grid'], start_date=when[0], end_date=when[1], land_biases=biases[0], global_biases=biases[1], **NAMES)
    return f, files, m


def read_of(storage):
    """What of a component is read: the name of the data set, or None."""
    found = [storage[k]['datasetname'] for k in READS if k in storage]
    return found[0] if found else None


def ranges(S):
    n = S.int('iterations', 1, 60)
    i = S.int('iteration', 0, 59)
    S.assume(i < n)
    return n, i


def common(S, f, op, kind, component, i):
    r = op['runmodule']
    S.check(r['template'] == kind, 'made from the right template')
    S.check(r['insitu_biases'] == ASKED[1][0] and r['global_biases'] == ASKED[1][1], 'biases as asked for')
    S.check(r['component_index'] == component, 'own component')


def dates(S, op):
    S.check(op['step'].get('start') == ASKED[0][0] + '000000' and op['step'].get('end') == ASKED[0][1] + '000000', 'from start to end')


def reads(S, op, component, i, latest):
    """Latest solutions of the other components."""
    for k, s in enumerate(STORAGE):
        if k == component:
            continue
        got = read_of(op['runmodule'][s])
        if latest(k) is None:
            S.check(got is None, 'nothing to read of %s yet' % s)
        else:
            S.check(got is not None, 'reads %s' % s)
            S.check(got == name(S, SOLUTION[k] + '_', latest(k)), 'latest solution of %s' % s)


def datasets(S, op, want):
    """Exactly these new data sets, each with its own files."""
    S.eq(len(op['newdatasets']), len(want), 'number of new data sets')
    for d, (n, ps) in zip(op['newdatasets'], want):
        S.check(d['name'] == n, 'name of a new data set')
        got = d['subsets'][0]['layout']['patterns']
        S.eq(len(got), len(ps), 'pattern of folder and name')
        for a, b in zip(got, ps):
            S.check(a == b, 'files named after their data set')


def once(S, prefix, i):
    n = name(S, prefix, i)
    return n, [n + '/', n + '.pickle']


def daily(S, prefix, i, kind='_%Y%m%d.pickle'):
    n = name(S, prefix, i)
    return n, [n + '/%Y/', n + kind]


def before(component, i):
    """Iteration of the latest solution of component k when this component is processed at iteration i."""
    return lambda k: i if k < component else (i - 1 if i > 0 else None)


@harness(params=['eumopps', 'example'], assumptions=COUNT, bounds='any iteration of any number up to 60')
def local(S, which):
    """The local operation of an iteration reads climatology and large scale of the same iteration; samples are drawn in the last one only."""
    n, i = ranges(S)
    f, files, m = filler(S, which, (0, n))
    f.load_templates()
    op = f.fill_single_operation_space(i, 2)
    common(S, f, op, 'single', 2, i)
    dates(S, op)
    S.check(op['name'] == name(S, 'local_input_and_solve_', i), 'name of the operation')
    reads(S, op, 2, i, before(2, i))
    mine = op['runmodule'][STORAGE[2]]
    S.check(mine['statefilename_write']['datasetname'] == name(S, SOLUTION[2] + '_', i), 'writes its solution')
    S.check('AnalysisStepIndex' in mine['time_index']['python_class'], 'of the day of the step')
    samples(S, f, op, 2, i, n, m, daily(S, SOLUTION[2] + '_', i), daily)
    S.check(op['runmodule']['python_function'].endswith('process_inputs'), 'function')


def samples(S, f, op, component, i, n, m, own, files, posterior=True, prior=True):
    want = [own]
    r, s = op['runmodule'], op['runmodule'][STORAGE[component]]
    last = bool(i == n - 1)
    for flag, tag, on in (('compute_sample', 'sample', posterior), ('compute_prior_sample', 'prior_sample', prior)):
        key = '%s_filename_write' % tag
        if last and on:
            S.check(r[flag] == 1, '%s in the last iteration' % tag)
            S.check(s[key]['datasetname'] == name(S, '%s_%s_' % (SOLUTION[component], tag), i), 'own %s' % tag)
            want.append(files(S, '%s_%s_' % (SOLUTION[component], tag), i))
        else:
            S.check(r[flag] == 0, 'no %s before the last iteration' % tag)
            S.check(key not in s, 'no %s file' % tag)
    S.check(r['sample_size'] == (m.FullstaceJsonFiller.STATE_SAMPLE_SIZE if last else 0), 'number of samples')
    datasets(S, op, want)


@harness(params=[(w, c) for w in ('eumopps', 'example') for c in (0, 1)], assumptions=COUNT, bounds='any iteration of any number up to 60')
def measurement(S, which, component):
    """Observations of climatology and large scale are processed day by day against the latest solutions of the other components."""
    n, i = ranges(S)
    f, files, m = filler(S, which, (0, n))
    f.load_templates()
    op = f.fill_single_measurement_operation_space_time(i, component, 'the_command', MEASUREMENT[component])
    common(S, f, op, 'single', component, i)
    dates(S, op)
    S.check(op['name'] == name(S, 'the_command_', i), 'name of the operation')
    reads(S, op, component, i, before(component, i) if bool(i > 0) else before(component, 0))
    mine = op['runmodule'][STORAGE[component]]
    S.check(mine['measurementfilename_write']['datasetname'] == name(S, MEASUREMENT[component] + '_', i), 'writes its measurements')
    S.check('AnalysisStepIndex' in mine['measurement_time_index_write']['python_class'], 'of the day of the step')
    S.check('AnalysisStepIndex' in op['runmodule'][STORAGE[2]]['time_index']['python_class'], 'local solution of the day of the step')
    datasets(S, op, [daily(S, MEASUREMENT[component] + '_', i)])
    S.check([s['name'] for s in op['runmodule']['inputsources']] == ['insitu_land', 'surfaceairmodel_ice', 'insitu_ocean'], 'the sources in use')
    S.check(op['runmodule']['python_function'].endswith('process_inputs'), 'function')


@harness(params=[(w, c) for w in ('eumopps', 'example') for c in (0, 1)], assumptions=COUNT, bounds='any iteration of any number up to 60')
def batch(S, which, component):
    """In batches, too, observations are processed against the latest solutions of the other components."""
    n, i = ranges(S)
    f, files, m = filler(S, which, (0, n))
    f.load_templates()
    op = f.fill_batch_measurement_operation_space_time(i, component, 'the_command', MEASUREMENT[component])
    common(S, f, op, 'batch', component, i)
    dates(S, op)
    reads(S, op, component, i, before(component, i) if bool(i > 0) else before(component, 0))
    S.check(op['name'] == name(S, 'the_command_', i), 'name of the operation')
    mine = op['runmodule'][STORAGE[component]]
    S.check(mine['measurementfilename_write']['datasetname'] == name(S, MEASUREMENT[component] + '_', i), 'writes its measurements')
    datasets(S, op, [daily(S, MEASUREMENT[component] + '_', i, '_%Y%m.pickle')])
    S.check(op['runmodule']['python_function'].endswith('process_inputs_batch'), 'function')
    S.check([s['name'] for s in op['runmodule']['inputsources']] == ['insitu_land', 'surfaceairmodel_ice', 'insitu_ocean'], 'the sources in use')


@harness(params=[(w, c, k) for w in ('eumopps', 'example') for c in (0, 1) for k in ('both', 'posterior', 'prior')], assumptions=COUNT, bounds='any iteration of any number up to 60')
def solution(S, which, component, kind):
    """Climatology and large scale are solved once for each iteration, from all measurements of the same component and iteration."""
    n, i = ranges(S)
    if kind == 'prior':
        S.assume(i == n - 1)
    f, files, m = filler(S, which, (0, n))
    f.load_templates()
    make = {'both': f.fill_single_solution_operation_space_time, 'posterior': f.fill_single_posterior_solution_operation_space_time, 'prior': f.fill_single_prior_solution_operation_space_time}[kind]
    op = make(i, component, 'the_command', SOLUTION[component], MEASUREMENT[component])
    common(S, f, op, 'single', component, i)
    tag = '_prior_sample_' if kind == 'prior' else '_'
    S.check(op['name'] == name(S, 'the_command' + tag, i), 'name of the operation')
    S.check(op['step'] == {'python_class': 'eumopps.catalogue.step.StepOnce'}, 'once')
    S.check('inputsources' not in op['runmodule'], 'no observations')
    mine = op['runmodule'][STORAGE[component]]
    S.check(op['runmodule']['python_function'].endswith('solve'), 'function')
    if kind == 'prior':
        S.check(S.and_(op['runmodule']['compute_prior_sample'] == 1, op['runmodule']['compute_sample'] == 0), 'sample of the prior only')
        S.check(mine['prior_sample_filename_write']['datasetname'] == name(S, SOLUTION[component] + tag, i), 'writes the sample')
        datasets(S, op, [once(S, SOLUTION[component] + tag, i)])
        return
    S.check(mine['measurementfilelist_read']['datasetname'] == name(S, MEASUREMENT[component] + '_', i), 'reads its measurements')
    S.check('InputFileList' in mine['measurementfilelist_read']['python_class'], 'all of them')
    S.check(mine['statefilename_write']['datasetname'] == name(S, SOLUTION[component] + '_', i), 'writes its solution')
    samples(S, f, op, component, i, n, m, once(S, SOLUTION[component] + '_', i), once, prior=kind == 'both')


@harness(params=[('eumopps', 'single'), ('eumopps', 'batch'), ('example', 'batch')], bounds='1 to 4 iterations; for the example from the first or a later one, with output or not')
def whole(S, which, kind):
    """Whole descriptors: in each iteration climatology, large scale and local one after the other; all that is read of solutions was written before, all that is written is new and of the operation itself; at the end the output reads the last of everything."""
    n = S.choice('iterations', [1, 2, 3, 4])
    first = S.choice('first', [0, 2]) if which == 'example' else 0
    grid = S.fork_bool('output') if which == 'example' else True
    f, files, m = filler(S, which, (first, n), grid)
    if kind == 'single':
        f.create_descriptor('name.json', True)
    else:
        f.create_batch_descriptor('name.json', True)
    S.check(list(files.written) == ['/out/name.json'], 'one file')
    d = json.loads(files.written['/out/name.json'])
    S.check(d['python_class'] == 'eumopps.catalogue.catalogue.Catalogue', 'a catalogue')
    ops = d['operations']
    last = first + n - 1
    want = []
    for i in range(first, last + 1):
        prior = kind == 'batch' and i == last and grid
        for c, q in enumerate(('climatology', 'large_scale')):
            want += ['%s_input_%d' % (q, i), '%s_solve_%d' % (q, i)] + (['%s_solve_prior_sample_%d' % (q, i)] if prior else [])
        want.append('local_input_and_solve_%d' % i)
    if grid:
        want.append('output_grid' if which == 'eumopps' else 'output_grid_%d' % last)
    S.eq([o['name'] for o in ops], want, 'operations in order')
    made = set('%s_%d' % (s, first - 1) for s in SOLUTION) if first else set()
    for o in ops:
        new = [x['name'] for x in o['newdatasets']]
        S.check(len(set(new)) == len(new) and not made & set(new), 'new data sets')
        S.check(None not in new, 'named')
        for s in STORAGE + ['']:
            part = o['runmodule'][s] if s else {k: v for k, v in o['runmodule'].items() if k not in STORAGE and k != 'inputsources'}
            for k, v in part.items():
                if isinstance(v, dict) and 'datasetname' in v:
                    if k.endswith('_read'):
                        S.check(v['datasetname'] in made, 'what is read was written before')
                    else:
                        S.check(v['datasetname'] in new, 'what is written is of the operation itself')
        made |= set(new)
    if grid:
        o = ops[-1]['runmodule']
        for s, prefix in zip(STORAGE, SOLUTION):
            names = {k.replace('filelist', 'filename'): v['datasetname'] for k, v in o[s].items() if k.endswith('_read')}
            S.check(names == {'statefilename_read': '%s_%d' % (prefix, last), 'sample_filename_read': '%s_sample_%d' % (prefix, last),
                              'prior_sample_filename_read': '%s_prior_sample_%d' % (prefix, last)}, 'last solution and samples of each component')
        tail = '' if which == 'eumopps' else '_%d' % last
        keys = ['outputfile', 'climatologyfile', 'largescalefile', 'localfile']
        S.check([o[k + ('' if kind == 'single' else 's')]['datasetname'] for k in keys] == [x + tail for x in OUTPUTS], 'output files')
        S.check([x['name'] for x in ops[-1]['newdatasets']] == [x + tail for x in OUTPUTS], 'output data sets')
        for x in ops[-1]['newdatasets']:
            S.check(x['subsets'][0]['layout']['patterns'] == [x['name'] + '/%Y/', x['name'] + '_%Y%m%d.nc'], 'a file a day')


@harness(params=['eumopps'], bounds='a descriptor of depth 3 with a value missing anywhere or nowhere')
def unfilled(S, which):
    """A descriptor with a value missing anywhere is refused, any other is not."""
    m = S.module(EUMOPPS)
    where = S.choice('missing', ['nowhere', 'top', 'in list', 'deep', 'list in list'])
    v = lambda k: None if where == k else S.int('v_' + k.replace(' ', '_'), 0, 5)
    d = {'a': v('top'), 'b': [{'c': v('in list'), 'x': 0}, [1, v('list in list')]], 'c': {'d': {'e': v('deep')}, 'f': ''}}
    r = S.attempt(m.FullstaceJsonFiller.check_none, d)
    S.check(r.raised == (where != 'nowhere'), 'refused if and only if a value is missing')


@harness(bounds='no iteration')
def no_iteration(S):
    """Without iterations there is no descriptor."""
    f, files, m = filler(S, 'eumopps', (0, 0))
    for make in (f.fill_descriptor, f.fill_batch_descriptor):
        S.check(S.attempt(make).raised, 'refused')
