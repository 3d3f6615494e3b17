"""P13: stored states and measurements come back as they were, for their own kind and time only."""
import os

from vf.api import harness

FILES = 'eustace.analysis.advanced_standard.components.storage_files'
BATCH = 'eustace.analysis.advanced_standard.components.storage_files_batch'
MEM = 'eustace.analysis.advanced_standard.components.storage_inmemory'
STUB = ('pickling to file is replaced by a record of what was written under which name, in the replay too; the pickle module itself is trusted',)


class Disk(object):
    """Files as a dictionary of names."""

    def __init__(self, S, modules):
        self.files = {}
        for m in modules:
            M = S.module(m)
            M.writepickle, M.readpickle = self.write, self.read
            M.os = self

    def write(self, value, name):
        self.files[str(name)] = value

    def read(self, name):
        if str(name) not in self.files:
            raise IOError('no file ' + str(name))
        return self.files[str(name)]

    # what the code uses of the os module
    @property
    def path(self):
        return self

    def exists(self, name):
        return str(name) in self.files

    join = staticmethod(os.path.join)


def one(S, name):
    return S.array(name, 2, lo=-100, hi=100)


def same(S, a, b, label):
    if a is None:
        S.check(False, label)
    S.eq(list(S.flat(a)), list(S.flat(b)), label)


STATES = ['state', 'state_marginal_std', 'state_sample', 'state_prior_sample']
NAMES = {'state': 'statefilename', 'state_marginal_std': 'marginal_std_filename', 'state_sample': 'sample_filename', 'state_prior_sample': 'prior_sample_filename'}


@harness(params=[('memory',), ('files',), ('batched',), ('batched_in_memory',)], assumptions=STUB,
         bounds='each subset of state, uncertainty, sample and prior sample stored, any values, written up to twice')
def spacetime_states(S, kind):
    """What was last written of a kind is what is read of it; kinds not written or not configured give nothing or are refused."""
    disk = Disk(S, [FILES, BATCH])
    have = [k for k in STATES if S.fork_bool(k)]
    if kind == 'memory':
        w = r = S.module(MEM).SpaceTimeComponentSolutionStorage_InMemory()
    else:
        cls = S.module(FILES).SpaceTimeComponentSolutionStorage_Files if kind == 'files' else S.module(BATCH).SpaceTimeComponentSolutionStorageBatched_Files
        more = {'keep_in_memory': True} if kind == 'batched_in_memory' else {}
        names = {}
        for k in have:
            names[NAMES[k] + '_read'] = names[NAMES[k] + '_write'] = 'file_' + k
        w = cls(**dict(names, **more))
        r = cls(**dict(names, **more))
    want = {}
    for k in have:
        for again in (0, 1):
            want[k] = one(S, '%s.%d' % (k, again))
            getattr(w, k + '_write')(want[k])
            same(S, getattr(w, k + '_read')(), want[k], 'written value is read back')
            if again == 0 and S.fork_bool('once.' + k):
                break
    for k in STATES:
        if k in have:
            same(S, getattr(r, k + '_read')(), want[k], 'read back later')
            same(S, getattr(w, k + '_read')(), want[k], 'other kinds leave it as it is')
        else:
            S.check(getattr(r, k + '_read')() is None, 'nothing of kinds not stored')
            if kind != 'memory':
                S.raises(ValueError, getattr(w, k + '_write'), 'writing without a file name is refused', one(S, 'not.' + k))


@harness(params=[('memory',), ('files',)], assumptions=STUB, bounds='measurements of 3 times written in any order, any values, any time index -3..6 asked for')
def spacetime_measurements(S, kind):
    """Each time gets its own measurement; the times listed are those written."""
    disk = Disk(S, [FILES])
    order = S.choice('order', [[0, 1, 2], [2, 1, 0], [1, 2, 0]])
    m = [one(S, 'm%d' % k) for k in range(3)]
    if kind == 'memory':
        r = S.module(MEM).SpaceTimeComponentSolutionStorage_InMemory()
        times = S.choice('times', [[0, 1, 2], [3, 4, 60000], [11, 2, 5]])
        for t in order:
            r.measurement_write(m[t], times[t])
        S.eq(sorted(r.timeindices_read()), sorted(times), 'times listed')
        for t in range(3):
            same(S, r.measurement_read(times[t]), m[t], 'measurement of its own time')
        return
    else:
        F = S.module(FILES).SpaceTimeComponentSolutionStorage_Files
        names = S.choice('names', [['day_0', 'day_1', 'day_2'], ['day_9', 'day_10', 'b'], ['z', 'a', 'm']])
        for t in order:
            w = F(measurement_time_index_write=t, measurementfilename_write=names[t])
            S.raises(ValueError, w.measurement_write, 'measurement of another time is refused', m[t], t + 1)
            w.measurement_write(m[t], t)
        r = F(measurementfilelist_read=names)
        S.raises(ValueError, F().measurement_write, 'writing without a file name is refused', m[0], None)
        t = S.int('time', -3, 6)
        x = S.attempt(r.measurement_read, t)
        inside = S.and_(t >= 0, t <= 2)
        if x.raised:
            S.check(S.not_(inside), 'refused only outside the list')
        else:
            S.check(inside, 'times outside the list are refused')
            for k in range(3):
                S.check(S.implies(t == k, S.all([a == b for a, b in zip(S.flat(x.value), S.flat(m[k]))])), 'measurement of its own time')
    S.eq(sorted(r.timeindices_read()), [0, 1, 2], 'times listed')
    for t in range(3):
        same(S, r.measurement_read(t), m[t], 'measurement of its own time')


PARTIAL = ['partial_state', 'partial_state_marginal_std', 'partial_state_sample', 'partial_state_prior_sample']


@harness(params=[('memory',), ('files',), ('indexed',), ('indexed_numbers',)], assumptions=STUB,
         bounds='two times, each subset of the kinds stored for each, any values, written in any order')
def spatial_states(S, kind):
    """States of a time are read back for that time only, each kind on its own."""
    disk = Disk(S, [FILES, BATCH])
    times = [11, 7] if kind != 'indexed_numbers' else [0, 1]
    have = {t: [k for k in PARTIAL if S.fork_bool('%s.%d' % (k, t))] for t in times}
    short = lambda k: k.replace('partial_state_', '').replace('partial_', '')

    def storage(t):
        if kind == 'memory':
            return mem
        if kind == 'files':
            names = {}
            for k in have[t]:
                n = {'state': 'statefilename', 'marginal_std': 'marginal_std_filename', 'sample': 'sample_filename', 'prior_sample': 'prior_sample_filename'}[short(k)]
                names[n + '_read'] = names[n + '_write'] = '%s_%d' % (k, t)
            return S.module(FILES).SpatialComponentSolutionStorage_Files(time_index=t, **names)
        names = {}
        for k in PARTIAL:
            n = {'state': 'statefilelist', 'marginal_std': 'marginal_std_filelist', 'sample': 'sample_filelist', 'prior_sample': 'prior_sample_filelist'}[short(k)]
            names[n + '_read'] = names[n + '_write'] = ['%s_%d' % (k, u) for u in times]
        return S.module(BATCH).SpatialComponentSolutionStorageIndexed_Files(time_list=times if kind == 'indexed' else None, **names)

    mem = S.module(MEM).SpatialComponentSolutionStorage_InMemory()
    want = {}
    for t in (times if S.fork_bool('forward') else times[::-1]):
        s = storage(t)
        for k in have[t]:
            want[k, t] = one(S, '%s.value.%d' % (k, t))
            getattr(s, k + '_write')(want[k, t], t)
            if kind != 'memory':
                S.raises(ValueError, getattr(s, k + '_write'), 'state of another time is refused', want[k, t], 99)
    for t in times:
        s = storage(t)
        for k in PARTIAL:
            if (k, t) in want:
                same(S, getattr(s, k + '_read')(t), want[k, t], 'state of its own time and kind')
                if kind != 'memory':
                    S.raises(ValueError, getattr(s, k + '_read'), 'another time is refused', 99)
            elif kind.startswith('indexed'):
                S.check(('%s_%d' % (k, t)) not in disk.files, 'nothing was written for it')
            else:
                S.check(getattr(s, k + '_read')(t) is None, 'nothing of kinds and times not stored')


@harness(params=[('dictionary',), ('list',), ('memory',), ('indexed',)], assumptions=STUB,
         bounds='three times, measurements and states of each of a subset of them, any values')
def delayed_states(S, kind):
    """Delayed components: measurements, states, uncertainties and samples of each time are its own."""
    disk = Disk(S, [FILES, BATCH])
    times = [4, 2, 9] if kind in ('dictionary', 'memory', 'indexed') else [0, 1, 2]
    present = [t for t in times if S.fork_bool('present.%d' % t)]
    S.assume(len(present) > 0)
    if kind == 'memory':
        s = S.module(MEM).SpatialComponentSolutionStorage_InMemory()
        kinds = ['partial_state', 'partial_state_marginal_std', 'partial_state_sample']
    else:
        end_of = (lambda t: [5, 31, 4][t]) if kind == 'list' else (lambda t: t)
        lookup = lambda p: [p + '_%d' % end_of(t) for t in times] if kind in ('list', 'indexed') else dict((t, p + '_%d' % t) for t in times)
        kinds = ['partial_state', 'partial_state_marginal_std', 'state_sample']
        names = {}
        for end in ('_read', '_write'):
            for n in ('statefiledictionary', 'marginal_std_filedictionary', 'sample_filedictionary', 'measurementfiledictionary'):
                names[(n.replace('dictionary', 'list') if kind == 'indexed' else n) + end] = lookup(n)
        if kind == 'indexed':
            s = S.module(BATCH).SpatialComponentSolutionStorageIndexed_Files(time_list=times, **names)
        else:
            s = S.module(FILES).DelayedSpatialComponentSolutionStorage_Files(**names)
        by_name = {}
        for end in ('_read', '_write'):
            for n in ('statefiledictionary', 'marginal_std_filedictionary', 'sample_filedictionary', 'measurementfiledictionary'):
                by_name[n + end] = dict((t, n + '_%d' % end_of(t)) for t in times)
        by_name = S.module(FILES).DelayedSpatialComponentSolutionStorage_Files(**by_name)
    want = {}
    for t in present:
        want['m', t] = one(S, 'm.%d' % t)
        s.measurement_write(want['m', t], t)
        for k in kinds:
            want[k, t] = one(S, '%s.%d' % (k, t))
            getattr(s, k + '_write')(want[k, t], t)
    for t in present:
        same(S, s.measurement_read(t), want['m', t], 'measurement of its own time')
        for k in kinds:
            same(S, getattr(s, k + '_read')(t), want[k, t], 'state of its own time and kind')
        if kind != 'memory':
            same(S, by_name.measurement_read(t), want['m', t], 'measurement in the file named for its time')
            for k in kinds:
                same(S, getattr(by_name, k + '_read')(t), want[k, t], 'state in the file named for its time')
    if kind == 'memory':
        S.eq(sorted(s.timeindices_read()), sorted(present), 'times listed')
    else:
        S.eq(sorted(s.timeindices_read()), sorted(times), 'times listed')
        S.raises(ValueError, s.measurement_write, 'another time is refused', one(S, 'other'), 77)
        S.raises(ValueError, s.measurement_read, 'another time is refused', 77)


@harness(dates=True, assumptions=STUB, bounds='two days anywhere in 1850 to 2100, any of the kinds, any values; names of year, month and day')
def states_by_pattern(S):
    """States stored by file name pattern come back for their own day and kind."""
    disk = Disk(S, [FILES])
    kinds = ['partial_state', 'partial_state_marginal_std', 'partial_state_sample', 'partial_state_prior_sample', 'measurement']
    opts = {}
    for p in ('state', 'marginal_std', 'sample', 'prior_sample', 'measurement'):
        opts[p + '_read_pattern'] = opts[p + '_write_pattern'] = ['%Y', p + '_%Y%m%d.pickle']
    s = S.module(FILES).DelayedSpatialComponentSolutionStorageFlexible_Files(**opts)
    days = S.choice('days', [(0, 1), (58, 59), (59, 424), (36523, 60), (365, 30)])
    k, other = S.choice('kinds', [(a, b) for a in kinds for b in kinds])
    v = [one(S, 'a'), one(S, 'b'), one(S, 'c')]
    getattr(s, k + '_write')(v[0], days[0])
    S.check(getattr(s, k + '_read')(days[1]) is None, 'nothing of a day not stored')
    getattr(s, k + '_write')(v[1], days[1])
    if other != k:
        S.check(getattr(s, other + '_read')(days[0]) is None, 'nothing of a kind not stored')
        getattr(s, other + '_write')(v[2], days[0])
        same(S, getattr(s, other + '_read')(days[0]), v[2], 'own kind')
    same(S, getattr(s, k + '_read')(days[0]), v[0], 'own day')
    same(S, getattr(s, k + '_read')(days[1]), v[1], 'own day')
    S.raises(ValueError, S.module(FILES).DelayedSpatialComponentSolutionStorageFlexible_Files().state_write, 'writing without a pattern is refused', v[0], 3)


@harness(dates=True, assumptions=STUB, bounds='any two days of 1850 to 2100')
def pattern_names(S):
    """Different days have different file names."""
    s = S.module(FILES).DelayedSpatialComponentSolutionStorageFlexible_Files()
    a, b = S.int('a', 0, 91000), S.int('b', 0, 91000)
    names = [s.filename_from_patterns([S.text('dir_%Y%m%d.pickle')], d) for d in (a, b)]
    S.check(S.implies(a != b, names[0] != names[1]), 'names of different days differ')
