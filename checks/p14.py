"""P14: the analysis system gives each component the observations less what the other components explain, and its output is the sum over components."""
from vf.api import harness
from checks.linear import native, dot, Evidence, element

SYS = 'eustace.analysis.advanced_standard.analysissystem'
COMP = 'eustace.analysis.advanced_standard.components.'
OUT = 'eustace.analysis.advanced_standard.fileio.output_structure_rectilinear'
DEF = 'eustace.outputformats.definitions'


class Log(object):
    def write(self, text):
        pass

    def flush(self):
        pass


class Inputs(object):
    """Observations of one loader and time."""

    def __init__(self, S, name, n, time):
        self.name, self.n, self.time, self.S = name, n, time, S

    def number_of_observations(self):
        return self.n

    def time_index(self):
        return self.time


class Loader(object):
    def __init__(self, given):
        self.given = given

    def load_observation_structure(self, observable, time_index, log=None):
        if observable != 'Tmean':
            raise AssertionError('observable of the system')
        return self.given[time_index]

    def datetime_at_time_index(self, time_index):
        return 'day %d' % time_index


class Solution(object):
    """Records what it is given; what it explains changes with every solution."""

    def __init__(self, S, name, events, column=False):
        self.S, self.name, self.events, self.column = S, name, events, column
        self.solved, self.explained, self.counter = 0, {}, 0
        self.measurement_time_index = None

    def process_observations(self, observations, subtract_offset):
        if self.measurement_time_index not in (None, observations.time_index()):
            raise ValueError('expect observations all from same time index until told otherwise')
        self.measurement_time_index = observations.time_index()
        self.events.append((self.name, 'observations', observations, self.S.flat(subtract_offset)))

    def update_time_step(self):
        self.events.append((self.name, 'step'))
        self.measurement_time_index = None
        self.counter += 1

    def update(self):
        self.events.append((self.name, 'solve'))
        self.counter += 1

    def values(self, o):
        k = (o.name, self.counter)
        if k not in self.explained:
            self.explained[k] = [self.S.real('%s.%s.%d.%d' % (self.name, o.name, self.counter, i), -100, 100) for i in range(o.n)]
        return self.explained[k]

    def solution_observation_expected_value(self, o):
        v = self.S.np.array(self.values(o), dtype=self.S.np.float64)
        return v.reshape(o.n, 1) if self.column else v


def components(S, kinds, events, **k):
    """One component of each kind; the solutions are shared by all the solution objects of a component."""
    base = {'spatial': S.module(COMP + 'spatial').SpatialComponent, 'spacetime': S.module(COMP + 'spacetime').SpaceTimeComponent}
    made = []
    for n, kind in enumerate(kinds):
        class Stand(base[kind]):
            def __init__(self, s):
                base[kind].__init__(self, None, None)
                self.s = s

            def component_solution(self):
                return self.s
        made.append(Stand(Solution(S, 'c%d' % n, events, column=(n == 1), **k)))
    return made


def check_sequence(S, events, wanted):
    """wanted: list of (component, kind[, inputs, offsets])."""
    S.eq([e[:2] for e in events].__len__(), len(wanted), 'number of steps taken')
    for e, w in zip(events, wanted):
        S.check(e[0] == w[0] and e[1] == w[1], 'order of observations, steps and solutions')
        if e[1] == 'observations':
            S.check(e[2] is w[2], 'observations of the loader and time')
            S.close(e[3], w[3], 'offset is the sum of what the other components explain')


def offsets(S, comps, index, o):
    r = [0] * o.n
    for k, c in enumerate(comps):
        if k != index:
            r = [a + b for a, b in zip(r, c.s.values(o))]
    return r


@harness(overrides=native, bounds='2 or 3 components, 2 times, 2 loaders with 0 to 2 observations, any values explained by the components')
def update(S):
    """Components are solved in turn from all observations, less what the others explain at that point."""
    A = S.module(SYS)
    kinds = S.choice('kinds', [['spacetime', 'spatial'], ['spacetime', 'spacetime', 'spatial']])
    sizes = S.choice('sizes', [[[2, 1], [1, 2]], [[0, 1], [2, 0]], [[1, 0], [0, 0]]])
    events, wanted = [], []
    comps = components(S, kinds, events)
    times = [5, 9]
    loaders = [Loader({t: Inputs(S, 'o%d.%d' % (l, t), sizes[i][l], t) for i, t in enumerate(times)}) for l in range(2)]
    system = A.AnalysisSystem(comps, 'Tmean', log=Log())
    # what should happen, in terms of what each component explains when it is asked
    for k in range(len(comps)):
        for t in times:
            before = len(events)
            system.update_component_time(loaders, k, t)
            want = []
            for l in loaders:
                o = l.given[t]
                if o.n:
                    want.append(('c%d' % k, 'observations', o, offsets(S, comps, k, o)))
            want.append(('c%d' % k, 'step'))
            check_sequence(S, events[before:], want)
        before = len(events)
        system.update_component_solution(k)
        check_sequence(S, events[before:], [('c%d' % k, 'solve')])
    # all at once: the same sequence
    whole = []
    comps2 = components(S, kinds, whole)
    for a, b in zip(comps, comps2):
        b.s.explained = a.s.explained
    A.AnalysisSystem(comps2, 'Tmean', log=Log()).update(loaders, times)
    S.eq(len(whole), len(events), 'number of steps of a full update')
    for a, b in zip(whole, events):
        S.check(a[0] == b[0] and a[1] == b[1], 'order of a full update')
        if a[1] == 'observations':
            S.check(a[2] is b[2], 'observations of a full update')
            S.close(a[3], b[3], 'offsets of a full update')


@harness(overrides=native, bounds='2 components, 2 times with 1 or 2 loaders of 0 to 2 observations each, any values explained by the components')
def several_times(S):
    """Updating a component for several times at once gives it the observations of every time; space-time components complete one step, spatial ones a step each time."""
    A = S.module(SYS)
    kinds = S.choice('kinds', [['spacetime', 'spatial'], ['spatial', 'spacetime'], ['spacetime', 'spacetime', 'spatial']])
    sizes = S.choice('sizes', [[[2, 1], [1]], [[0, 1], [2]], [[1], [0, 0]]])
    events, wanted = [], []
    comps = components(S, kinds, events)
    times = [5, 9]
    loaders = [[Loader({t: Inputs(S, 'o%d.%d' % (l, t), n, t)}) for l, n in enumerate(sizes[i])] for i, t in enumerate(times)]
    system = A.AnalysisSystem(comps, 'Tmean', log=Log())
    for k, kind in enumerate(kinds):
        before, wanted = len(events), []
        c = comps[k].s
        for i, t in enumerate(times):
            for l in loaders[i]:
                o = l.given[t]
                if o.n:
                    wanted.append(('c%d' % k, 'observations', o, offsets(S, comps, k, o)))
            if kind == 'spatial':
                wanted.append(('c%d' % k, 'step'))
        if kind == 'spacetime':
            wanted.append(('c%d' % k, 'step'))
        system.update_component_times(loaders, k, times)
        check_sequence(S, events[before:], wanted)


class Fields(object):
    """A solution with given fields."""

    def __init__(self, S, name, n, sample_size=2, column=False):
        self.S, self.column = S, column
        self.mean = [S.real('%s.m%d' % (name, i), -100, 100) for i in range(n)]
        self.sd = [S.real('%s.s%d' % (name, i), 0, 50) for i in range(n)]
        self.prior = [S.real('%s.p%d' % (name, i), 1, 50) for i in range(n)]
        self.sample_size = sample_size
        self.samples = [[S.real('%s.x%d.%d' % (name, i, j), -100, 100) for j in range(sample_size)] for i in range(n)]

    def _arr(self, v, o):
        v = self.S.np.array(v, dtype=self.S.np.float64)
        return v.reshape(len(self.mean), 1) if self.column else v

    def solution_observation_expected_value(self, o):
        return self._arr(self.mean, o)

    def solution_observation_expected_uncertainties(self, o):
        return self._arr(self.sd, o)

    def solution_observation_prior_uncertainties(self, o):
        return self._arr(self.prior, o)

    def solution_observation_projected_sample(self, o):
        return self.S.np.array(self.samples, dtype=self.S.np.float64)


def fields_system(S, kinds, n, sizes=None, column=False):
    base = {'spatial': S.module(COMP + 'spatial').SpatialComponent, 'spacetime': S.module(COMP + 'spacetime').SpaceTimeComponent}
    comps = []
    for k, kind in enumerate(kinds):
        class Stand(base[kind]):
            def __init__(self, s):
                base[kind].__init__(self, None, None)
                self.s = s

            def component_solution(self):
                return self.s
        comps.append(Stand(Fields(S, 'c%d' % k, n, (sizes or [2] * len(kinds))[k], column=column and k == 0)))
    return comps, S.module(SYS).AnalysisSystem(comps, 'Tmean', log=Log())


@harness(overrides=native, bounds='1 to 3 components, 2 output points, any fields; every field and output flag')
def pointwise(S):
    """At every point the expected value is the sum over components and the uncertainty the root of the sum of squares; anything else is refused."""
    kinds = S.choice('kinds', [['spatial'], ['spacetime', 'spatial'], ['spacetime', 'spacetime', 'spatial']])
    comps, system = fields_system(S, kinds, 2, column=True)
    o = Inputs(S, 'o', 2, 4)
    v = S.flat(system.evaluate_expected_value('MAP', o, 'POINTWISE'))
    S.close(v, [sum(c.s.mean[i] for c in comps) for i in range(2)], 'sum over the components')
    u = S.flat(system.evaluate_expected_value('post_STD', o, 'POINTWISE'))
    for i in range(2):
        S.check(u[i] >= 0, 'uncertainties are not negative')
        S.close(u[i] * u[i], sum(c.s.sd[i] * c.s.sd[i] for c in comps), 'root of the sum of squares')
    S.raises(ValueError, system.evaluate_expected_value, 'pointwise prior deviations are refused', 'prior_STD', o, 'POINTWISE')
    S.raises(ValueError, system.evaluate_expected_value, 'unknown field refused', 'STD', o, 'POINTWISE')
    S.raises(ValueError, system.evaluate_expected_value, 'unknown output refused', 'MAP', o, 'AVERAGE')


@harness(overrides=native, bounds='1 to 3 components, 2 output points, 1 to 3 samples, any samples and every combination of numbers of samples')
def samples(S):
    """Samples of the output are sums of samples of the components, one by one; different numbers of samples are refused."""
    sizes = S.choice('sizes', [[1], [2], [2, 2], [3, 3], [1, 2], [2, 2, 2], [2, 2, 1], [1, 2, 2], [2, 1, 2]])
    comps, system = fields_system(S, (['spacetime'] * 2 + ['spatial'])[-len(sizes):], 2, sizes)
    o = Inputs(S, 'o', 2, 4)
    if len(set(sizes)) > 1:
        S.raises(ValueError, system.evaluate_projected_sample, 'different numbers of samples are refused', o)
        return
    x = system.evaluate_projected_sample(o)
    S.eq(list(S.shape(x)), [2, sizes[0]], 'points by samples')
    S.close(S.flat(x), [sum(c.s.samples[i][j] for c in comps) for i in range(2) for j in range(sizes[0])], 'sum of the samples of the same number')


@harness(overrides=native, bounds='2 by 2 grid cells of one point each, 1 to 3 components, any fields')
def fraction(S):
    """Climatology fraction is the ratio of posterior and prior variance of the one spatial component, fill value unless there is exactly one."""
    kinds = S.choice('kinds', [['spatial'], ['spacetime', 'spatial'], ['spatial', 'spacetime', 'spacetime'], ['spatial', 'spatial'], ['spacetime']])
    comps, system = fields_system(S, kinds, 4)
    o = S.module(OUT).OutputRectilinearGridStructure(4, 'day', S.np.array([10.0, 12.0]), S.np.array([0.0, 5.0]))
    f = S.flat(system.evaluate_climatology_fraction(o))
    S.eq(len(f), 4, 'one value a cell')
    which = [c for k, c in zip(kinds, comps) if k == 'spatial']
    if len(which) != 1:
        S.eq(f, [S.module(DEF).CLIMATOLOGY_FRACTION_FILL_VALUE] * 4, 'fill value')
        return
    s = which[0].s
    for i in range(4):
        S.close(f[i] * s.prior[i] * s.prior[i], s.sd[i] * s.sd[i], 'posterior over prior variance')


@harness(overrides=native, bounds='2 by 2 grid cells of one point each, 1 to 3 components, any fields')
def averages(S):
    """Area averages over one point a cell agree with the values at the points."""
    kinds = S.choice('kinds', [['spatial'], ['spacetime', 'spatial'], ['spacetime', 'spatial', 'spacetime']])
    comps, system = fields_system(S, kinds, 4)
    o = S.module(OUT).OutputRectilinearGridStructure(4, 'day', S.np.array([10.0, 12.0]), S.np.array([0.0, 5.0]))
    v = S.flat(system.evaluate_expected_value('MAP', o, 'GRID_CELL_AREA_AVERAGE'))
    S.close(v, [sum(c.s.mean[i] for c in comps) for i in range(4)], 'sum over the components')
    u = S.flat(system.evaluate_expected_value('post_STD', o, 'GRID_CELL_AREA_AVERAGE'))
    for i in range(4):
        S.check(u[i] >= 0, 'uncertainties are not negative')
        S.close(u[i] * u[i], sum(c.s.sd[i] * c.s.sd[i] for c in comps), 'root of the sum of squares')
    S.raises(ValueError, system.evaluate_expected_value, 'averages of prior deviations are refused', 'prior_STD', o, 'GRID_CELL_AREA_AVERAGE')


@harness(overrides=native, bounds='a space-time and a spatial component of one parameter each, 2 times, any precisions, designs and observations')
def decomposition(S):
    """With real components: the spatial state of each day is solved from what the space-time component leaves, and the output is the sum of both."""
    T, A = S.module(COMP + 'storage_inmemory'), S.module(SYS)
    q = [S.real('q0', 0.5, 5), S.real('q1', 0.5, 5)]
    stores = [T.SpaceTimeComponentSolutionStorage_InMemory(), T.SpatialComponentSolutionStorage_InMemory()]
    comps = [S.module(COMP + 'spacetime').SpaceTimeComponent(T.ComponentStorage_InMemory(element(S, [[q[0]]]), None), stores[0]),
             S.module(COMP + 'spatial').SpatialComponent(T.ComponentStorage_InMemory(element(S, [[q[1]]]), None), stores[1])]
    obs = {t: Evidence(S, 'e%d' % t, 1, 1, time=t) for t in (3, 4)}
    loaders = [Loader(obs)]
    system = A.AnalysisSystem(comps, 'Tmean', log=Log())
    system.update(loaders, [3, 4])
    a, b = q[0], 0
    for e in obs.values():
        a, b = a + e.H[0][0] * e.p[0] * e.H[0][0], b + e.H[0][0] * e.p[0] * e.y[0]
    x = S.flat(stores[0].state_read())[0]
    S.close(a * x, b, 'the first component sees the observations of all days', tol=1e-2)
    for t, e in obs.items():
        h, p = e.H[0][0], e.p[0]
        z = S.flat(stores[1].partial_state_read(t))[0]
        S.close((q[1] + h * p * h) * z, h * p * (e.y[0] - h * x), 'the second component sees what the first leaves of its day', tol=1e-2)
        S.close(S.flat(system.evaluate_expected_value('MAP', e, 'POINTWISE'))[0], h * x + h * z, 'output is the sum of the components', tol=1e-3)
