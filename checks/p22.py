"""P22: projection of component states and samples onto a grid."""
import math

from vf.api import harness
from checks.linear import rows

PROJECTOR = 'eustace.analysis.advanced_standard.fileio.output_projector'
MEMORY = 'eustace.analysis.advanced_standard.components.storage_inmemory'
REAL = ('floating point numbers are real numbers',)
GRIDS = [([0.5], [10.0]), ([-30.0, 30.0], [-60.0, 60.0]), ([60.0, 20.0, -20.0], [100.0]), ([-82.5, 82.5], [-90.0, 0.0, 90.0])]


class Element(object):
    """Any design, depending on the places asked for."""

    def __init__(self, S, m):
        self.S, self.m, self.asked, self.w = S, m, [], {}

    def weight(self, lat, lon, j):
        key = (round(lat, 6), round(lon, 6), j)
        if key not in self.w:
            self.w[key] = self.S.real('a%s' % '/'.join(map(str, key)), -3, 3)
        return self.w[key]

    def element_design(self, structure):
        S = self.S
        at = rows(S, structure.location_polar_coordinates())
        self.asked.append((structure.time_index(), structure.time_datetime()))
        M = [[self.weight(float(p[0]), float(p[1]), j) for j in range(self.m)] for p in at]

        class Design(object):
            def design_matrix(self):
                return S.sp.csr_matrix(S.np.array(M, dtype=S.np.float64))
        return Design()


class Component(object):
    def __init__(self, element, solutionstorage):
        self.element, self.solutionstorage, self.storage = element, solutionstorage, self

    def element_read(self):
        return self.element


def projector(S, grid, resolution, sampling, blocking=1, time=40000):
    return S.module(PROJECTOR).Projector(S.np.array(grid[0]), S.np.array(grid[1]), resolution, time, sampling, blocking)


def wanted(el, grid, resolution, sampling, m):
    """Area weighted means of the design over points of each cell."""
    out = []
    for lat in grid[0]:
        for lon in grid[1]:
            total, row = 0.0, [0.0] * m
            for i in range(sampling[0]):
                for j in range(sampling[1]):
                    a, o = lat - resolution[0] / 2.0 + (i + 0.5) * resolution[0] / sampling[0], lon - resolution[1] / 2.0 + (j + 0.5) * resolution[1] / sampling[1]
                    w = math.cos(math.radians(a))
                    total += w
                    row = [r + w * el.weight(a, o, k) for k, r in enumerate(row)]
            out.append([r / total for r in row])
    return out


@harness(params=[(g, a, o) for g in range(len(GRIDS)) for a, o in ((1, 1), (2, 1), (1, 3), (3, 2))], assumptions=REAL, bounds='4 grids of 1 to 6 cells, 1 to 3 by 1 to 3 points a cell, 2 variables, any design')
def cells(S, which, a, o):
    """The projection of a cell is the area weighted mean of the design over points spread evenly over the cell."""
    grid, resolution, sampling = GRIDS[which], (12.0, 30.0), (a, o)
    el = Element(S, 2)
    p = projector(S, grid, resolution, sampling)
    p.set_component(Component(el, S.module(MEMORY).SpaceTimeComponentSolutionStorage_InMemory()))
    p.evaluate_design_matrix()
    want = wanted(el, grid, resolution, sampling, 2)
    S.eq(list(S.shape(p.design_matrix)), [len(want), 2], 'a row for each cell')
    got = rows(S, p.design_matrix)
    S.eq(len(el.w), len(grid[0]) * len(grid[1]) * a * o * 2, 'points of the cells and no others')
    for g, w in zip(got, want):
        S.close(g, w, 'mean over the cell', tol=1e-6)
    S.check(all(t[0] == 40000 for t in el.asked), 'time of the projection')


def stored(S, kind, n, m, times=(40000, 40001)):
    """Storage with a state, samples and prior samples for each time."""
    M = S.module(MEMORY)
    st = M.SpatialComponentSolutionStorage_InMemory() if kind == 'spatial' else M.SpaceTimeComponentSolutionStorage_InMemory()
    held = {}
    for t in times if kind == 'spatial' else times[:1]:
        x = [S.real('x%d.%d' % (t, i), -9, 9) for i in range(n)]
        xs = [[S.real('s%d.%d.%d' % (t, i, k), -9, 9) for k in range(m)] for i in range(n)]
        ps = [[S.real('p%d.%d.%d' % (t, i, k), -9, 9) for k in range(m)] for i in range(n)]
        a = lambda v: S.np.array(v, dtype=S.np.float64)
        if kind == 'spatial':
            st.partial_state_write(a(x), t)
            st.partial_state_sample_write(a(xs), t)
            st.partial_state_prior_sample_write(a(ps), t)
        else:
            st.state_write(a(x))
            st.state_sample_write(a(xs))
            st.state_prior_sample_write(a(ps))
        held[t] = (x, xs, ps)
    return st, held


CHOSEN = {'chosen': (2, 0), 'first': (0,), 'array': (0, 2, 1), 'none': ()}


@harness(params=[(kind, b) for kind in ('spatial', 'spacetime') for b in (1, 2, 3)], assumptions=REAL, bounds='2 variables, 3 samples, 3 cells in 1 to 3 blocks, any states, samples and design; other times; states missing')
def states(S, kind, blocking):
    """States and samples of the time and component set are projected: expected value, chosen samples, their deviation from nothing and their standard deviation."""
    grid, resolution = GRIDS[2], (12.0, 30.0)
    el = Element(S, 2)
    st, held = stored(S, kind, 2, 3)
    p = projector(S, grid, resolution, (1, 1), blocking)
    c = Component(el, st)
    p.set_component(c)
    A = [[S.real('A%d%d' % (r, k), -3, 3) for k in range(2)] for r in range(3)]
    p.design_matrix = S.sp.csr_matrix(S.np.array(A, dtype=S.np.float64))
    mul = lambda v: [A[r][0] * v[0] + A[r][1] * v[1] for r in range(3)]
    what = S.choice('what', ['value', 'samples', 'chosen', 'first', 'array', 'none', 'deviation', 'prior', 'std', 'priorstd', 'time'])
    t = 40000
    if what == 'time':
        t = 40001
        p.update_time_index(t, keep_design=True)
        p.set_component(c, keep_design=True)
        what = 'value'
    x, xs, ps = held[t if kind == 'spatial' else 40000]
    col = lambda v, k: [r[k] for r in v]
    if what == 'value':
        S.close(S.flat(p.project_expected_value()), mul(x), 'expected value', tol=1e-6)
    elif what == 'samples':
        got = rows(S, p.project_sample_values())
        for k in range(3):
            S.close([g[k] for g in got], mul(col(xs, k)), 'all samples', tol=1e-6)
    elif what in CHOSEN:
        ask = CHOSEN[what]
        got = p.project_sample_values(sample_indices=S.np.array(ask) if what == 'array' else list(ask))
        S.eq(list(S.shape(got)), [3, len(ask)], 'a column for each sample chosen')
        got = rows(S, got) if ask else []
        for n, k in enumerate(ask):
            S.close([g[n] for g in got], mul(col(xs, k)), 'samples chosen', tol=1e-6)
    else:
        v = ps if what.startswith('prior') else xs
        each = [mul(col(v, k)) for k in range(3)]
        for_std = what.endswith('std')
        got = p.project_sample_std(prior=what.startswith('prior')) if for_std else p.project_sample_deviation(prior=what.startswith('prior'))
        S.eq(list(S.shape(got)), [3, 1], 'a deviation for each cell')
        got = S.flat(got)
        for r in range(3):
            e = [each[k][r] for k in range(3)]
            mean = (e[0] + e[1] + e[2]) / 3 if for_std else 0
            S.check(got[r] >= 0, 'deviations are not negative')
            S.close(got[r] * got[r] * 3, sum((y - mean) * (y - mean) for y in e), 'deviation of the samples', tol=1e-6)


@harness(params=['spatial', 'spacetime'], assumptions=REAL, bounds='storage without states')
def nothing(S, kind):
    """Without a state nothing is projected; storage of unknown kind is refused; a new time or component needs a new design unless kept."""
    M = S.module(MEMORY)
    st = M.SpatialComponentSolutionStorage_InMemory() if kind == 'spatial' else M.SpaceTimeComponentSolutionStorage_InMemory()
    p = projector(S, GRIDS[1], (12.0, 30.0), (1, 1))
    el = Element(S, 2)
    p.set_component(Component(el, st))
    p.evaluate_design_matrix()
    for got in (p.project_expected_value(), p.project_sample_values(), p.project_sample_std(), p.project_sample_deviation(), p.project_sample_std(prior=True), p.project_sample_deviation(prior=True)):
        S.check(got is None, 'nothing without a state')
    S.raises(TypeError, lambda: p.set_component(Component(el, object())), 'unknown storage is refused')
    d = p.design_matrix
    p.update_time_index(40001, keep_design=True)
    S.check(p.design_matrix is d, 'design kept')
    p.set_component(Component(el, st), keep_design=True)
    S.check(p.design_matrix is d, 'design kept')
    if S.fork_bool('time'):
        p.update_time_index(40002)
    else:
        p.set_component(Component(el, st))
    S.check(p.design_matrix is None, 'design dropped')
    p.evaluate_design_matrix()
    S.eq(el.asked[-1][0], p.time_index, 'time of the new design')
    days = S.module('eustace.timeutils.epoch')
    S.check(el.asked[-1][1] == days.epoch_plus_days(p.time_index), 'date of the new design')


@harness(params=['spatial', 'spacetime'], assumptions=REAL, bounds='storage with every subset of state, samples and prior samples')
def some_states(S, kind):
    """Only what is stored is projected: samples do not stand in for prior samples, nor the other way."""
    M = S.module(MEMORY)
    st = M.SpatialComponentSolutionStorage_InMemory() if kind == 'spatial' else M.SpaceTimeComponentSolutionStorage_InMemory()
    a = lambda n, m: S.np.array([[S.real('%s%d%d' % (n, i, k), -9, 9) for k in range(m)] for i in range(2)], dtype=S.np.float64)
    have = [S.fork_bool(k) for k in ('state', 'sample', 'prior_sample')]
    for k, there in zip(('state', 'state_sample', 'state_prior_sample'), have):
        if there:
            v = a(k, 1).ravel() if k == 'state' else a(k, 2)
            if kind == 'spatial':
                getattr(st, 'partial_' + k + '_write')(v, 40000)
            else:
                getattr(st, k + '_write')(v)
    p = projector(S, GRIDS[1], (12.0, 30.0), (1, 1))
    p.set_component(Component(Element(S, 2), st))
    p.evaluate_design_matrix()
    S.eq(p.project_expected_value() is not None, have[0], 'expected value where there is a state')
    S.eq(p.project_sample_values() is not None, have[1], 'samples where there are samples')
    S.eq(p.project_sample_std() is not None, have[1], 'standard deviation where there are samples')
    S.eq(p.project_sample_deviation() is not None, have[1], 'deviation where there are samples')
    S.eq(p.project_sample_std(prior=True) is not None, have[2], 'prior standard deviation where there are prior samples')
    S.eq(p.project_sample_deviation(prior=True) is not None, have[2], 'prior deviation where there are prior samples')


class Opened(object):
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@harness(assumptions=REAL + ('pickling is replaced by a record of the object written under each name, in the replay too',), bounds='2 projections of different grids, samplings and times saved and loaded in any order, any design')
def saved(S):
    """A projection loaded is the one saved under its name: same design, and evaluated anew for the same cells, points and time."""
    import pickle
    M = S.module(PROJECTOR)
    M.open = M._py2_open = lambda name, *a, **k: Opened(name)
    disk = {}
    kept = pickle.dump, pickle.load
    pickle.dump = lambda o, f, *a, **k: disk.__setitem__(f.name, o)
    pickle.load = lambda f, *a, **k: disk[f.name]
    for n in ('dump', 'load'):
        if hasattr(M, n):
            setattr(M, n, getattr(pickle, n))
    try:
        made = {}
        for name, grid, sampling, time in (('a', GRIDS[1], (2, 1), 40000), ('b', GRIDS[2], (1, 3), 50000)):
            el = Element(S, 2)
            p = projector(S, grid, (12.0, 30.0), sampling, 1, time)
            c = Component(el, S.module(MEMORY).SpaceTimeComponentSolutionStorage_InMemory())
            p.set_component(c)
            p.evaluate_design_matrix()
            p.save_projection(name)
            made[name] = (el, c, grid, sampling, time)
        for name in S.choice('order', ['ab', 'ba']):
            el, c, grid, sampling, time = made[name]
            p = M.Projector.load_projection(name)
            want = wanted(el, grid, (12.0, 30.0), sampling, 2)
            S.eq(p.time_index, time, 'time of the projection saved')
            for again in (False, True):
                if again:
                    p.set_component(c)
                    p.evaluate_design_matrix()
                S.eq(list(S.shape(p.design_matrix)), [len(want), 2], 'a row for each cell')
                for g, w in zip(rows(S, p.design_matrix), want):
                    S.close(g, w, 'design saved', tol=1e-6)
    finally:
        pickle.dump, pickle.load = kept
