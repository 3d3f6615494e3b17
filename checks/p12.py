"""P12: solutions are the Gaussian posterior of the prior and all the evidence given, each piece counted once."""
from vf.api import harness
from checks.linear import native, spd, csr, rows, vec, dot, information, add, Evidence, element

LIN = 'eustace.analysis.advanced_standard.linalg.linearsystem'
WRAP = 'eustace.analysis.advanced_standard.linalg.pardisowrapper'
COMP = 'eustace.analysis.advanced_standard.components.'
STUB = ('the native solver library (pardiso) is modelled by its contract, arrays as they lie in memory; the replay calls the library itself',)


@harness(bounds='2 or 3 observations of 2 parameters: any design, precisions (correlated ones too) and values; up to 3 updates')
def information_adds_up(S):
    """Information of observations is H'PH and H'Py; appended updates add up and stay as they were."""
    M = S.module(LIN)
    np = S.np
    H = [[S.real('H%d%d' % (i, j), -5, 5) for j in range(2)] for i in range(3)]
    P = [[S.real('P%d%d' % (min(i, j), max(i, j)) if i <= j else 'x', -5, 5) if i <= j else None for j in range(3)] for i in range(3)]
    P = [[P[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]
    y = [S.real('y%d' % i, -100, 100) for i in range(3)]
    u = M.MeasurementUpdate.create_from_system_observations(csr(S, H), csr(S, P), np.array(y))
    for i in range(2):
        for j in range(2):
            S.close(rows(S, u.information_precision)[i][j], S.sum([H[k][i] * P[k][l] * H[l][j] for k in range(3) for l in range(3)]), 'information matrix')
        S.close(vec(S, u.information_vector)[i], S.sum([H[k][i] * P[k][l] * y[l] for k in range(3) for l in range(3)]), 'information vector')
    parts = [Evidence(S, 'e%d' % k) for k in range(2)]
    updates = [M.MeasurementUpdate.create_from_system_observations(csr(S, e.H), e.observation_precision(), np.array(e.y) - np.array(e.off)) for e in parts]

    class Prior(object):
        def prior_number_of_state_parameters(self):
            return 2
    s = M.LinearSystem(Prior())
    for x in [u] + updates:
        s.append_measurement_update(x)
    A, b = rows(S, u.information_precision), vec(S, u.information_vector)
    for e, x in zip(parts, updates):
        A2, b2 = e.information()
        S.close(sum(rows(S, x.information_precision), []), sum(A2, []), 'appended update keeps its matrix')
        S.close(vec(S, x.information_vector), b2, 'appended update keeps its vector')
        A, b = add(A, A2), add(b, b2)
    S.close(sum(rows(S, s.measurement.information_precision), []), sum(A, []), 'matrices add up')
    S.close(vec(S, s.measurement.information_vector), b, 'vectors add up')


class Fixed(object):
    def __init__(self, S, Q):
        self.S, self.Q = S, Q

    def prior_number_of_state_parameters(self):
        return len(self.Q)

    def prior_precision(self):
        return csr(self.S, self.Q)


@harness(overrides=native, assumptions=STUB, bounds='any positive definite precision of 2 parameters, any evidence; solved for 1 to 2 right-hand sides')
def posterior(S):
    """The estimate solves (Q + H'PH) x = H'Py, its standard deviations are roots of the diagonal of the inverse, and samples have that covariance."""
    M = S.module(LIN)
    Q, A = spd(S, 'Q'), spd(S, 'A', 0.1, 5)
    b = [S.real('b%d' % i, -100, 100) for i in range(2)]
    s = M.LinearSystem(Fixed(S, Q))
    s.append_measurement_update(M.MeasurementUpdate(csr(S, A), S.np.array([[v] for v in b])))
    r = M.LinearSystemSolution_Cholesky(s)
    T = add(Q, A)
    x = vec(S, r.maximum_a_posteriori())
    for i in range(2):
        S.close(dot(T[i], x), b[i], 'estimate solves the system', tol=1e-3)
    std = vec(S, r.marginal_std())
    det = T[0][0] * T[1][1] - T[0][1] * T[0][1]
    for i in range(2):
        S.check(std[i] > 0, 'standard deviations are positive')
        S.close(std[i] * std[i] * det, T[1 - i][1 - i], 'standard deviations of the posterior', tol=1e-3)


@harness(overrides=native, assumptions=STUB, bounds='any positive definite matrix of 2 parameters; white noise of 3 samples')
def samples(S):
    """White noise becomes samples of the posterior: noise of unit covariance gets the inverse of the precision, linearly."""
    M = S.module(LIN)
    Q = spd(S, 'Q')
    r = M.LinearSystemSolution_Cholesky(M.LinearSystem(Fixed(S, Q)))
    v, w = S.real('v', -10, 10), S.real('w', -10, 10)
    X = rows(S, r.white_noise_to_posterior_distribution(S.np.array([[1.0, 0.0, v], [0.0, 1.0, w]])))
    col = [[X[0][k], X[1][k]] for k in range(3)]
    for i in (0, 1):
        for j in (0, 1):
            S.close(dot([dot(Q[0], col[i]), dot(Q[1], col[i])], col[j]), 1 if i == j else 0, 'samples have the covariance of the posterior', tol=1e-4)
        S.close(col[2][i], v * col[0][i] + w * col[1][i], 'samples are linear in the noise', tol=1e-4)


@harness(overrides=native, assumptions=STUB, bounds='any positive definite matrix of 3 parameters with fixed coupling, blocks of 1, 2, 3 or all')
def blocks(S):
    """Standard deviations do not depend on the block size."""
    W = S.module(WRAP)
    d = [S.real('d%d' % k, 2, 10) for k in range(3)]
    A = [[d[0], 0.5, 0.25], [0.5, d[1], -0.5], [0.25, -0.5, d[2]]]
    block = S.choice('block', [1, 2, 3, 1000, None])
    f = W.PardisoWrapper.cholesky(csr(S, A))
    v = vec(S, f.diag_inv_A(block) if block != 1000 else f.diag_inv_A())
    det = d[0] * d[1] * d[2] + 2 * 0.5 * -0.5 * 0.25 - d[0] * 0.25 - d[1] * 0.0625 - d[2] * 0.25
    minor = [d[1] * d[2] - 0.25, d[0] * d[2] - 0.0625, d[0] * d[1] - 0.25]
    for i in range(3):
        S.close(v[i] * det, minor[i], 'diagonal of the inverse', tol=1e-3)


@harness(overrides=native, assumptions=STUB, bounds='2 parameters, 1 or 2 sets of 1 or 2 observations of one time, then another time; any design, precision, values and offsets')
def spatial(S):
    """Spatial components solve each time on its own from all sets of that time, less the offset; other times are refused until the step is complete."""
    C, T = S.module(COMP + 'spatial'), S.module(COMP + 'storage_inmemory')
    Q = spd(S, 'Q')
    store = T.SpatialComponentSolutionStorage_InMemory()
    c = C.SpatialComponent(T.ComponentStorage_InMemory(element(S, Q), None), store).component_solution()
    sets = [Evidence(S, 'e%d' % k, m, time=7) for k, m in enumerate(S.choice('sets', [[2], [1, 1], [1, 2]]))]
    later = Evidence(S, 'later', 1, time=8)
    for e in sets:
        c.process_observations(e, e.offset())
        e.kept()
    S.raises(ValueError, c.process_observations, 'observations of another time before the step is complete', later, later.offset())
    c.update_time_step()
    c.process_observations(later, later.offset())
    c.update_time_step()
    c.update_time_step()        # nothing more to do
    c.update()
    for time, group in ((7, sets), (8, [later])):
        A, b = Q, [0, 0]
        for e in group:
            A2, b2 = e.information()
            A, b = add(A, A2), add(b, b2)
        x = vec(S, store.partial_state_read(time))
        for i in range(2):
            S.close(dot(A[i], x), b[i], 'state of a time solves its own system', tol=1e-2)
        o = Evidence(S, 'out%d' % time, 1, time=time)
        S.close(vec(S, c.solution_observation_expected_value(o))[0], dot(o.H[0], x), 'expected value is the design at the state', tol=1e-3)
    none = Evidence(S, 'none', 1, time=9)
    S.eq(vec(S, c.solution_observation_expected_value(none)), [0], 'zero where nothing was solved')
    S.check(store.partial_state_read(9) is None, 'no state of a time without observations')


@harness(overrides=native, assumptions=STUB, bounds='2 parameters, 3 times with 0 to 2 sets of observations; any design, precision, values and offsets')
def spacetime(S):
    """Space-time components solve one system from the evidence of all times; times without observations add nothing."""
    C, T = S.module(COMP + 'spacetime'), S.module(COMP + 'storage_inmemory')
    Q = spd(S, 'Q')
    store = T.SpaceTimeComponentSolutionStorage_InMemory()
    make = C.SpaceTimeComponent(T.ComponentStorage_InMemory(element(S, Q), None), store)
    plan = S.choice('plan', [[1, 0, 1], [2, 1, 0], [0, 0, 1]])
    A, b = Q, [0, 0]
    for t, n in enumerate(plan):
        c = make.component_solution()
        for k in range(n):
            e = Evidence(S, 'e%d.%d' % (t, k), 1, time=t)
            c.process_observations(e, e.offset())
            e.kept()
            A2, b2 = e.information()
            A, b = add(A, A2), add(b, b2)
        c.update_time_step()
    c = make.component_solution()
    first = Evidence(S, 'first', 1)
    S.eq(vec(S, c.solution_observation_expected_value(first)), [0], 'zero before the first solution')
    merged = c.merge_updates()
    again = c.merge_updates()
    S.close(vec(S, merged.information_vector), b, 'merged evidence is the sum over times', tol=1e-3)
    S.close(vec(S, again.information_vector), b, 'merging leaves the evidence as it was', tol=1e-3)
    S.close(sum(rows(S, again.information_precision), []), sum([[v - q for v, q in zip(r, s)] for r, s in zip(A, Q)], []), 'merged information matrix', tol=1e-3)
    c.update()
    x = vec(S, store.state_read())
    for i in range(2):
        S.close(dot(A[i], x), b[i], 'state solves the system of all times', tol=1e-2)
    o = Evidence(S, 'out', 1, time=5)
    S.close(vec(S, c.solution_observation_expected_value(o))[0], dot(o.H[0], x), 'expected value is the design at the state', tol=1e-3)


@harness(overrides=native, assumptions=STUB, bounds='2 parameters, 2 times with 1 or 2 sets of observations; any design, precision, values and offsets')
def delayed(S):
    """Delayed spatial components keep the evidence of each time and solve each on its own."""
    C, T = S.module(COMP + 'spatialdelayed'), S.module(COMP + 'storage_inmemory')
    Q = spd(S, 'Q')
    store = T.SpatialComponentSolutionStorage_InMemory()
    c = C.DelayedSpatialComponent(T.ComponentStorage_InMemory(element(S, Q), None), store).component_solution()
    want = {}
    for t, n in ((3, 2), (4, 1)):
        A, b = Q, [0, 0]
        for k in range(n):
            e = Evidence(S, 'e%d.%d' % (t, k), 1, time=t)
            c.process_observations(e, e.offset())
            e.kept()
            A2, b2 = e.information()
            A, b = add(A, A2), add(b, b2)
        want[t] = (A, b)
        if t == 3:
            later = Evidence(S, 'later', 1, time=4)
            S.raises(ValueError, c.process_observations, 'observations of another time before the step is complete', later, later.offset())
        c.update_time_step()
    c.update()
    for t, (A, b) in want.items():
        x = vec(S, store.partial_state_read(t))
        for i in range(2):
            S.close(dot(A[i], x), b[i], 'state of a time solves its own system', tol=1e-2)
        o = Evidence(S, 'out%d' % t, 1, time=t)
        S.close(vec(S, c.solution_observation_expected_value(o))[0], dot(o.H[0], x), 'expected value is the design at the state', tol=1e-3)


@harness(overrides=native, assumptions=STUB, bounds='2 parameters, spatial, space-time and delayed components with uncertainties; any precision and design of 1 observation')
def uncertainties(S):
    """Stored uncertainties are those of the posterior, and projected ones add up magnitudes of the design times them."""
    T = S.module(COMP + 'storage_inmemory')
    kind = S.choice('kind', ['spatial', 'spacetime', 'delayed'])
    Q = [[S.real('q0', 0.5, 5), 0], [0, S.real('q1', 0.5, 5)]]
    e = Evidence(S, 'e', 1, time=3)
    st = T.SpaceTimeComponentSolutionStorage_InMemory() if kind == 'spacetime' else T.SpatialComponentSolutionStorage_InMemory()
    cls = {'spatial': ('spatial', 'SpatialComponent'), 'spacetime': ('spacetime', 'SpaceTimeComponent'), 'delayed': ('spatialdelayed', 'DelayedSpatialComponent')}[kind]
    make = getattr(S.module(COMP + cls[0]), cls[1])
    c = make(T.ComponentStorage_InMemory(element(S, Q), None), st, compute_uncertainties=True).component_solution()
    c.process_observations(e, e.offset())
    e.kept()
    c.update_time_step()
    c.update()
    sd = vec(S, st.state_marginal_std_read() if kind == 'spacetime' else st.partial_state_marginal_std_read(3))
    A = add(Q, e.information()[0])
    det = A[0][0] * A[1][1] - A[0][1] * A[0][1]
    for i in range(2):
        S.check(sd[i] > 0, 'standard deviations are positive')
        S.close(sd[i] * sd[i] * det, A[1 - i][1 - i], 'standard deviations of the posterior', tol=1e-2)
    o = Evidence(S, 'out', 1, time=3)
    mag = [S.ite(h >= 0, h, -h) for h in o.H[0]]
    S.close(vec(S, c.solution_observation_expected_uncertainties(o))[0], dot(mag, sd), 'projected uncertainty', tol=1e-3)


class Noise(object):
    """Stand-in for the generator of random numbers while a component is solved."""

    def __init__(self, S, module):
        self.S, self.numpy, self.asked = S, module.numpy, []

    def draw(self, loc=0.0, scale=1.0, size=None):
        self.asked.append((loc, scale, size))
        n, m = size
        return self.S.np.array([[1.0 if (i - j) % n == 0 else 0.0 for j in range(m)] for i in range(n)])

    def __enter__(self):
        r = self.numpy.random
        self.old = {k: getattr(r, k) for k in ('normal', 'standard_normal', 'randn')}
        r.normal = self.draw
        r.standard_normal = lambda size=None: self.draw(size=size)
        r.randn = lambda *s: self.draw(size=s)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.numpy.random, k, v)


@harness(params=[('spatial', False), ('spatial', True), ('spacetime', False), ('spacetime', True), ('delayed', False)], overrides=native, assumptions=STUB + ('random numbers are unit vectors, so that samples show the root of the covariance',),
         bounds='2 parameters, 1 set of evidence, any prior, 1, 2 or 4 samples')
def component_samples(S, kind, prior):
    """Samples asked for are samples of the posterior of the time (or of all times), prior samples of the prior; they are projected by the design. Without being asked there are none."""
    T, L = S.module(COMP + 'storage_inmemory'), S.module(LIN)
    Q = [[S.real('q0', 0.5, 5), 0.25], [0.25, S.real('q1', 0.5, 5)]]
    e = Evidence(S, 'e', 1, time=3)
    st = T.SpaceTimeComponentSolutionStorage_InMemory() if kind == 'spacetime' else T.SpatialComponentSolutionStorage_InMemory()
    cls = {'spatial': ('spatial', 'SpatialComponent'), 'spacetime': ('spacetime', 'SpaceTimeComponent'), 'delayed': ('spatialdelayed', 'DelayedSpatialComponent')}[kind]
    make = getattr(S.module(COMP + cls[0]), cls[1])
    asked = S.fork_bool('asked') if not prior else True
    m = S.choice('samples', [1, 2, 4])
    args = {'compute_prior_sample': True} if prior else {}
    read = lambda name: getattr(st, 'state_%s_read' % name)() if kind == 'spacetime' else getattr(st, 'partial_state_%s_read' % name)(3)
    with Noise(S, S.module(COMP + cls[0])) as noise:
        c = make(T.ComponentStorage_InMemory(element(S, Q), None), st, compute_sample=asked, sample_size=m, **args).component_solution()
        o = Evidence(S, 'out', 1, time=3)
        S.eq(S.flat(c.solution_observation_projected_sample(o)), [0] * m, 'zero before the first solution')
        c.process_observations(e, e.offset())
        e.kept()
        c.update_time_step()
        c.update()
    got = read('sample')
    if kind != 'spacetime' or not prior:
        S.check((got is not None) == asked, 'samples exactly if asked for')
    P = read('prior_sample')
    S.check((P is not None) == prior, 'prior samples exactly if asked for')
    A = add(Q, e.information()[0])
    for name, X, M in (('posterior', got, A), ('prior', P, Q)):
        if X is None:
            continue
        if m == 1 and list(S.shape(X)) == [2]:
            X = X.reshape(2, 1)
        S.eq(list(S.shape(X)), [2, m], 'number of samples')
        X = rows(S, X)
        col = [[X[0][k], X[1][k]] for k in range(m)]
        for i in range(m):
            for j in range(m):
                S.close(dot([dot(M[0], col[i]), dot(M[1], col[i])], col[j]), 1 if (i - j) % 2 == 0 else 0, 'samples of the ' + name, tol=1e-3)
        if name == 'posterior':
            S.close(S.flat(c.solution_observation_projected_sample(o)), [dot(o.H[0], col[k]) for k in range(m)], 'samples seen through the design', tol=1e-3)


@harness(params=[('spacetime',), ('delayed',)], overrides=native, assumptions=STUB, bounds='2 parameters, 2 times with 1 observation each; two rounds from any state')
def nonlinear(S, kind):
    """Components of nonlinear elements start from the state of the element, subtract what it explains, and move the state by the solution; the next round starts there."""
    C, T, E = S.module(COMP + 'spacetime'), S.module(COMP + 'storage_inmemory'), S.module('eustace.analysis.advanced_standard.elements.element')
    Q = [[S.real('q0', 0.5, 5), 0.25], [0.25, S.real('q1', 0.5, 5)]]
    start = [S.real('x%d' % k, -5, 5) for k in range(2)]

    class Design(object):
        def __init__(self, o):
            self.o = o

        def design_initial_state(self):
            return S.np.array(start)

        def design_function(self, x, rectified=False):
            f = S.flat(x)
            return S.np.array([h[0] * f[0] + h[1] * f[1] + f[0] * f[1] for h in self.o.H])

        def design_jacobian(self, x):
            f = S.flat(x)
            return csr(S, [[h[0] + f[1], h[1] + f[0]] for h in self.o.H])

    class Prior(E.ElementPrior):
        def prior_number_of_state_parameters(self):
            return 2

        def prior_precision(self):
            return csr(S, Q)

    class Element(object):
        def isnonlinear(self):
            return True

        def element_design(self, o):
            return Design(o)

        def element_prior(self, h):
            return Prior()
    if kind == 'delayed':
        return nonlinear_by_time(S, Element(), T, start, Q)
    st = T.SpaceTimeComponentSolutionStorage_InMemory()
    c = C.SpaceTimeComponent(T.ComponentStorage_InMemory(Element(), None), st).component_solution()
    o = Evidence(S, 'o', 1, time=9)
    S.close(vec(S, c.solution_observation_expected_value(o)), vec(S, Design(o).design_function(S.np.array(start))), 'initial state before the first solution', tol=1e-6)
    again = S.fork_bool('again')
    x = start
    if again:
        x = [S.real('z%d' % k, -5, 5) for k in range(2)]
        st.state_write(S.np.array(x))
    A, b = Q, [0, 0]
    for t in (0, 1):
        e = Evidence(S, 'e%d' % t, 1, time=t)
        c.process_observations(e, e.offset())
        e.kept()
        c.update_time_step()
        J = [e.H[0][0] + x[1], e.H[0][1] + x[0]]
        r = e.y[0] - e.off[0] - (e.H[0][0] * x[0] + e.H[0][1] * x[1] + x[0] * x[1])
        A = add(A, [[J[i] * e.p[0] * J[j] for j in range(2)] for i in range(2)])
        b = add(b, [J[i] * e.p[0] * r for i in range(2)])
    c.update()
    y = vec(S, st.state_read())
    S.eq(len(y), 2, 'a state')
    d = [y[k] - x[k] for k in range(2)]
    for i in range(2):
        S.close(dot(A[i], d), b[i], 'state moves by the solution of the linearised system', tol=1e-2)


def nonlinear_by_time(S, element, T, start, Q):
    """The same for components solved time by time: each time from its own state."""
    st = T.SpatialComponentSolutionStorage_InMemory()
    c = S.module(COMP + 'spatialdelayed').DelayedSpatialComponent(T.ComponentStorage_InMemory(element, None), st).component_solution()
    again = S.fork_bool('again')
    data = []
    for t in (4, 2):
        x = start
        if again and t == 2:
            x = [S.real('z%d' % k, -5, 5) for k in range(2)]
            st.partial_state_write(S.np.array(x), t)
        e = Evidence(S, 'e%d' % t, 1, time=t)
        c.process_observations(e, e.offset())
        e.kept()
        c.update_time_step()
        data.append((t, x, e))
    c.update()
    for t, x, e in data:
        J = [e.H[0][0] + x[1], e.H[0][1] + x[0]]
        r = e.y[0] - e.off[0] - (e.H[0][0] * x[0] + e.H[0][1] * x[1] + x[0] * x[1])
        A = add(Q, [[J[i] * e.p[0] * J[j] for j in range(2)] for i in range(2)])
        y = vec(S, st.partial_state_read(t))
        S.eq(len(y), 2, 'a state')
        for i in range(2):
            S.close(dot(A[i], [y[k] - x[k] for k in range(2)]), J[i] * e.p[0] * r, 'state of a time moves by the solution of its linearised system', tol=1e-2)
