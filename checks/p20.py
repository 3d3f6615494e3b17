"""P20: optimisation of hyperparameters: cost, gradient, partial inverse, and what is done with the result."""
import math
import types

from vf.api import harness
from checks.linear import rows, csr, native

LIN = 'eustace.analysis.advanced_standard.linalg.'
DELAYED = 'eustace.analysis.advanced_standard.components.spatialdelayed'
MEMORY = 'eustace.analysis.advanced_standard.components.storage_inmemory'
REAL = ('floating point numbers are real numbers',)
LOG = REAL + ('log is a function whose derivative is the reciprocal',)


def matmul(A, B):
    return [[sum_(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def sum_(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def transpose(A):
    return [list(r) for r in zip(*A)]


# -- partial inverse
PATTERNS = {1: [()], 2: [(), ((1, 0),)], 3: [(), ((1, 0), (2, 1)), ((2, 0), (2, 1)), ((1, 0), (2, 0), (2, 1)), ((2, 0),)],
            4: [((1, 0), (2, 1), (3, 2)), ((3, 0), (3, 1), (3, 2)), ((1, 0), (3, 2)), ((2, 0), (3, 0), (3, 2), (3, 1)), ((1, 0), (2, 0), (2, 1), (3, 1), (3, 2))]}


@harness(params=[(n, k) for n in PATTERNS for k in range(len(PATTERNS[n]))], assumptions=REAL, bounds='1 to 4 variables, 13 patterns of a factor, up to 3 orders of the variables, any values')
def partial_inverse(S, n, which):
    """The partial inverse has the values of the inverse wherever the factor has an entry, and zero elsewhere, whatever the order of the variables."""
    Q_inv = S.module(LIN + 'qinv').Q_inv
    pattern = set(PATTERNS[n][which]) | set((i, i) for i in range(n))
    L = [[0.0] * n for _ in range(n)]
    for i, j in pattern:
        L[i][j] = S.exp(S.real('d%d' % i, -0.7, 0.7)) if i == j else S.real('l%d%d' % (i, j), -2, 2)
    order = S.choice('order', [list(range(n)), list(range(n))[::-1], [(k + 1) % n for k in range(n)]][:max(1, n)])
    # factor of the permuted matrix: Q[order][:, order] = L L'
    QP = matmul(L, transpose(L))
    Q = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            Q[order[i]][order[j]] = QP[i][j]

    class Factor(object):
        def L(self):
            sp = S.sp
            ij = sorted(pattern)
            return sp.csc_matrix((S.np.array([L[i][j] for i, j in ij]), (S.np.array([i for i, j in ij]), S.np.array([j for i, j in ij]))), shape=(n, n))

        def P(self):
            return S.np.array(order)
    got = Q_inv(csr(S, Q), Factor())
    S.eq(list(S.shape(got)), [n, n], 'shape')
    got = rows(S, got)
    # inverse of L, then of the matrix
    M = [[0.0] * n for _ in range(n)]
    for j in range(n):
        for i in range(j, n):
            v = 1.0 if i == j else 0.0
            for k in range(j, i):
                v = v - L[i][k] * M[k][j]
            M[i][j] = v / L[i][i]
    inv = matmul(transpose(M), M)
    for i in range(n):
        for j in range(n):
            a, b = order.index(i), order.index(j)
            S.close(got[i][j], inv[a][b] if (max(a, b), min(a, b)) in pattern else 0.0, 'inverse at the entries of the factor', tol=1e-6)


def exact():
    """The partial inverse as the whole inverse (its values are decided by partial_inverse)."""
    from vf import symnp, symsparse, core

    def Q_inv(Q, fQ=None):
        a = symnp.obj(Q.toarray())
        n = a.shape[0]
        d = core.rexpr(symnp.det_small(a))
        out = symnp.np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = symnp.np.delete(symnp.np.delete(a, j, 0), i, 1)
                out[i, j] = core.mkreal(core.rexpr(symnp.det_small(m)) * (-1)**(i + j) / d)
        return symsparse.csc_matrix(symnp.wrap(out, symnp.F64))
    m = types.ModuleType(LIN + 'qinv')
    m.Q_inv = Q_inv
    return dict({LIN + 'qinv': m}, **native())


def spd2(S, name):
    a, c, b = S.real(name + 'a', 1, 3), S.real(name + 'c', 1, 3), S.real(name + 'b', 0.1, 0.9)
    return [[a, b], [b, c]]


def inverse2(Q):
    d = Q[0][0] * Q[1][1] - Q[0][1] * Q[1][0]
    return [[Q[1][1] / d, 0 - Q[0][1] / d], [0 - Q[1][0] / d, Q[0][0] / d]]


@harness(overrides=exact, assumptions=REAL + ('the partial inverse is the inverse (decided separately)',), bounds='2 variables that are correlated, any precision and derivative, with and without factor and partial inverse given')
def traces(S):
    """Traces and marginal variances are those of the inverse."""
    sparse = S.module(LIN + 'sparse')
    S.cramer()
    Q, D = spd2(S, 'q'), [[S.real('d%d%d' % (i, j), -2, 2) for j in range(2)] for i in range(2)]
    inv = inverse2(Q)
    want = sum_(inv[i][j] * D[j][i] for i in range(2) for j in range(2))
    given = S.choice('given', ['nothing', 'factor', 'inverse'])
    q = S.sp.csc_matrix(csr(S, Q))
    if given == 'nothing':
        got = sparse.trace_iQ_dQdp(q, csr(S, D))
    elif given == 'factor':
        class F(object):
            def L(self):
                l = [[S.sqrt(Q[0][0]), 0.0], [Q[1][0] / S.sqrt(Q[0][0]), 0.0]]
                l[1][1] = S.sqrt(Q[1][1] - l[1][0] * l[1][0])
                return S.sp.csc_matrix(csr(S, l))

            def P(self):
                return S.np.arange(2)
        got = sparse.trace_iQ_dQdp(q, csr(S, D), fQ=F())
    else:
        got = sparse.trace_iQ_dQdp(q, csr(S, D), iQp=csr(S, inv))
    S.close(got, want, 'trace', tol=1e-6)
    S.close(S.flat(sparse.marginal_variance_Q_inv(q)), [inv[0][0], inv[1][1]], 'marginal variances', tol=1e-6)
    A = [[S.real('a%d%d' % (i, j), -2, 2) for j in range(2)] for i in range(2)]
    got = S.flat(sparse.marginal_variance_Q_inv(q, csr(S, A)))
    full = matmul(matmul(A, inv), transpose(A))
    S.close(got, [full[0][0], full[1][1]], 'variances of combinations', tol=1e-6)


# -- cost and gradient
class Model(object):
    """A precision of two variables that depends on two parameters, and its derivatives."""

    def __init__(self, S):
        self.S = S
        self.c = [1.5, 0.75, 1.0]
        self.asked = []

    def q(self, p):
        c = self.c
        return [[2.0 + c[0] * p[0] * p[0], 0.25 * p[0] * p[1] * c[2]], [0.25 * p[0] * p[1] * c[2], 2.0 + c[1] * p[1]]]

    def Q(self, p, *args):
        self.asked.append(args)
        return self.S.sp.csc_matrix(csr(self.S, self.q(p)))

    def dQ(self, p, *args):
        c, k = self.c, args[-1]
        self.asked.append(args[:-1])
        return self.S.sp.csc_matrix(csr(self.S, [[2 * c[0] * p[0], 0.25 * p[1] * c[2]], [0.25 * p[1] * c[2], 0.0]] if k == 0 else [[0.0, 0.25 * p[0] * c[2]], [0.25 * p[0] * c[2], c[1]]]))


def quadratic(Q, d):
    return sum_(d[i] * Q[i][j] * d[j] for i in range(2) for j in range(2))


def logdensity(S, Q, d):
    return 0.5 * S.log(Q[0][0] * Q[1][1] - Q[0][1] * Q[1][0]) - 0.5 * quadratic(Q, d) - math.log(2 * math.pi)


def cost(S, Q, data):
    """- log prior + log posterior at the set point, summed over replicates."""
    total = 0
    for point, mean, i, D in data:
        P = [[Q[r][c] + D[r][c] for c in range(2)] for r in range(2)]
        inv = inverse2(P)
        b = [sum_(Q[r][c] * mean[c] for c in range(2)) + i[r] for r in range(2)]
        post = [sum_(inv[r][c] * b[c] for c in range(2)) for r in range(2)]
        total = total - logdensity(S, Q, [m - s for m, s in zip(mean, point)]) + logdensity(S, P, [m - s for m, s in zip(post, point)])
    return total


def replicate(S, k, any_=()):
    v = lambda n, lo, hi, fixed: S.real('%s%d' % (n, k), lo, hi) if n in any_ else fixed
    D = [[v('D', 0, 2, 0.5 + 0.25 * k), 0.25], [0.25, 0.5]]
    return [v('s', -2, 2, 1.5 - k), 0.5], [v('m', -2, 2, -0.75), -1.0 + k], [v('i', -3, 3, 2.0 + k), 0.25], D


def passed(S, data):
    a = S.np.array
    return ([a(d[0]) for d in data], [a(d[1]) for d in data], [a(d[2]) for d in data], [S.sp.csc_matrix(csr(S, d[3])) for d in data])


@harness(params=[(kind, n, k, v) for kind, n in (('single', 1), ('replicates', 1), ('replicates', 2)) for k in (0, 1) for v in ('smi', 'D')], overrides=exact, assumptions=LOG + ('the partial inverse is the inverse (decided separately)',), timeout_ms=20000,
         bounds='2 variables, 2 parameters, 1 or 2 replicates, any value of one parameter, with any first component of set point, mean and evidence, or any first precision; others fixed')
def gradient(S, kind, n, k, v):
    """The cost is the log posterior less the log prior density at the set points, and its gradient the derivative."""
    C = S.module(LIN + 'costfunction')
    S.cramer()
    m = Model(S)
    p = [S.real('p%d' % j, 0.2, 1.5) if j == k else 0.5 for j in range(2)]
    data = [replicate(S, j, v if j == n - 1 else ()) for j in range(n)]
    sets, means, infos, precisions = passed(S, data)
    extra = ('x', 7)
    if kind == 'single':
        f = C.MarginalGaussianCF(sets[0], m.Q, m.dQ)
        args = (means[0], infos[0], precisions[0], extra)
    else:
        f = C.MarginalGaussianReplicateCF_InMemory(m.Q, m.dQ)
        args = (sets, means, infos, precisions, extra)
    S.close(f.cost_function(S.np.array(p), *args), cost(S, m.q(p), data), 'cost', tol=1e-6)
    want = S.derivative(lambda v: S.np.array([f.cost_function(S.np.array([v if j == k else p[j] for j in range(2)]), *args)]), p[k])
    got = S.flat(f.cost_derivative(S.np.array(p), *args))
    S.eq(len(got), 2, 'one derivative for each parameter')
    S.close(got[k], want[0], 'derivative of the cost', tol=1e-5)
    S.check(all(a == extra for a in m.asked), 'further arguments of the precision')


# -- use of the result
def minimiser(S, seen, success, x):
    def minimize(fun, x0, args=(), method=None, jac=None, tol=None, callback=None, options=None, **k):
        seen.append((fun, x0, args, jac))
        if callback is not None:
            callback(x)

        class Result(object):
            pass
        r = Result()
        r.success, r.x = success, x
        return r
    return minimize


@harness(overrides=exact, assumptions=LOG + ('the partial inverse is the inverse (decided separately)',), bounds='2 times with any evidence, optimisation that ends well or not, any parameters')
def optimised(S):
    """A component is optimised for the evidence of all its times at their states; parameters found are taken over if the search succeeded and put back otherwise."""
    import scipy.optimize
    old = scipy.optimize.minimize
    seen = []
    success = S.fork_bool('success')
    found = [S.real('f%d' % k, 0.2, 1.5) for k in range(2)]
    scipy.optimize.minimize = minimiser(S, seen, success, S.np.array(found))
    try:
        for name in ('optimize',):
            S.module(LIN + name)
        D, M, U = S.module(DELAYED), S.module(MEMORY), S.module(LIN + 'linearsystem')
        S.cramer()
        m = Model(S)
        start = [0.4, 1.1]

        class Hyper(object):
            def __init__(self, v):
                self.v = S.np.array(v)

            def get_array(self):
                return S.np.array(S.flat(self.v))

            def set_array(self, v):
                self.v = v

        class Prior(object):
            def __init__(self, h):
                self.p = S.flat(h.get_array())

            def prior_precision(self):
                return m.Q(self.p)

            def prior_precision_derivative(self, k):
                return m.dQ(self.p, k)

        class Element(object):
            def isnonlinear(self):
                return False

            def element_prior(self, h):
                return Prior(h)
        data = [replicate(S, k, 'si' if k else ()) for k in range(2)]
        data = [(d[0], [0.0, 0.0], d[2], d[3]) for d in data]
        sets, means, infos, precisions = passed(S, data)
        st = M.SpatialComponentSolutionStorage_InMemory()
        for t, i, q, s in zip((5, 3), infos, precisions, sets):
            st.measurement_write(U.MeasurementUpdate(information_vector=i, information_precision=q), t)
            st.partial_state_write(s, t)
        h = Hyper(start)
        c = D.DelayedSpatialComponentSolution(Element(), h, st)
        c.optimize()
        (fun, x0, args, jac), = seen
        S.close(S.flat(x0), start, 'starts from the parameters there are')
        S.close(S.flat(h.get_array()), found if success else start, 'parameters found, or those before', tol=1e-9)
        p = [S.real('p', 0.2, 1.5), 0.5]
        S.close(fun(S.np.array(p), *args), cost(S, m.q(p), data), 'cost over all times', tol=1e-6)
        S.eq(len(S.flat(jac(S.np.array(p), *args))), 2, 'gradient')
    finally:
        scipy.optimize.minimize = old


@harness(params=[1, 2], overrides=native, assumptions=REAL, bounds='1 or 2 times with any evidence and any linearisation points, 2 variables, uncertainties as well')
def linearised(S, n):
    """A nonlinear component solved time by time moves each state from its own linearisation point by the solution for the evidence of that time."""
    D, M, U = S.module(DELAYED), S.module(MEMORY), S.module(LIN + 'linearsystem')
    S.cramer()
    m = Model(S)

    class Prior(object):
        def prior_precision(self):
            return csr(S, m.q([0.5, 0.5]))

        def prior_number_of_state_parameters(self):
            return 2

    class Element(object):
        def isnonlinear(self):
            return True

        def element_prior(self, h):
            return Prior()
    st = M.SpatialComponentSolutionStorage_InMemory()
    times, data = [5, 3][:n], []
    for t in times:
        i, D_, s = [S.real('i%d%d' % (t, k), -3, 3) for k in range(2)], [[S.real('D%d' % t, 0, 2), 0.25], [0.25, 0.5]], [S.real('s%d%d' % (t, k), -3, 3) for k in range(2)]
        data.append((i, D_, s))
        st.measurement_write(U.MeasurementUpdate(information_vector=S.np.array(i).reshape(2, 1), information_precision=csr(S, D_)), t)
        st.partial_state_write(S.np.array(s), t)
    c = D.DelayedSpatialComponentSolution(Element(), None, st)
    c.update()
    Q = m.q([0.5, 0.5])
    for t, (i, D_, s) in zip(times, data):
        P = inverse2([[Q[r][c] + D_[r][c] for c in range(2)] for r in range(2)])
        S.close(S.flat(st.partial_state_read(t)), [s[r] + P[r][0] * i[0] + P[r][1] * i[1] for r in range(2)], 'state moved by the solution for this time', tol=1e-6)
