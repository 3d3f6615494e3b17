"""Small linear-Gaussian systems written out by hand, shared by checks of the analysis."""

ELEM = 'eustace.analysis.advanced_standard.elements.element'


def native():
    from vf import fakectypes
    return fakectypes.modules()


def spd(S, name, lo=0.1, hi=10):
    """Symmetric positive definite 2 x 2 matrix as ((a, b), (b, c))."""
    a, c, b = S.real(name + '.a', lo, hi), S.real(name + '.c', lo, hi), S.real(name + '.b', -hi, hi)
    S.assume(a * c > b * b + 0.01)
    return [[a, b], [b, c]]


def csr(S, rows):
    return S.sp.csr_matrix(S.np.array(rows, dtype=S.np.float64))


def rows(S, M):
    """Rows of a matrix of any kind."""
    n, m = S.shape(M)
    f = S.flat(M)
    return [f[i * m:(i + 1) * m] for i in range(n)]


def vec(S, x):
    return S.flat(x)


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def information(H, p, y):
    """H' P H and H' P y by hand."""
    n = len(H[0])
    A = [[0] * n for _ in range(n)]
    b = [0] * n
    for k in range(len(H)):
        for i in range(n):
            for j in range(n):
                A[i][j] = A[i][j] + H[k][i] * p[k] * H[k][j]
            b[i] = b[i] + H[k][i] * p[k] * y[k]
    return A, b


def add(X, Y):
    return [add(x, y) if isinstance(x, list) else x + y for x, y in zip(X, Y)]


class Evidence(object):
    """m observations of n parameters: any design, precision, values and offset."""

    def __init__(self, S, name, m=2, n=2, time=0):
        self.H = [[S.real('%s.H%d%d' % (name, i, j), -5, 5) for j in range(n)] for i in range(m)]
        self.p = [S.real('%s.p%d' % (name, i), 0.1, 10) for i in range(m)]
        self.y = [S.real('%s.y%d' % (name, i), -100, 100) for i in range(m)]
        self.off = [S.real('%s.o%d' % (name, i), -100, 100) for i in range(m)]
        self.time, self.S = time, S
        self.vector = S.np.array(self.y)

    def information(self, extra=None):
        rel = [y - o - (e if extra else 0) for y, o, e in zip(self.y, self.off, extra or self.y)]
        return information(self.H, self.p, rel)

    # what the code asks of observations
    def time_index(self):
        return self.time

    def number_of_observations(self):
        return len(self.y)

    def observation_vector(self):
        return self.vector

    def observation_precision(self):
        return self.S.sp.diags(self.S.np.array(self.p), 0, format='csr')

    def kept(self):
        self.S.close(vec(self.S, self.vector), self.y, 'observations stay as they were, for the other components')

    def offset(self):
        return self.S.np.array(self.off)


def element(S, Q):
    """A linear element whose design is that of the evidence."""
    E = S.module(ELEM)

    class Design(E.ElementLinearDesign):
        def __init__(self, o):
            self.o = o

        def design_matrix(self):
            return csr(S, self.o.H)

    class Prior(E.ElementPrior):
        def prior_number_of_state_parameters(self):
            return len(Q)

        def prior_precision(self):
            return csr(S, Q)

    class Linear(E.ElementLinear):
        def element_design(self, o):
            return Design(o)

        def element_prior(self, hyperparameters):
            return Prior()

    return Linear()
