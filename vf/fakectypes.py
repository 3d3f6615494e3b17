"""A stand-in for ctypes with the one native function the code calls: pardiso of Intel MKL, by its documented contract.

Arrays arrive as symnp.Memory: the elements in the order they have in memory, as the native side would see them."""

import types

import numpy as np

from . import core, symnp
from .core import Unsupported


class Box(object):
    def __init__(self, value=0):
        self.value = value


def root(x):
    """Root of a positive number (which the matrix being positive definite guarantees)."""
    if not isinstance(x, core.Sym):
        return core.sqrt(x)
    c = core.ctx()
    s = c.fresh_real('sqrt')
    c.add(s > 0)
    c.add(s * s == core.rexpr(x))
    return core.SymReal(s)


def quotient(x, y):
    if not isinstance(y, core.Sym):
        return x / y
    if not isinstance(x, core.Sym) and x == 0:
        return 0.0
    c = core.ctx()
    q = c.fresh_real('quot')
    c.add(q * core.rexpr(y) == core.rexpr(core.plain(x)))
    return core.SymReal(q)


def cholesky(A):
    """Lower triangle L with L L' = A."""
    n = A.shape[0]
    L = np.zeros((n, n), dtype=object)
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        L[j, j] = root(s)
        for i in range(j + 1, n):
            s = A[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            L[i, j] = quotient(s, L[j, j])
    return L


def substitute(L, cols, upper):
    """x with L x = b (or L' x = b) for every column b."""
    n = L.shape[0]
    out = []
    for b in cols:
        x = [None] * n
        for i in (reversed(range(n)) if upper else range(n)):
            s = b[i]
            for k in (range(i + 1, n) if upper else range(i)):
                s = s - (L[k, i] if upper else L[i, k]) * x[k]
            x[i] = quotient(s, L[i, i])
        out.append(x)
    return out


class Pardiso(object):
    argtypes = None

    def __init__(self):
        self.factors = {}

    def __call__(self, pt, maxfct, mnum, mtype, phase, n, a, ia, ja, perm, nrhs, iparm, msglvl, b, x, error):
        n, nrhs, phase = int(n.value), int(nrhs.value), int(phase.value)
        handle = pt.read()
        if phase == -1:
            self.factors.pop(handle[0], None)
            return
        iparm = [int(v) for v in iparm.read()]
        if mtype.value != 2 or not iparm[0]:
            raise Unsupported('pardiso with these parameters')
        base = 0 if iparm[34] else 1
        # reversed order stands for whatever order the library picks
        order = list(reversed(range(n)))
        if phase == 12:
            ia, ja, values = [int(v) - base for v in ia.read()], [int(v) - base for v in ja.read()], a.read()
            A = np.zeros((n, n), dtype=object)
            for i in range(n):
                row = ja[ia[i]:ia[i + 1]]
                if i not in row or row != sorted(row) or any(j < i for j in row):
                    error.value = -1
                    return
                for k in range(ia[i], ia[i + 1]):
                    A[i, ja[k]] = A[ja[k], i] = values[k]
            core.ctx().assumptions.add('matrices handed to the solver library are positive definite; the library solves by its contract')
            self.factors[len(self.factors) + 1] = (A, [])
            pt.write([len(self.factors)] + handle[1:])
            return
        A, L = self.factors[handle[0]]
        flat = b.read()
        if len(flat) != n * nrhs:
            raise Unsupported('right-hand side of another size')
        cols = [flat[k * n:(k + 1) * n] for k in range(nrhs)]
        if phase == 33:
            B = np.empty((n, nrhs), dtype=object)
            for k in range(nrhs):
                for i in range(n):
                    B[i, k] = cols[k][i]
            r = symnp.obj(symnp.solve_contract(symnp.wrap(A, symnp.F64), symnp.wrap(B, symnp.F64)))
            out = [r[:, k].tolist() for k in range(nrhs)]
        else:
            if not L:
                L.append(cholesky(A[np.ix_(order, order)]))
            if phase == 331:
                out = substitute(L[0], [[c[i] for i in order] for c in cols], False)
            elif phase == 333:
                out = [[c[order.index(i)] for i in range(n)] for c in substitute(L[0], cols, True)]
            else:
                raise Unsupported('pardiso phase %d' % phase)
        x.write([v for c in out for v in c])


class Library(object):
    def __init__(self, name):
        self.pardiso = Pardiso()


def modules():
    m = types.ModuleType('ctypes')
    m.CDLL = Library
    m.c_int32 = m.c_int64 = m.c_double = m.c_void_p = Box
    m.POINTER = lambda t: t
    m.byref = lambda v: v
    m.sizeof = lambda t: 8
    return {'ctypes': m}
