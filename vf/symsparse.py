"""Stand-in for scipy.sparse over symbolic values: dense storage plus the structural pattern scipy would keep."""

import types

import numpy as np
import scipy.sparse

from . import core, symnp
from .core import Sym, Unsupported
from .symnp import SymArray, F64, BOOL, obj, wrap, rewrap, guess_ld, has_sym


def _nz(x):
    return isinstance(x, Sym) or x != 0


def _pattern(a):
    flat = [_nz(v) for v in a.ravel().tolist()]
    return np.array(flat, dtype=bool).reshape(a.shape)


class Sparse(object):
    _vf_sparse = True
    __array_priority__ = 1000
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, arg, shape=None, dtype=None, copy=False, fmt=None, pat=None):
        self.format = fmt or self._fmt
        if isinstance(arg, Sparse):
            self.a, self.pat, ld = arg.a.copy(), arg.pat.copy(), arg.ld
        elif scipy.sparse.issparse(arg):
            c = arg.tocoo()
            self.a = np.asarray(arg.toarray()).astype(object)
            self.pat = np.zeros(arg.shape, bool)
            self.pat[c.row, c.col] = True
            ld = arg.dtype
        elif isinstance(arg, tuple) and len(arg) == 2 and not isinstance(arg[0], (tuple, list, np.ndarray)) and \
                not isinstance(arg[1], (tuple, list, np.ndarray)):
            n, m = symnp._ix(arg[0]), symnp._ix(arg[1])
            ld = np.dtype(symnp.dt(dtype) if dtype is not None else F64)
            self.a = np.empty((n, m), dtype=object)
            self.a[...] = symnp.cast(0, ld)
            self.pat = np.zeros((n, m), bool)
        elif isinstance(arg, tuple) and len(arg) == 2:
            data, ij = arg
            ld = guess_ld(data)
            data = obj(data).ravel().tolist()
            i, j = [[symnp._ix(v) for v in obj(x).ravel().tolist()] for x in ij]
            if shape is None:
                shape = (max(i) + 1, max(j) + 1)
            shape = tuple(symnp._ix(s) for s in shape)
            if len(data) == 1 and len(i) > 1:
                data = data * len(i)
            if not (len(data) == len(i) == len(j)):
                raise ValueError('row, column, and data array must all be the same length')
            if any(not 0 <= x < shape[0] for x in i):
                raise ValueError('row index exceeds matrix dimensions')
            if any(not 0 <= x < shape[1] for x in j):
                raise ValueError('column index exceeds matrix dimensions')
            self.a = np.empty(shape, dtype=object)
            self.a[...] = symnp.cast(0, ld)
            self.pat = np.zeros(shape, bool)
            for v, r, c in zip(data, i, j):
                self.a[r, c] = self.a[r, c] + v if self.pat[r, c] else v
                self.pat[r, c] = True
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, indices, indptr = arg
            ld = guess_ld(data)
            data = obj(data).ravel().tolist()
            indices = [symnp._ix(v) for v in obj(indices).ravel().tolist()]
            indptr = [symnp._ix(v) for v in obj(indptr).ravel().tolist()]
            if shape is None:
                shape = (len(indptr) - 1, max(indices) + 1)
                if self.format == 'csc':
                    shape = shape[::-1]
            self.a = np.empty(shape, dtype=object)
            self.a[...] = symnp.cast(0, ld)
            self.pat = np.zeros(shape, bool)
            for major in range(len(indptr) - 1):
                for k in range(indptr[major], indptr[major + 1]):
                    r, c = (major, indices[k]) if self.format != 'csc' else (indices[k], major)
                    self.a[r, c] = self.a[r, c] + data[k] if self.pat[r, c] else data[k]
                    self.pat[r, c] = True
        else:
            x = arg
            ld = guess_ld(x)
            a = obj(x)
            if a.ndim == 1:
                a = a[None, :]
            if a.ndim == 0:
                a = a.reshape(1, 1)
            self.a = a.copy()
            self.pat = _pattern(self.a)
        if pat is not None:
            self.pat = pat
        if dtype is not None:
            ld = np.dtype(symnp.dt(dtype))
            self.a = symnp.map1(lambda v: symnp.cast(v, ld), self.a)
        self.ld = np.dtype(ld)
        if shape is not None and tuple(shape) != self.a.shape:
            raise ValueError('inconsistent shapes')

    _fmt = 'csr'

    def _like(self, a, pat, ld=None, fmt=None):
        r = CLASSES[fmt or self.format].__new__(CLASSES[fmt or self.format])
        r.format = fmt or self.format
        r.a, r.pat, r.ld = a, pat, np.dtype(ld or self.ld)
        return r

    @property
    def dtype(self):
        return self.ld

    @property
    def shape(self):
        return self.a.shape

    def get_shape(self):
        return self.a.shape

    @property
    def nnz(self):
        return int(self.pat.sum())

    def getnnz(self, axis=None):
        return self.nnz if axis is None else self.pat.sum(axis=axis)

    def count_nonzero(self):
        return len(find(self)[2])

    @property
    def size(self):
        return self.nnz

    def getformat(self):
        return self.format

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous; use getnnz() or shape[0]')

    def __bool__(self):
        if self.shape == (1, 1):
            return bool(self.a[0, 0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    # -- formats
    def asformat(self, fmt, copy=False):
        return self if fmt is None or fmt == self.format else self._like(self.a.copy(), self.pat.copy(), fmt=fmt)

    def tocsc(self, copy=False):
        return self.asformat('csc')

    def tocsr(self, copy=False):
        return self.asformat('csr')

    def tocoo(self, copy=False):
        return self.asformat('coo')

    def todok(self, copy=False):
        return self.asformat('dok')

    def tolil(self, copy=False):
        return self.asformat('lil')

    def toarray(self, *a, **k):
        return wrap(self.a.copy(), self.ld)

    def todense(self, *a, **k):
        return self.toarray()

    @property
    def A(self):
        return self.toarray()

    def copy(self):
        return self._like(self.a.copy(), self.pat.copy())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic matrix')

    def astype(self, dtype, *a, **k):
        d = np.dtype(symnp.dt(dtype))
        return self._like(symnp.map1(lambda v: symnp.cast(v, d), self.a), self.pat.copy(), d)

    def transpose(self, *a, **k):
        fmt = {'csc': 'csr', 'csr': 'csc'}.get(self.format, self.format)
        return self._like(self.a.T.copy(), self.pat.T.copy(), fmt=fmt)

    T = property(transpose)

    def conj(self, *a):
        return self

    conjugate = conj
    getH = transpose
    H = T

    # -- structure
    def _order(self):
        if self.format == 'csc':
            j, i = np.nonzero(self.pat.T)
        else:
            i, j = np.nonzero(self.pat)
        return i, j

    @property
    def data(self):
        i, j = self._order()
        return wrap(symnp.from_list([self.a[r, c] for r, c in zip(i, j)], (len(i),)), self.ld)

    @property
    def row(self):
        return symnp.array(self._order()[0])

    @property
    def col(self):
        return symnp.array(self._order()[1])

    @property
    def indices(self):
        i, j = self._order()
        return symnp.array(np.asarray(i if self.format == 'csc' else j, dtype=np.int32))

    @property
    def indptr(self):
        counts = self.pat.sum(axis=0 if self.format == 'csc' else 1)
        return symnp.array(np.concatenate([[0], np.cumsum(counts)]).astype(np.int32))

    has_sorted_indices = True

    def sort_indices(self):
        pass

    def sum_duplicates(self):
        pass

    def eliminate_zeros(self):
        self.pat = _pattern(self.a) & self.pat

    def nonzero(self):
        i, j, _ = find(self)
        return i, j

    def diagonal(self, k=0):
        return wrap(np.diagonal(self.a, k).copy(), self.ld)

    def setdiag(self, values, k=0):
        n = min(self.shape[0] - max(0, -k), self.shape[1] - max(0, k))
        v = obj(values)
        for x in range(n):
            i, j = x + max(0, -k), x + max(0, k)
            self.a[i, j] = symnp.cast(v.ravel()[x] if v.size > 1 else v.ravel()[0], self.ld)
            self.pat[i, j] = True

    # -- indexing
    def _index(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx, slice(None))
        out = []
        for k, x in enumerate(idx):
            if isinstance(x, slice):
                out.append(slice(*[None if s is None else symnp._ix(s) for s in (x.start, x.stop, x.step)]))
            elif isinstance(x, (list, np.ndarray)):
                y = symnp.fix_index(symnp.array(x) if not isinstance(x, SymArray) else x, None)
                out.append(np.asarray(y))
            else:
                out.append(symnp._ix(x))
        return tuple(out)

    def __getitem__(self, idx):
        i, j = self._index(idx)
        if isinstance(i, int) and isinstance(j, int):
            return symnp.npscalar(self.a[i, j], self.ld)
        if isinstance(i, np.ndarray) and isinstance(j, np.ndarray):
            if i.ndim == 1 and j.ndim == 1:
                a, p = self.a[i, j][None, :], self.pat[i, j][None, :]
            else:
                a, p = self.a[i, j], self.pat[i, j]
            return self._like(a, p)
        i = slice(i, i + 1 or None) if isinstance(i, int) else i
        j = slice(j, j + 1 or None) if isinstance(j, int) else j
        return self._like(self.a[i, :][:, j].copy(), self.pat[i, :][:, j].copy())

    def __setitem__(self, idx, value):
        i, j = self._index(idx)
        if isinstance(value, Sparse):
            v, p = value.a, value.pat
        else:
            v = obj(value)
            p = _pattern(v) if self.format == 'dok' else np.ones(v.shape, bool)
        v = symnp.map1(lambda x: symnp.cast(x, self.ld), v)
        if isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)):
            self.a[i, j] = v.ravel().tolist()[0]
            self.pat[i, j] = bool(p.ravel()[0])
            return
        self.a[i, j] = v if v.ndim else v.item()
        self.pat[i, j] = p

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    def items(self):
        return [((i, j), self.a[i, j]) for i, j in zip(*np.nonzero(self.pat))]

    def keys(self):
        return [k for k, _ in self.items()]

    def __contains__(self, key):
        return bool(self.pat[key])

    def update(self, d):
        for k, v in d.items():
            self[k] = v

    # -- arithmetic
    def _fmt2(self, o):
        return self.format if self.format in ('csc', 'csr') else 'csr'

    def _scalar(self, o):
        return isinstance(o, (Sym, int, float, np.number, np.bool_)) or (isinstance(o, np.ndarray) and o.ndim == 0)

    def _scale(self, o, f):
        if isinstance(o, np.ndarray):
            o = o.item()
        a = self.a.copy()
        ld = symnp.result_ld('multiply', [self.ld, guess_ld(o)])
        for i, j in zip(*np.nonzero(self.pat)):
            a[i, j] = f(a[i, j], o)
        return self._like(a, self.pat.copy(), ld)

    def matmul(self, o):
        if isinstance(o, Sparse) or scipy.sparse.issparse(o):
            o = Sparse(o) if not isinstance(o, Sparse) else o
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            r = symnp.matmul(wrap(self.a, self.ld), wrap(o.a, o.ld))
            pat = (self.pat.astype(int) @ o.pat.astype(int)) > 0
            return self._like(obj(r).reshape(self.shape[0], o.shape[1]), pat, symnp.result_ld('multiply', [self.ld, o.ld]), self._fmt2(o))
        o = o if isinstance(o, SymArray) else symnp.array(o)
        if o.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        return symnp.matmul(wrap(self.a, self.ld), o)

    def __mul__(self, o):
        if self._scalar(o):
            return self._scale(o, symnp._mul)
        return self.matmul(o)

    __matmul__ = dot = __mul__

    def __rmul__(self, o):
        if self._scalar(o):
            return self._scale(o, symnp._mul)
        o = o if isinstance(o, SymArray) else symnp.array(o)
        return symnp.matmul(o, wrap(self.a, self.ld))

    __rmatmul__ = __rmul__

    def __truediv__(self, o):
        if self._scalar(o):
            r = self._scale(o, symnp._py_div)
            r.ld = F64
            return r
        raise Unsupported('division of a sparse matrix by a matrix')

    def __imul__(self, o):
        r = self * o
        return r

    def __itruediv__(self, o):
        return self / o

    def __neg__(self):
        return self._scale(-1, symnp._mul)

    def _add(self, o, f):
        if isinstance(o, Sparse) or scipy.sparse.issparse(o):
            o = Sparse(o) if not isinstance(o, Sparse) else o
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            flat = [f(x, y) for x, y in zip(self.a.ravel().tolist(), o.a.ravel().tolist())]
            return self._like(symnp.from_list(flat, self.shape), self.pat | o.pat, symnp.result_ld('add', [self.ld, o.ld]), self._fmt2(o))
        if self._scalar(o):
            if not isinstance(o, Sym) and o == 0:
                return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')
        return symnp.apply2('add' if f is symnp._add else 'subtract', self.toarray(), o)

    def __add__(self, o):
        return self._add(o, symnp._add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, symnp._sub)

    def __rsub__(self, o):
        return (-self)._add(o, symnp._add)

    def multiply(self, o):
        if self._scalar(o):
            return self * o
        ld = symnp.result_ld('multiply', [self.ld, guess_ld(o) if not isinstance(o, Sparse) else o.ld])
        b, p = (o.a, o.pat) if isinstance(o, Sparse) else (np.atleast_2d(obj(o)), None)
        shape = np.broadcast_shapes(self.shape, b.shape)
        x, y = np.broadcast_to(self.a, shape), np.broadcast_to(b, shape)
        pat = np.broadcast_to(self.pat, shape).copy()
        if p is not None:
            pat &= np.broadcast_to(p, shape)
        flat = [symnp._mul(u, v) for u, v in zip(x.ravel().tolist(), y.ravel().tolist())]
        return self._like(symnp.from_list(flat, shape), pat, ld, self.format if isinstance(o, Sparse) else 'coo')

    def power(self, n, dtype=None):
        return self._scale(n, symnp._pow)

    def __pow__(self, n):
        r = eye(self.shape[0], format=self.format)
        for _ in range(n):
            r = r * self
        return r

    def __abs__(self):
        return self._like(obj(symnp.apply1('absolute', wrap(self.a, self.ld))), self.pat.copy())

    def sqrt(self):
        return self._like(obj(symnp.apply1('sqrt', wrap(self.a, self.ld))), self.pat.copy(), F64)

    def sum(self, axis=None, dtype=None, out=None):
        r = symnp.reduce_op('add', wrap(self.a, self.ld), axis)
        if axis is None:
            return r
        return r.reshape(1, -1) if axis in (0, -2) else r.reshape(-1, 1)

    def mean(self, axis=None):
        r = symnp.mean(wrap(self.a, self.ld), axis)
        return r if axis is None else (r.reshape(1, -1) if axis == 0 else r.reshape(-1, 1))

    def max(self, axis=None):
        return symnp.reduce_op('maximum', wrap(self.a, self.ld), axis)

    def min(self, axis=None):
        return symnp.reduce_op('minimum', wrap(self.a, self.ld), axis)

    def reshape(self, *shape, **k):
        if len(shape) == 1:
            shape = shape[0]
        return self._like(self.a.reshape(shape), self.pat.reshape(shape))

    def __eq__(self, o):
        b = o.toarray() if isinstance(o, Sparse) else o
        return Sparse(symnp.apply2('equal', self.toarray(), b))

    def __ne__(self, o):
        b = o.toarray() if isinstance(o, Sparse) else o
        return Sparse(symnp.apply2('not_equal', self.toarray(), b))

    __hash__ = None

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i, :]


CLASSES = {}


def _make(fmt):
    cls = type(fmt + '_matrix', (Sparse,), {'_fmt': fmt})
    CLASSES[fmt] = cls
    return cls


csc_matrix, csr_matrix, coo_matrix, dok_matrix, lil_matrix, dia_matrix, bsr_matrix = [
    _make(f) for f in ('csc', 'csr', 'coo', 'dok', 'lil', 'dia', 'bsr')]
spmatrix = Sparse
SparseEfficiencyWarning = scipy.sparse.SparseEfficiencyWarning


def to_sparse(x, fmt='csr'):
    return x if isinstance(x, Sparse) else CLASSES[fmt](x)


def issparse(x):
    return isinstance(x, Sparse) or scipy.sparse.issparse(x)


isspmatrix = issparse


def isspmatrix_csc(x):
    return issparse(x) and x.format == 'csc'


def isspmatrix_csr(x):
    return issparse(x) and x.format == 'csr'


def eye(m, n=None, k=0, dtype=float, format=None):
    m = symnp._ix(m)
    n = m if n is None else symnp._ix(n)
    r = CLASSES[format or 'dia']((m, n), dtype=dtype)
    for i in range(m):
        if 0 <= i + k < n:
            r.a[i, i + k] = symnp.cast(1, r.ld)
            r.pat[i, i + k] = True
    return r


def identity(n, dtype='d', format=None):
    return eye(n, dtype=np.dtype(dtype) if isinstance(dtype, str) else dtype, format=format)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    scalar_off = not isinstance(offsets, (list, tuple, np.ndarray))
    if scalar_off:
        first = diagonals[0] if len(diagonals) else None
        if len(diagonals) == 0 or not isinstance(first, (list, tuple, np.ndarray)):
            diagonals = [diagonals]
        else:
            if len(diagonals) != 1:
                raise ValueError('Different number of diagonals and offsets.')
        offsets = [offsets]
    ds = [obj(d).reshape(-1) for d in diagonals]
    offsets = [symnp._ix(o) for o in offsets]
    if len(ds) != len(offsets):
        raise ValueError('Different number of diagonals and offsets.')
    if shape is None:
        m = len(ds[0]) + abs(offsets[0])
        shape = (m, m)
    ld = np.dtype(symnp.dt(dtype)) if dtype is not None else np.result_type(*[guess_ld(d) for d in diagonals]) if ds else F64
    if dtype is None and any(guess_ld(d) == symnp.OBJ for d in diagonals):
        ld = F64
    r = CLASSES[format or 'dia'](tuple(shape), dtype=ld)
    for d, o in zip(ds, offsets):
        n = min(shape[0] + min(o, 0), shape[1] - max(o, 0))
        if n < 0:
            raise ValueError('Offset %d (index 0) out of bounds' % o)
        if len(d) != n and len(d) != 1 and n >= 0 and len(d) < n:
            raise ValueError('Diagonal length (index 0: %d at offset %d) does not agree with matrix size (%d, %d).' % (len(d), o, shape[0], shape[1]))
        for x in range(n):
            i, j = x + max(0, -o), x + max(0, o)
            v = symnp.cast(d[x] if len(d) > 1 or n == 1 else d[0], ld)
            r.a[i, j] = r.a[i, j] + v if r.pat[i, j] else v
            r.pat[i, j] = True
    return r


def spdiags(data, diags_, m, n=None, format=None):
    raise Unsupported('spdiags')


def kron(A, B, format=None):
    A, B = to_sparse(A), to_sparse(B)
    ld = symnp.result_ld('multiply', [A.ld, B.ld])
    r = CLASSES[format or 'coo']((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), dtype=ld)
    for i, j in zip(*np.nonzero(A.pat)):
        for k, l in zip(*np.nonzero(B.pat)):
            r.a[i * B.shape[0] + k, j * B.shape[1] + l] = symnp._mul(A.a[i, j], B.a[k, l])
            r.pat[i * B.shape[0] + k, j * B.shape[1] + l] = True
    return r


def bmat(blocks, format=None, dtype=None):
    rows = len(blocks)
    cols = len(blocks[0])
    heights, widths = [None] * rows, [None] * cols
    sp = [[None if b is None else to_sparse(b) for b in row] for row in blocks]
    lds = []
    for i in range(rows):
        for j in range(cols):
            b = sp[i][j]
            if b is None:
                continue
            lds.append(b.ld)
            for store, k, n in ((heights, i, b.shape[0]), (widths, j, b.shape[1])):
                if store[k] is None:
                    store[k] = n
                elif store[k] != n:
                    raise ValueError('blocks have incompatible dimensions')
    ld = np.dtype(symnp.dt(dtype)) if dtype is not None else np.result_type(*lds)
    ro, co = np.concatenate([[0], np.cumsum(heights)]), np.concatenate([[0], np.cumsum(widths)])
    r = CLASSES[format or 'coo']((int(ro[-1]), int(co[-1])), dtype=ld)
    for i in range(rows):
        for j in range(cols):
            if sp[i][j] is not None:
                r.a[ro[i]:ro[i + 1], co[j]:co[j + 1]] = sp[i][j].a
                r.pat[ro[i]:ro[i + 1], co[j]:co[j + 1]] = sp[i][j].pat
    return r


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)], format, dtype)


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks], format, dtype)


def block_diag(mats, format=None, dtype=None):
    mats = [to_sparse(m) for m in mats]
    n = len(mats)
    out = (sum(m.shape[0] for m in mats), sum(m.shape[1] for m in mats))
    ld = np.dtype(symnp.dt(dtype)) if dtype is not None else np.result_type(*[m.ld for m in mats])
    r = CLASSES[format or 'coo'](out, dtype=ld)
    i = j = 0
    for m in mats:
        r.a[i:i + m.shape[0], j:j + m.shape[1]] = m.a
        r.pat[i:i + m.shape[0], j:j + m.shape[1]] = m.pat
        i += m.shape[0]
        j += m.shape[1]
    return r


def find(A):
    A = to_sparse(A)
    js, is_ = np.nonzero(A.pat.T)
    i, j, v = [], [], []
    for r, c in zip(is_, js):
        x = A.a[r, c]
        if bool(x != 0):
            i.append(int(r))
            j.append(int(c))
            v.append(x)
    return np.array(i, dtype=np.int32), np.array(j, dtype=np.int32), wrap(symnp.from_list(v, (len(v),)), A.ld)


def _tri(keep):
    def f(A, k=0, format=None):
        A = to_sparse(A)
        n, m = A.shape
        i, j = np.indices((n, m))
        p = A.pat & keep(i, j, k)
        a = A.a.copy()
        a[~keep(i, j, k)] = symnp.cast(0, A.ld)
        return A._like(a, p, fmt=format or 'coo')
    return f


triu = _tri(lambda i, j, k: j - i >= k)
tril = _tri(lambda i, j, k: j - i <= k)


class _Linalg(object):
    def __getattr__(self, name):
        raise Unsupported('scipy.sparse.linalg.%s on symbolic values' % name)

    @staticmethod
    def spsolve(A, b, **k):
        if isinstance(b, Sparse):
            return csc_matrix(symnp.solve_contract(A.toarray(), b.toarray()))
        return symnp.solve_contract(to_sparse(A).toarray(), b)

    @staticmethod
    def inv(A):
        return csc_matrix(symnp.solve_contract(A.toarray(), symnp.eye(A.shape[0])))

    @staticmethod
    def norm(A, ord=None, axis=None):
        return symnp.linalg.norm(A.toarray())


linalg = _Linalg()


class _Module(types.ModuleType):
    def __getattr__(self, name):
        g = globals()
        if name in g and not name.startswith('_') and name not in ('np', 'core', 'symnp', 'types', 'scipy'):
            return g[name]
        raise Unsupported('scipy.sparse.%s' % name)


SPARSE = _Module('scipy.sparse')


class _Signal(types.ModuleType):
    """Convolution by its definition."""

    def __getattr__(self, name):
        if name in ('convolve', 'convolve2d', 'fftconvolve'):
            return self._convolve
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('scipy.signal.%s' % name)

    @staticmethod
    def _convolve(in1, in2, mode='full', method='auto', **k):
        x, y = symnp.asarray(in1), symnp.asarray(in2)
        if k or x.ndim != y.ndim:
            raise Unsupported('scipy.signal.convolve with %s' % (k or 'different dimensions'))
        if mode == 'valid' and any(a < b for a, b in zip(x.shape, y.shape)):
            x, y = y, x
        xs, ys = x.shape, y.shape
        boolean = lambda v: int(v) if isinstance(v, (bool, np.bool_)) else core.ite(v, 1, 0) if isinstance(v, core.SymBool) else v
        if mode == 'full':
            out, off = tuple(a + b - 1 for a, b in zip(xs, ys)), tuple(0 for _ in xs)
        elif mode == 'same':
            out, off = xs, tuple((b - 1) // 2 for b in ys)
        elif mode == 'valid':
            out, off = tuple(a - b + 1 for a, b in zip(xs, ys)), tuple(b - 1 for b in ys)
        else:
            raise ValueError('acceptable mode flags are \'valid\', \'same\', or \'full\'')
        rows = []
        for at in np.ndindex(*out):
            total = 0
            for b in np.ndindex(*ys):
                a = tuple(p + o - q for p, o, q in zip(at, off, b))
                if all(0 <= q < n for q, n in zip(a, xs)):
                    w = boolean(y[b])
                    if isinstance(w, (int, float, np.generic)) and w == 0:
                        continue
                    total = total + boolean(x[a]) * w
            rows.append(total)
        return symnp.array(rows).reshape(out)


SIGNAL = _Signal('scipy.signal')


class _Scipy(types.ModuleType):
    def __getattr__(self, name):
        if name == 'sparse':
            return SPARSE
        if name == 'signal':
            return SIGNAL
        import scipy as real
        return getattr(real, name)


SCIPY = _Scipy('scipy')


class Factor(object):
    """What sksparse.cholmod.cholesky returns, by contract: solve(b) gives x with Q x = b."""

    def __init__(self, Q):
        self.Q = Q.copy()

    def cholesky(self, Q):
        return Factor(Q)

    def _solve(self, b):
        if isinstance(b, Sparse):
            return csc_matrix(symnp.solve_contract(self.Q.toarray(), b.toarray()))
        return symnp.solve_contract(self.Q.toarray(), b)

    __call__ = solve_A = _solve

    def logdet(self):
        return core.log(symnp.det_small(symnp.obj(self.Q.toarray())))

    def P(self):
        return symnp.array(list(range(self.Q.shape[0])))

    def L(self):
        """Lower factor, for up to three variables."""
        q = symnp.obj(self.Q.toarray())
        n = q.shape[0]
        if n > 3:
            raise Unsupported('factor of a matrix of %d variables' % n)
        l = np.zeros((n, n), dtype=object)
        for i in range(n):
            for j in range(i + 1):
                v = q[i, j]
                for k in range(j):
                    v = v - l[i, k] * l[j, k]
                l[i, j] = core.sqrt(v) if i == j else v / l[j, j]
        return csc_matrix(symnp.wrap(l, symnp.F64))

    def __getattr__(self, name):
        raise Unsupported('cholmod factor: %s' % name)


def cholmod_module():
    m = types.ModuleType('sksparse.cholmod')
    m.cholesky = lambda Q, *a, **k: Factor(to_sparse(Q))
    m.analyze = lambda Q, *a, **k: Factor(to_sparse(Q))
    m.CholmodNotPositiveDefiniteError = type('CholmodNotPositiveDefiniteError', (Exception,), {})
    return m
