"""The numpy module as the code under test sees it during a symbolic run.

SymArray is an ndarray of objects (Python scalars and symbolic values) that remembers the dtype numpy would have used
(``ld``, the logical dtype).  Array creation goes through this module, so that symbolic values can be stored anywhere;
everything not defined here is numpy's own."""

import functools
import itertools
import math
import sys
import types

import numpy as np

from . import core
from .core import (Sym, SymBool, SymInt, SymReal, SymBV, SymNum, Unsupported, and_, ite, not_, or_, plain)

F64 = np.dtype(np.float64)
I64 = np.dtype(np.int64)
BOOL = np.dtype(bool)
OBJ = np.dtype(object)


class DType(object):
    pass


def dt(dtype):
    """What numpy would take: undoes the replacement of the builtin types."""
    if dtype is None:
        return None
    name = getattr(dtype, '_vf_builtin', None)
    return name if name is not None else dtype


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return any(isinstance(v, Sym) for v in x.ravel_list())
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ and any(isinstance(v, Sym) for v in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


class Memory(object):
    """Stands for the memory of an array handed to native code (fakectypes): its elements in memory order."""

    def __init__(self, array):
        self.array = array

    def data_as(self, pointer):
        return self

    def read(self):
        return self.array.view(np.ndarray).ravel(order='K').tolist()

    def write(self, values):
        a = self.array.view(np.ndarray)
        order = 'F' if a.flags.f_contiguous and not a.flags.c_contiguous else 'C'
        a[...] = from_list(list(values), (a.size,)).reshape(a.shape, order=order)


class SymArray(np.ndarray):
    """Object array with a logical dtype."""

    ld = F64
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        if obj is not None:
            self.ld = getattr(obj, 'ld', None) or F64

    def ravel_list(self):
        return np.ndarray.ravel(self.view(np.ndarray)).tolist()

    @property
    def dtype(self):
        return self.ld

    @dtype.setter
    def dtype(self, value):
        raise Unsupported('reinterpreting the memory of a symbolic array')

    @property
    def nbytes(self):
        return self.size * self.ld.itemsize

    @property
    def ctypes(self):
        return Memory(self)

    @property
    def itemsize(self):
        return self.ld.itemsize

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __reduce__(self):
        if has_sym(self):
            raise Unsupported('pickling a symbolic array')
        return concrete(self).__reduce__()

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # -- element access
    def __getitem__(self, idx):
        idx = fix_index(idx, self)
        r = np.ndarray.__getitem__(self.view(np.ndarray), idx)
        return rewrap(r, self.ld)

    def __setitem__(self, idx, value):
        base = self.view(np.ndarray)
        if symma.is_masked_array(value):
            value = symma._data(value)
        if isinstance(idx, SymArray) and idx.ld == BOOL and has_sym(idx) and idx.shape == self.shape:
            v = obj(value)
            if v.ndim == 0 or v.size == 1:
                v = v.ravel()[0]
                flat = [ite(c, cast(v, self.ld), old) for c, old in zip(idx.ravel_list(), self.ravel_list())]
                base[...] = from_list(flat, self.shape)
                return
        idx = fix_index(idx, self)
        v = obj(value)
        v = map1(lambda x: cast(x, self.ld), v)
        if v.ndim == 0:
            base[idx] = v.item() if not isinstance(v, Sym) else v
        else:
            base[idx] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(len(self)))

    def item(self, *args):
        return plain(np.ndarray.item(self.view(np.ndarray), *args))

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def fill(self, value):
        self[...] = value

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel_list()[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        if self.size == 1:
            x = self.ravel_list()[0]
            return x.__index__() if isinstance(x, Sym) else int(x)
        raise TypeError('only size-1 arrays can be converted')

    def __int__(self):
        x = self.ravel_list()
        if len(x) != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return int(x[0])

    def __float__(self):
        x = self.ravel_list()
        if len(x) != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(x[0])

    def __contains__(self, v):
        return bool(or_(*[x == v for x in self.ravel_list()]))

    # -- shape
    def _base(self, name, *a, **k):
        return rewrap(getattr(np.ndarray, name)(self.view(np.ndarray), *a, **k), self.ld, scalar=False)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return self._base('reshape', tuple(_ix(s) for s in shape), **k)

    def ravel(self, order='C'):
        return self._base('ravel', order)

    def flatten(self, order='C'):
        return self._base('flatten', order)

    @property
    def flat(self):
        return Flat(self)

    def transpose(self, *a):
        return self._base('transpose', *a)

    @property
    def T(self):
        return self._base('transpose')

    def copy(self, order='C'):
        return self._base('copy', order)

    def squeeze(self, axis=None):
        return self._base('squeeze', axis)

    def swapaxes(self, a, b):
        return self._base('swapaxes', a, b)

    def repeat(self, repeats, axis=None):
        return self._base('repeat', _ints(repeats), axis)

    def diagonal(self, *a, **k):
        return self._base('diagonal', *a, **k).copy()

    def resize(self, *a, **k):
        raise Unsupported('ndarray.resize')

    def take(self, indices, axis=None, **k):
        return self._base('take', _ints(indices), axis)

    def compress(self, condition, axis=None):
        return self._base('compress', fix_index(condition, None), axis)

    def astype(self, dtype, *a, **k):
        d = np.dtype(dt(dtype))
        return wrap(map1(lambda x: cast(x, d), self.view(np.ndarray)), d)

    def view(self, *a, **k):
        if len(a) == 1 and (a[0] is np.ndarray or a[0] is SymArray):
            return np.ndarray.view(self, a[0])
        if not a and not k:
            return np.ndarray.view(self, SymArray)
        if len(a) == 1 and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, *a)
        raise Unsupported('view with another dtype')

    def byteswap(self, *a):
        raise Unsupported('byteswap')

    def tobytes(self, *a):
        raise Unsupported('bytes of a symbolic array')

    tostring = tobytes

    def tofile(self, f, *a):
        if hasattr(f, 'write_array'):
            f.write_array(self)
            return
        raise Unsupported('writing a symbolic array to a file')

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_op('add', self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_op('multiply', self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return reduce_op('logical_or', self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return reduce_op('logical_and', self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_op('maximum', self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_op('minimum', self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return var(self, axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return std(self, axis, ddof=ddof, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum(self, axis)

    def dot(self, other):
        return dot(self, other)

    def nonzero(self):
        return nonzero(self)

    def argmin(self, axis=None, **k):
        return argmin(self, axis)

    def argmax(self, axis=None, **k):
        return argmax(self, axis)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = sort(self, axis)

    def round(self, decimals=0, out=None):
        return round_(self, decimals)

    def clip(self, lo=None, hi=None, out=None):
        return clip(self, lo, hi)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def trace(self, *a):
        return self.diagonal().sum()

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self


class Flat(object):
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        return self.a.ravel()[i]

    def __setitem__(self, i, v):
        np.ndarray.flat.__get__(self.a)[fix_index(i, None)] = v

    def __iter__(self):
        return iter(self.a.ravel())

    def __len__(self):
        return self.a.size


def _binop(name, ufname, reverse=False, inplace=False):
    def f(self, o):
        if o is None and name in ('__eq__', '__ne__'):
            return np.full(self.shape, name == '__ne__')
        if hasattr(o, '_vf_sparse') and not inplace:
            return NotImplemented
        r = apply2(ufname, o, self) if reverse else apply2(ufname, self, o)
        if inplace:
            if isinstance(r, np.ndarray) and r.shape != self.shape:
                raise ValueError('non-broadcastable output operand')
            if self.ld.kind in 'iub' and getattr(r, 'ld', self.ld).kind == 'f':
                raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to %r with casting rule 'same_kind'" % (ufname, self.ld))
            self[...] = r
            return self
        return r
    return f


for _py, _uf in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'true_divide'),
                 ('floordiv', 'floor_divide'), ('mod', 'remainder'), ('pow', 'power'), ('and', 'bitwise_and'),
                 ('or', 'bitwise_or'), ('xor', 'bitwise_xor'), ('lshift', 'left_shift'), ('rshift', 'right_shift')):
    setattr(SymArray, '__%s__' % _py, _binop('__%s__' % _py, _uf))
    setattr(SymArray, '__r%s__' % _py, _binop('__r%s__' % _py, _uf, reverse=True))
    setattr(SymArray, '__i%s__' % _py, _binop('__i%s__' % _py, _uf, inplace=True))
for _py, _uf in (('eq', 'equal'), ('ne', 'not_equal'), ('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'), ('ge', 'greater_equal')):
    setattr(SymArray, '__%s__' % _py, _binop('__%s__' % _py, _uf))
SymArray.__hash__ = None
SymArray.__neg__ = lambda self: apply1('negative', self)
SymArray.__pos__ = lambda self: self.copy()
SymArray.__abs__ = lambda self: apply1('absolute', self)
SymArray.__invert__ = lambda self: apply1('invert', self)
SymArray.__matmul__ = lambda self, o: matmul(self, o)
SymArray.__rmatmul__ = lambda self, o: matmul(o, self)


# -- conversions -----------------------------------------------------------------------------------------------------
def _ix(x):
    if isinstance(x, Sym):
        return x.__index__()
    return int(x) if isinstance(x, (np.integer, np.bool_)) else x


def _ints(x):
    """Concrete integer (array) for a possibly symbolic one."""
    if isinstance(x, Sym):
        return x.__index__()
    if isinstance(x, (SymArray, list, tuple)):
        a = obj(x)
        return np.array([_ix(plain(v)) for v in a.ravel().tolist()], dtype=np.int64).reshape(a.shape)
    return x


def fix_index(idx, arr):
    """Concrete index: symbolic masks and integers are decided by forking."""
    if isinstance(idx, tuple):
        return tuple(fix_index(i, None) for i in idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, Sym):
        return idx.__index__()
    if symma.is_masked_array(idx):
        idx = symma._data(idx)
    if isinstance(idx, SymArray):
        vals = idx.ravel_list()
        if idx.ld == BOOL:
            return np.array([bool(v) for v in vals], dtype=bool).reshape(idx.shape)
        if idx.size == 0:
            return np.zeros(idx.shape, np.int64)
        if idx.ld.kind == 'f':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return np.array([_ix(v) for v in vals], dtype=np.int64).reshape(idx.shape)
    if isinstance(idx, slice):
        return slice(*[None if v is None else _ix(plain(v)) for v in (idx.start, idx.stop, idx.step)])
    if isinstance(idx, list):
        if len(idx) == 0:
            return np.zeros(0, np.int64)
        a = array(idx)
        if isinstance(a, SymArray):
            return fix_index(a, None)
        return a
    return idx


def from_list(flat, shape):
    a = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        a[i] = v
    return a.reshape(shape)


def obj(x):
    """Plain object ndarray of anything array-like; elements are Python scalars or symbolic values."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ma.MaskedArray):
        return obj(x.data)
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != OBJ else x.view(np.ndarray)
    if isinstance(x, np.generic):
        a = np.empty((), dtype=object)
        a[()] = x.item()
        return a
    if hasattr(x, '_vf_sparse'):
        return x.toarray().view(np.ndarray)
    if isinstance(x, (list, tuple)):
        subs = [obj(v) for v in x]
        if not subs:
            return np.zeros((0,), dtype=object)
        shapes = {s.shape for s in subs}
        if len(shapes) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        a = np.empty((len(subs),) + subs[0].shape, dtype=object)
        for i, s in enumerate(subs):
            a[i] = s if s.ndim else s.item()
        return a
    if isinstance(x, (range, map, filter, types.GeneratorType)):
        if isinstance(x, range):
            return obj(list(x))
    if hasattr(x, '__array__') and not isinstance(x, type):
        return obj(np.asarray(x))
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def guess_ld(x):
    """Logical dtype of anything array-like."""
    if isinstance(x, SymArray):
        return x.ld
    if isinstance(x, (np.ndarray, np.generic)):
        if x.dtype != OBJ:
            return x.dtype
    if isinstance(x, Sym):
        return x.dtype
    if isinstance(x, (bool,)):
        return BOOL
    if isinstance(x, int):
        return I64
    if isinstance(x, float):
        return F64
    if isinstance(x, core.fractions.Fraction):
        return F64
    if isinstance(x, (list, tuple)) and len(x) == 0:
        return F64
    a = x.ravel().tolist() if isinstance(x, np.ndarray) else x
    if isinstance(a, (list, tuple)):
        ds = {guess_ld(v) for v in a}
        if not ds:
            return F64
        r = None
        for d in ds:
            r = d if r is None else (OBJ if d == OBJ or r == OBJ else np.promote_types(r, d))
        return r
    if isinstance(x, range):
        return I64
    return OBJ


def wrap(a, ld):
    a = a.view(np.ndarray) if isinstance(a, SymArray) else np.asarray(a, dtype=object)
    if ld == OBJ or ld.kind not in 'biufO':
        return a if ld == OBJ else a
    r = np.ndarray.view(a, SymArray)
    r.ld = np.dtype(ld)
    return r


def rewrap(r, ld, scalar=True):
    if isinstance(r, np.ndarray):
        if r.dtype != OBJ:
            return r
        if r.ndim == 0 and scalar:
            return npscalar(r.item(), ld)
        w = np.ndarray.view(r, SymArray)
        w.ld = ld
        return w
    return npscalar(r, ld)


def npscalar(x, ld):
    """An element as numpy would hand it out (a numpy scalar when concrete)."""
    if isinstance(x, Sym):
        return x
    if ld.kind == 'f' and isinstance(x, (float, int)):
        return np.float64(x)
    if ld.kind == 'b':
        return np.bool_(x)
    if ld.kind in 'iu' and isinstance(x, (int, bool)):
        try:
            return ld.type(x)
        except OverflowError:
            return x
    return x


def map1(f, a):
    """Elementwise over an object ndarray."""
    flat = a.ravel().tolist()
    return from_list([f(v) for v in flat], a.shape)


def cast(x, d):
    """x converted to dtype d, as assignment into an array of that dtype does."""
    d = np.dtype(d)
    if d.kind == 'f':
        if isinstance(x, SymReal):
            return x
        if isinstance(x, Sym):
            return core.mkreal(core.z3.simplify(core.rexpr(x)))
        if isinstance(x, core.fractions.Fraction):
            return core.mkreal(core.real_const(x))
        if isinstance(x, str) or x is None:
            return float(np.array(x, dtype=d))
        if d.itemsize < 8 and not isinstance(x, bool):
            return float(x) if ROUND_SINGLE is False else float(d.type(x))
        return float(x)
    if d.kind in 'iu':
        if isinstance(x, SymReal):
            return core.trunc(x)
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymBV):
            n, signed = d.itemsize * 8, d.kind == 'i'
            if n == x.bits and signed == x.signed:
                return x
            return SymBV(core.bvexpr(x, n), n, signed)
        if isinstance(x, Sym):
            return x
        if isinstance(x, float):
            if math.isnan(x) or math.isinf(x):
                with np.errstate(all='ignore'):
                    return int(np.array(x).astype(d))
            return int(x)
        v = int(x)
        if d.kind == 'u' and v < 0 or not -(1 << 63) <= v < (1 << 64):
            return int(np.array(v).astype(d))
        lim = 1 << (8 * d.itemsize)
        if d.kind == 'u' and v >= lim:
            return v % lim
        return v
    if d.kind == 'b':
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return core.mkbool(core.z3.simplify(core.bexpr(x)))
        return bool(x)
    return x


ROUND_SINGLE = False     # float32 is treated as exact, like every float (floats are modelled by reals)


def concrete(x):
    """numpy array for a SymArray without symbolic elements."""
    if isinstance(x, SymArray):
        if has_sym(x):
            raise Unsupported('symbolic array where a concrete one is needed')
        return np.array(x.tolist(), dtype=x.ld).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(concrete(v) for v in x)
    return x


# -- elementwise operations -------------------------------------------------------------------------------------------
def _py_div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.num_op('truediv', _n(a), _n(b))
    with np.errstate(all='ignore'):
        return float(np.true_divide(a, b))


def _n(x):
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymBV):
        return SymInt(core.iexpr(x))
    return x


def _floordiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a // b
    with np.errstate(all='ignore'):
        return np.floor_divide(a, b).item()


def _mod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a % b
    with np.errstate(all='ignore'):
        return np.mod(a, b).item()


def _pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    return np.power(a, b).item()


def _max(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.maximum(a, b).item()
    for x in (a, b):
        if isinstance(x, float) and math.isnan(x):
            return x
    return ite(a >= b, a, b)


def _min(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return np.minimum(a, b).item()
    for x in (a, b):
        if isinstance(x, float) and math.isnan(x):
            return x
    return ite(a <= b, a, b)


def _bit(name):
    f = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[name]

    def g(a, b):
        return f(a, b)
    return g


def _add(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return or_(a, b)
    return a + b


def _mul(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return and_(a, b)
    return a * b


def _sub(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
    return a - b


def _eq(a, b):
    return a == b


def _truth(x):
    return x if isinstance(x, (SymBool, bool)) else (core.mkbool(core.z3.simplify(core.bexpr(x))) if isinstance(x, Sym) else bool(x))


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return bool(np.isclose(a, b, rtol, atol))
    return abs(a - b) <= atol + rtol * abs(b)


BINARY = {
    'add': _add, 'subtract': _sub, 'multiply': _mul, 'true_divide': _py_div, 'divide': _py_div, 'floor_divide': _floordiv,
    'remainder': _mod, 'mod': _mod, 'fmod': None, 'power': _pow, 'float_power': _pow,
    'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'equal': _eq, 'not_equal': lambda a, b: a != b, 'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'logical_and': lambda a, b: and_(_truth(a), _truth(b)), 'logical_or': lambda a, b: or_(_truth(a), _truth(b)),
    'logical_xor': lambda a, b: _truth(a) ^ _truth(b),
    'bitwise_and': _bit('and'), 'bitwise_or': _bit('or'), 'bitwise_xor': _bit('xor'),
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
    'hypot': lambda a, b: core.sqrt(a * a + b * b), 'arctan2': core.arctan2,
}


def _invert(x):
    if isinstance(x, (bool, SymBool)):
        return not_(x)
    return ~x


def _isnan(x):
    return False if isinstance(x, Sym) or not isinstance(x, float) else math.isnan(x)


def _sign(x):
    if not isinstance(x, Sym):
        return np.sign(x).item()
    if isinstance(x, SymReal):
        return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))
    return ite(x > 0, 1, ite(x < 0, -1, 0))


UNARY = {
    'negative': lambda x: -x, 'positive': lambda x: x, 'absolute': lambda x: abs(x), 'fabs': lambda x: abs(x),
    'invert': _invert, 'logical_not': lambda x: not_(_truth(x)), 'sqrt': core.sqrt, 'square': lambda x: x * x,
    'exp': core.exp, 'log': core.log, 'sin': core.sin, 'cos': core.cos, 'tan': core.tan,
    'arccos': core.arccos, 'arcsin': core.arcsin, 'arctan': core.arctan,
    'floor': core.floor, 'ceil': core.ceil, 'rint': core.rint, 'trunc': lambda x: cast(core.trunc(x), F64),
    'isnan': _isnan, 'isinf': lambda x: isinstance(x, float) and math.isinf(x),
    'isfinite': lambda x: not (isinstance(x, float) and (math.isinf(x) or math.isnan(x))),
    'sign': _sign, 'reciprocal': lambda x: _py_div(1.0, x),
    'radians': core.radians, 'deg2rad': core.radians, 'degrees': core.degrees, 'rad2deg': core.degrees,
    'conjugate': lambda x: x,
}

COMPARE = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or', 'logical_xor',
           'logical_not', 'isnan', 'isinf', 'isfinite', 'isclose'}
FLOATY = {'true_divide', 'divide', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'floor', 'ceil',
          'rint', 'trunc', 'radians', 'deg2rad', 'degrees', 'rad2deg', 'hypot', 'arctan2', 'float_power'}


def result_ld(name, lds):
    if name in COMPARE:
        return BOOL
    r = None
    for d in lds:
        r = d if r is None else (OBJ if OBJ in (d, r) else np.promote_types(r, d))
    if name in FLOATY and r.kind != 'f':
        return F64
    return r


def _scalar_ld(x, other):
    """NumPy's value-based promotion: a Python scalar does not widen an array of the same kind."""
    d = guess_ld(x)
    if isinstance(x, (int, float, bool, Sym)) or (isinstance(x, np.generic)):
        kinds = 'biuf'
        if other is not None and other.kind in kinds and d.kind in kinds:
            rank = {'b': 0, 'u': 1, 'i': 1, 'f': 2}
            if rank[d.kind] <= rank[other.kind]:
                return other
    return d


def apply2(name, a, b):
    f = BINARY[name]
    if f is None:
        raise Unsupported(name)
    if symma.is_masked_array(a) or symma.is_masked_array(b):
        return symma.masked2(name, a, b)
    oa, ob = obj(a), obj(b)
    lda, ldb = guess_ld(a), guess_ld(b)
    if oa.ndim == 0 and ob.ndim > 0:
        lda = _scalar_ld(a if not isinstance(a, np.ndarray) else oa.item(), ldb)
    elif ob.ndim == 0 and oa.ndim > 0:
        ldb = _scalar_ld(b if not isinstance(b, np.ndarray) else ob.item(), lda)
    ba, bb = np.broadcast_arrays(oa, ob)
    flat = [f(x, y) for x, y in zip(ba.ravel().tolist(), bb.ravel().tolist())]
    ld = result_ld(name, [lda, ldb])
    if ld.kind in 'biuf':
        flat = [cast(v, ld) for v in flat]
    return rewrap(from_list(flat, ba.shape), ld)


def apply1(name, a):
    f = UNARY[name]
    if symma.is_masked_array(a):
        return symma.masked1(name, a)
    o = obj(a)
    ld = result_ld(name, [guess_ld(a)])
    flat = [f(v) for v in o.ravel().tolist()]
    if ld.kind in 'biuf':
        flat = [cast(v, ld) for v in flat]
    return rewrap(from_list(flat, o.shape), ld)


IDENT = {'add': 0, 'multiply': 1, 'logical_or': False, 'logical_and': True, 'bitwise_or': 0}


def reduce_op(name, a, axis=None, keepdims=False):
    if isinstance(a, symma.MArr):
        return getattr(a, {'add': 'sum', 'maximum': 'max', 'minimum': 'min', 'logical_or': 'any', 'logical_and': 'all', 'multiply': 'prod'}[name])(axis, keepdims=keepdims)
    o = obj(a)
    ld = guess_ld(a)
    out_ld = ld
    if name in ('add', 'multiply') and ld.kind in 'bu':
        out_ld = I64 if ld.kind == 'b' else np.dtype(np.uint64)
    elif name in ('add', 'multiply') and ld.kind == 'i':
        out_ld = I64
    elif name in ('logical_or', 'logical_and'):
        out_ld = BOOL
    if isinstance(axis, (tuple, list)):
        if len(axis) == 0:
            return a
        axes = sorted(x % o.ndim for x in axis)
        r = wrap(o, ld)
        for x in reversed(axes):
            r = array_like(reduce_op(name, r, x, keepdims))
        return r if r.ndim else r.item()
    if axis is None:
        vals = [o.ravel().tolist()]
        shape = (1,) * o.ndim if keepdims else ()
    else:
        axis = _ix(axis) % o.ndim
        m = np.moveaxis(o, axis, -1)
        vals = [list(row) for row in m.reshape(-1, o.shape[axis]).tolist()] if m.size else \
            [[] for _ in range(int(np.prod(m.shape[:-1])))]
        shape = m.shape[:-1]
        if keepdims:
            shape = shape[:axis] + (1,) + shape[axis:]
    f = BINARY[name]
    flat = []
    for row in vals:
        if name in ('add', 'multiply'):
            row = [v.as_int() if isinstance(v, SymBool) else (int(v) if isinstance(v, bool) else v) for v in row]
        elif name in ('logical_or', 'logical_and'):
            flat.append((or_ if name == 'logical_or' else and_)(*[_truth(v) for v in row]))
            continue
        if not row:
            if name not in IDENT:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            flat.append(cast(IDENT[name], out_ld))
            continue
        r = row[0]
        for v in row[1:]:
            r = f(r, v)
        flat.append(r)
    flat = [cast(v, out_ld) if out_ld.kind in 'biuf' else v for v in flat]
    return rewrap(from_list(flat, shape), out_ld)


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.get('out')
    where = kwargs.get('where', True)
    if where is not True:
        raise Unsupported('ufunc where=')
    if name == 'matmul':
        r = matmul(*inputs)
    elif method == '__call__':
        if name in BINARY and len(inputs) == 2:
            r = apply2(name, *inputs)
        elif name in UNARY and len(inputs) == 1:
            r = apply1(name, inputs[0])
        elif name == 'divmod':
            r = (apply2('floor_divide', *inputs), apply2('remainder', *inputs))
        elif name == 'clip':
            r = clip(*inputs)
        else:
            if not any(has_sym(i) for i in inputs):
                r = ufunc(*[concrete(i) for i in inputs])
            else:
                raise Unsupported('numpy.%s on symbolic values' % name)
    elif method == 'reduce':
        r = reduce_op(name, inputs[0], kwargs.get('axis', 0), kwargs.get('keepdims', False))
    elif method == 'accumulate':
        r = accumulate(name, inputs[0], kwargs.get('axis', 0))
    elif method == 'at':
        a, idx, v = inputs if len(inputs) == 3 else (inputs[0], inputs[1], None)
        idx = fix_index(idx, None)
        if not isinstance(a, SymArray):
            raise Unsupported('ufunc.at into a concrete array')
        pos = np.arange(a.size).reshape(a.shape)[idx]
        vals = np.broadcast_to(obj(v), np.shape(pos)).ravel().tolist()
        base = a.view(np.ndarray)
        for p, x in zip(np.ravel(pos).tolist(), vals):
            k = np.unravel_index(p, a.shape)
            base[k] = cast(BINARY[name](base[k], x), a.ld)
        return None
    elif method == 'outer':
        x, y = obj(inputs[0]), obj(inputs[1])
        r = apply2(name, wrap(x.reshape(x.shape + (1,) * y.ndim), guess_ld(inputs[0])), inputs[1])
    else:
        raise Unsupported('ufunc method ' + method)
    if out is not None:
        target = out[0] if isinstance(out, tuple) else out
        if target is None:
            return r
        if isinstance(target, SymArray):
            target[...] = r
            return target
        if has_sym(r):
            raise Unsupported('symbolic result into a concrete array')
        target[...] = concrete(r)
        return target
    return r


def accumulate(name, a, axis=0):
    o = obj(a)
    m = np.moveaxis(o, axis, -1).copy()
    flat = m.reshape(-1, m.shape[-1])
    f = BINARY[name]
    for row in flat:
        for i in range(1, len(row)):
            row[i] = f(row[i - 1], row[i])
    return wrap(np.moveaxis(flat.reshape(m.shape), -1, axis), guess_ld(a))


# -- functions -------------------------------------------------------------------------------------------------------
def array_like(x):
    return x if isinstance(x, np.ndarray) else wrap(obj(x), guess_ld(x))


def _shape(shape):
    if isinstance(shape, (tuple, list, np.ndarray)):
        return tuple(_ix(plain(s)) for s in shape)
    return (_ix(plain(shape)),)


def _new(shape, dtype, value):
    d = np.dtype(dt(dtype)) if dtype is not None else F64
    if d.names:
        from . import fakefile
        return fakefile.Records(d, _shape(shape)[0])
    if d.kind not in 'biuf':
        return np.full(_shape(shape), value, dtype=d) if d.kind == 'O' else np.zeros(_shape(shape), dtype=d)
    a = np.empty(_shape(shape), dtype=object)
    a[...] = cast(value, d) if not isinstance(value, Sym) else 0
    r = wrap(a, d)
    if isinstance(value, Sym):
        r[...] = value
    return r


def zeros(shape, dtype=float, order='C'):
    return _new(shape, dtype, 0)


def empty(shape, dtype=float, order='C'):
    return _new(shape, dtype, 0)     # callers here always fill; contents of empty() are arbitrary in numpy


def ones(shape, dtype=float, order='C'):
    return _new(shape, dtype, 1)


def full(shape, fill_value, dtype=None, order='C'):
    if dtype is None:
        dtype = guess_ld(fill_value)
    if isinstance(fill_value, np.ndarray) and fill_value.ndim:
        r = _new(shape, dtype, 0)
        r[...] = fill_value
        return r
    return _new(shape, dtype, plain(fill_value))


def _like(value):
    def f(a, dtype=None, order='K', subok=True, shape=None):
        if isinstance(a, np.ma.MaskedArray):
            return np.ma.MaskedArray(f(a.data, dtype), mask=np.ma.getmaskarray(a).copy())
        if dtype is None:
            dtype = guess_ld(a if isinstance(a, (np.ndarray, Sym)) else array(a))
        r = _new(np.shape(obj(a)) if shape is None else shape, dtype, value)
        if shape is None and order == 'K' and isinstance(a, np.ndarray) and a.ndim > 1 and a.flags.f_contiguous and not a.flags.c_contiguous:
            return asfortranarray(r)
        return r
    return f


zeros_like, empty_like, ones_like = _like(0), _like(0), _like(1)


def full_like(a, fill_value, dtype=None, **k):
    return full(np.shape(obj(a)), fill_value, dtype if dtype is not None else guess_ld(a))


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    d = None if dtype is None else np.dtype(dt(dtype))
    if symma.is_masked_array(x):
        if subok:
            return symma.MArr(x, dtype=dtype, copy=True)
        x = symma._data(x)
    if d is not None and d.names and isinstance(x, list):
        from . import fakefile
        return fakefile.from_rows(x, d)
    if d is not None and d.kind not in 'biuf':
        return np.array(concrete(x) if isinstance(x, SymArray) else x, dtype=d)
    if not isinstance(x, (Sym, SymArray)) and not has_sym(x):
        if d is None:
            c = np.array(_strip(x))
        else:
            c = np.array(_strip(x), dtype=d)
        if c.dtype.kind not in 'biuf':
            return c
        r = wrap(c.astype(object), c.dtype)
    else:
        o = obj(x)
        ld = d if d is not None else guess_ld(x if isinstance(x, np.ndarray) and x.dtype != OBJ else o)
        if isinstance(x, SymArray) and d is None:
            ld = x.ld
        r = wrap(map1(lambda v: cast(plain(v), ld), o) if ld.kind in 'biuf' else o.copy(), ld)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _strip(x):
    """Lists with SymArrays in them, as concrete arrays."""
    if isinstance(x, SymArray):
        return concrete(x)
    if isinstance(x, (list, tuple)):
        return [_strip(v) for v in x]
    return x


def asarray(x, dtype=None, order=None):
    if isinstance(x, symma.MArr):
        x = x.data
    if isinstance(x, SymArray) and (dtype is None or np.dtype(dt(dtype)) == x.ld):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind not in 'biufO':
        return np.asarray(x, dt(dtype))
    return array(x, dtype)


asanyarray = asarray
ascontiguousarray = asarray


def asfortranarray(x, dtype=None):
    x = array_like(asarray(x, dtype))
    return wrap(np.asfortranarray(x.view(np.ndarray)), x.ld)


def copy(a, **k):
    return array(a)


def arange(*args, **k):
    dtype = dt(k.get('dtype'))
    if 'start' in k or 'stop' in k or 'step' in k:
        names = ['start', 'stop', 'step'] if len(args) != 1 or 'stop' in k else ['stop', 'start', 'step']
        given = dict(zip(names, args), **{n: k[n] for n in ('start', 'stop', 'step') if n in k})
        args = [given.get('start', 0), given['stop'], given.get('step', 1)]
    args = [plain(a) for a in args]
    if any(isinstance(a, Sym) for a in args):
        if all(isinstance(a, (SymInt, int)) for a in args):
            args = [_ix(a) for a in args]
        else:
            raise Unsupported('arange with symbolic reals')
    return array(np.arange(*args, dtype=dtype))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    if has_sym([start, stop]):
        num = _ix(num)
        div = (num - 1) if endpoint else num
        step = (stop - start) / float(div)
        r = array([start + i * step for i in range(num)], float)
        return (r, step) if retstep else r
    r = np.linspace(plain(start), plain(stop), _ix(plain(num)), endpoint, retstep, dt(dtype))
    return (array(r[0]), r[1]) if retstep else array(r)


def _indexgrid(g):
    class Grid(object):
        def __getitem__(self, key):
            return array(g[key])
    return Grid()


mgrid = _indexgrid(np.mgrid)


def eye(N, M=None, k=0, dtype=float):
    return array(np.eye(_ix(N), None if M is None else _ix(M), k, dtype=dt(dtype)))


identity = eye


def nonzero(a):
    if isinstance(a, symma.MArr):
        a = a.filled(0)
    if isinstance(a, (Sym, list, tuple)):
        a = array(a)
    if isinstance(a, SymArray):
        m = np.array([bool(v) for v in a.ravel_list()], dtype=bool).reshape(a.shape)
        return tuple(array(i) for i in np.nonzero(m))
    return tuple(array(i) for i in np.nonzero(a))


def flatnonzero(a):
    return nonzero(ravel(a))[0]


def argwhere(a):
    return transpose(array([list(i) for i in nonzero(a)], np.int64).reshape(np.ndim(a), -1))


def count_nonzero(a, axis=None):
    return reduce_op('add', array_like(apply2('not_equal', a, 0)) if guess_ld(a) != BOOL else array_like(a), axis)


def where(c, *args):
    if not args:
        return nonzero(c)
    x, y = args
    oc, ox, oy = np.broadcast_arrays(obj(c), obj(x), obj(y))
    lx, ly = guess_ld(x), guess_ld(y)
    if np.ndim(obj(x)) == 0 and np.ndim(obj(y)):
        lx = _scalar_ld(plain(x), ly)
    elif np.ndim(obj(y)) == 0 and np.ndim(obj(x)):
        ly = _scalar_ld(plain(y), lx)
    ld = result_ld('where', [lx, ly])
    return rewrap(from_list([cast(ite(_truth(a), b, d), ld) for a, b, d in
                             zip(oc.ravel().tolist(), ox.ravel().tolist(), oy.ravel().tolist())], oc.shape), ld, scalar=False)


def _shape_fn(name):
    f = getattr(np, name)

    @functools.wraps(f)
    def g(a, *args, **k):
        if isinstance(a, symma.MArr):
            r = symma._marr(g(a.data, *args, **k), g(a._maskarray(), *args, **k))
            return r
        o = obj(a)
        args = [_ints(x) if isinstance(x, (Sym, SymArray)) else (tuple(_ix(v) for v in x) if isinstance(x, tuple) else
                ([_ix(v) for v in x] if isinstance(x, list) and all(isinstance(v, (Sym, int, np.integer)) for v in x) else x)) for x in args]
        return rewrap(f(o, *args, **k), guess_ld(a), scalar=False)
    return g


reshape, ravel, transpose, squeeze, expand_dims, repeat, tile, roll, flipud, fliplr, flip, swapaxes, moveaxis, diag, rollaxis = [
    _shape_fn(n) for n in ('reshape', 'ravel', 'transpose', 'squeeze', 'expand_dims', 'repeat', 'tile', 'roll', 'flipud',
                           'fliplr', 'flip', 'swapaxes', 'moveaxis', 'diag', 'rollaxis')]
diagonal, triu, tril, rot90, broadcast_to, split, array_split = [_shape_fn(n) for n in ('diagonal', 'triu', 'tril', 'rot90', 'broadcast_to', 'split', 'array_split')]


def _split_fn(name):
    f = getattr(np, name)

    def g(a, n, axis=0):
        return [rewrap(x, guess_ld(a), scalar=False) for x in f(obj(a), _ints(n), axis)]
    return g


split, array_split = _split_fn('split'), _split_fn('array_split')


def diagflat(a):
    return diag(ravel(a))


def _join_fn(name):
    f = getattr(np, name)

    def g(arrays, *args, **k):
        arrays = list(arrays) if not isinstance(arrays, np.ndarray) else [arrays[i] for i in range(len(arrays))]
        masked = any(symma.is_masked_array(a) for a in arrays)
        arrays = [symma._data(a) if symma.is_masked_array(a) else a for a in arrays]
        k.pop('dtype', None)
        parts = [array_like(a) for a in arrays]
        ld = result_ld(name, [guess_ld(p) for p in parts])
        r = rewrap(f([obj(p) for p in parts], *args, **k), ld, scalar=False)
        return symma._marr(r, symma.nomask) if masked else r       # numpy (not numpy.ma) joins the data and forgets the masks
    return g


concatenate, hstack, vstack, stack, column_stack, dstack = [_join_fn(n) for n in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'dstack')]
row_stack = vstack


def append(arr, values, axis=None):
    if axis is None:
        return concatenate([ravel(arr), ravel(values)])
    return concatenate([arr, values], axis)


def delete(arr, o, axis=None):
    return rewrap(np.delete(obj(arr), _ints(o), axis), guess_ld(arr), scalar=False)


def insert(arr, o, values, axis=None):
    return rewrap(np.insert(obj(arr), _ints(o), obj(values), axis), guess_ld(arr), scalar=False)


def pad(a, width, mode='constant', **k):
    return rewrap(np.pad(obj(a), width, mode, **k), guess_ld(a), scalar=False)


def atleast_1d(a):
    if hasattr(a, 'atleast_1d'):
        return a.atleast_1d()
    a = array_like(a)
    return a if a.ndim >= 1 else wrap(obj(a).reshape(1), guess_ld(a))


def atleast_2d(a):
    a = array_like(a)
    return a if a.ndim >= 2 else wrap(obj(a).reshape(1, -1), guess_ld(a))


def meshgrid(*xs, **k):
    return [rewrap(g, guess_ld(x), scalar=False) for g, x in zip(np.meshgrid(*[obj(x) for x in xs], **k), xs)]


def _red(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        return reduce_op(name, a if isinstance(a, np.ndarray) else array_like(a), axis, keepdims)
    return f


EXPORT = {}      # names that would hide builtins here
EXPORT['sum'] = _red('add')
prod = _red('multiply')
EXPORT['max'] = amax = _red('maximum')
EXPORT['min'] = amin = _red('minimum')
EXPORT['any'] = _red('logical_or')
EXPORT['all'] = _red('logical_and')
product = prod


def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, symma.MArr):
        return a.mean(axis)
    a = array_like(a)
    s = reduce_op('add', a, axis, keepdims)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = int(np.prod([a.shape[x] for x in axis]))
    else:
        n = a.shape[axis]
    return apply2('true_divide', s, float(n))


def average(a, axis=None, weights=None, returned=False):
    if weights is None:
        return mean(a, axis)
    a = array_like(a)
    w = array_like(weights)
    if w.ndim != a.ndim:
        shape = [1] * a.ndim
        shape[axis] = w.size
        w = w.reshape(shape)
    num = reduce_op('add', apply2('multiply', a, w), axis)
    den = reduce_op('add', apply2('multiply', ones_like(a), w), axis)
    r = apply2('true_divide', num, den)
    return (r, den) if returned else r


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    if isinstance(a, symma.MArr):
        return a.var(axis, ddof=ddof)
    a = array_like(a)
    m = mean(a, axis, keepdims=True)
    d = apply2('subtract', a, m)
    n = a.size if axis is None else a.shape[axis]
    return apply2('true_divide', reduce_op('add', apply2('multiply', d, d), axis, keepdims), float(n - ddof))


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    if isinstance(a, symma.MArr):
        return a.std(axis, ddof=ddof)
    return apply1('sqrt', var(a, axis, ddof=ddof, keepdims=keepdims))


def _nan_red(f):
    def g(a, axis=None, keepdims=False, **k):
        o = obj(a)
        if axis is None:
            rows, shape = [o.ravel().tolist()], ((1,) * o.ndim if keepdims else ())
        else:
            axis %= o.ndim
            m = np.moveaxis(o, axis, -1)
            rows, shape = m.reshape(-1, o.shape[axis]).tolist(), m.shape[:-1]
            if keepdims:
                shape = shape[:axis] + (1,) + shape[axis:]
        return rewrap(from_list([f([v for v in r if not _isnan(v)]) for r in rows], shape), F64)
    return g


def _fold(f, r, empty):
    if not r:
        return empty
    x = r[0]
    for v in r[1:]:
        x = f(x, v)
    return x


nansum = _nan_red(lambda r: cast(_fold(_add, r, 0.0), F64))
nanmean = _nan_red(lambda r: _py_div(_fold(_add, r, 0.0), float(len(r))) if r else float('nan'))
nanmax = _nan_red(lambda r: _fold(_max, r, float('nan')))
nanmin = _nan_red(lambda r: _fold(_min, r, float('nan')))


def cumsum(a, axis=None, dtype=None, out=None):
    a = array_like(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if a.ld == BOOL:
        a = a.astype(I64)
    return accumulate('add', a, axis)


def cumprod(a, axis=None, **k):
    a = array_like(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return accumulate('multiply', a, axis)


def diff(a, n=1, axis=-1):
    a = array_like(a)
    for _ in range(n):
        m = obj(a)
        hi = [slice(None)] * m.ndim
        lo = [slice(None)] * m.ndim
        hi[axis], lo[axis] = slice(1, None), slice(None, -1)
        a = apply2('subtract', wrap(m[tuple(hi)], guess_ld(a)), wrap(m[tuple(lo)], guess_ld(a)))
    return a


def _argbest(a, axis, better):
    a = array_like(a)

    def best(row):
        if not row:
            raise ValueError('attempt to get argmin of an empty sequence')
        k, v = 0, row[0]
        for i, x in enumerate(row[1:], 1):
            c = better(x, v)
            k, v = ite(c, i, k), ite(c, x, v)
        return k
    if axis is None:
        return npscalar(best(a.ravel().tolist()), I64)
    m = np.moveaxis(obj(a), axis, -1)
    return rewrap(from_list([best(r) for r in m.reshape(-1, m.shape[-1]).tolist()], m.shape[:-1]), I64)


def argmin(a, axis=None, out=None):
    return _argbest(a, axis, lambda x, v: x < v)


def argmax(a, axis=None, out=None):
    return _argbest(a, axis, lambda x, v: x > v)


def sort(a, axis=-1, **k):
    a = array_like(a)
    if axis is None:
        a, axis = a.ravel(), 0
    m = np.moveaxis(obj(a), axis, -1).copy()
    rows = m.reshape(-1, m.shape[-1])
    for row in rows:
        v = list(row)
        for i in range(len(v)):
            for j in range(len(v) - 1 - i):
                c = v[j] <= v[j + 1]
                v[j], v[j + 1] = ite(c, v[j], v[j + 1]), ite(c, v[j + 1], v[j])
        for i, x in enumerate(v):
            row[i] = x
    return wrap(np.moveaxis(rows.reshape(m.shape), -1, axis), guess_ld(a))


def _stable_order(vals):
    """Stable argsort, deciding comparisons by forking."""
    order = []
    for i, v in enumerate(vals):
        j = len(order)
        while j > 0 and bool(v < vals[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return order


def argsort(a, axis=-1, kind=None, order=None):
    a = array_like(a)
    if a.ndim == 1:
        return array(_stable_order(a.tolist()), np.int64)
    m = np.moveaxis(obj(a), axis, -1)
    rows = [_stable_order(r) for r in m.reshape(-1, m.shape[-1]).tolist()]
    return array(np.moveaxis(np.array(rows).reshape(m.shape), -1, axis))


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if axis is not None:
        return _unique_axis(array_like(a), axis, return_index, return_inverse, return_counts)
    if isinstance(a, np.ndarray) and not isinstance(a, SymArray) and a.dtype.kind not in 'biuf':
        return np.unique(a, return_index, return_inverse, return_counts)
    a = array_like(a).ravel()
    vals = a.tolist()
    order = _stable_order(vals)
    groups = []
    for i in order:
        if groups and bool(vals[groups[-1][0]] == vals[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    u = wrap(from_list([vals[g[0]] for g in groups], (len(groups),)), guess_ld(a))
    r = [u]
    if return_index:
        r.append(array([g[0] for g in groups], np.int64))
    if return_inverse:
        inv = [0] * len(vals)
        for k, g in enumerate(groups):
            for i in g:
                inv[i] = k
        r.append(array(inv, np.int64))
    if return_counts:
        r.append(array([len(g) for g in groups], np.int64))
    return r[0] if len(r) == 1 else tuple(r)


def _unique_axis(a, axis, return_index, return_inverse, return_counts):
    """Unique slices along an axis, in lexicographic order."""
    o = np.moveaxis(obj(a), axis, 0)
    rows = [o[k].ravel().tolist() for k in range(o.shape[0])]

    def before(x, y):
        for u, v in zip(x, y):
            if bool(u < v):
                return True
            if not bool(u == v):
                return False
        return False
    groups = []
    for k, r in enumerate(rows):
        at = 0
        while at < len(groups) and before(rows[groups[at][0]], r):
            at += 1
        if at < len(groups) and not before(r, rows[groups[at][0]]):
            groups[at].append(k)
        else:
            groups.insert(at, [k])
    r = [rewrap(np.moveaxis(o[[g[0] for g in groups]], 0, axis), guess_ld(a), scalar=False)]
    if return_index:
        r.append(array([g[0] for g in groups], np.int64))
    if return_inverse:
        r.append(array([[k for k, g in enumerate(groups) if i in g][0] for i in range(len(rows))], np.int64))
    if return_counts:
        r.append(array([len(g) for g in groups], np.int64))
    return r[0] if len(r) == 1 else tuple(r)


def isin(element, test_elements, assume_unique=False, invert=False):
    t = obj(test_elements).ravel().tolist()
    o = obj(element)
    flat = [or_(*[v == w for w in t]) for v in o.ravel().tolist()]
    if invert:
        flat = [not_(v) for v in flat]
    return rewrap(from_list(flat, o.shape), BOOL, scalar=False)


def in1d(a, b, **k):
    return isin(ravel(a), b, **k)


def intersect1d(a, b, **k):
    u = unique(a)
    return u[isin(u, b)]


def setdiff1d(a, b, **k):
    u = unique(a)
    return u[not_arr(isin(u, b))]


def union1d(a, b):
    return unique(concatenate([ravel(a), ravel(b)]))


def not_arr(a):
    return apply1('logical_not', a)


def searchsorted(a, v, side='left', sorter=None):
    vals = obj(a).ravel().tolist()
    o = obj(v)

    def one(x):
        r = 0
        for w in vals:
            r = r + ite((w < x) if side == 'left' else (w <= x), 1, 0)
        return r
    return rewrap(map1(one, o), I64)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, 'left' if right else 'right')


def bincount(x, weights=None, minlength=0):
    idx = [_ix(v) for v in obj(x).ravel().tolist()]
    n = max([i + 1 for i in idx] + [_ix(minlength)]) if idx else _ix(minlength)
    if weights is None:
        r = [0] * n
        for i in idx:
            r[i] += 1
        return array(r, np.int64)
    w = obj(weights).ravel().tolist()
    r = [0.0] * n
    for i, v in zip(idx, w):
        r[i] = r[i] + v
    return array(r, float)




def clip(a, lo=None, hi=None, out=None, **k):
    r = a
    if lo is not None:
        r = apply2('maximum', r, lo)
    if hi is not None:
        r = apply2('minimum', r, hi)
    return r


def dot(a, b):
    if hasattr(b, '_vf_sparse') or hasattr(a, '_vf_sparse'):
        return a * b
    a, b = (a if isinstance(a, Sym) else array_like(a)), (b if isinstance(b, Sym) else array_like(b))
    if isinstance(a, Sym) or isinstance(b, Sym) or a.ndim == 0 or b.ndim == 0:
        return apply2('multiply', a, b)
    return matmul(a, b) if a.ndim <= 2 and b.ndim <= 2 else _unsupported('dot of more than two dimensions')


def _unsupported(text):
    raise Unsupported(text)


def matmul(a, b):
    if hasattr(b, '_vf_sparse') or hasattr(a, '_vf_sparse'):
        return a * b
    ld = result_ld('multiply', [guess_ld(a), guess_ld(b)])
    x, y = obj(a), obj(b)
    if x.ndim > 2 or y.ndim > 2:
        batch = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
        x = np.broadcast_to(x, batch + x.shape[-2:])
        y = np.broadcast_to(y, batch + y.shape[-2:])
        r = np.empty(batch + (x.shape[-2], y.shape[-1]), dtype=object)
        for i in np.ndindex(*batch):
            r[i] = obj(matmul(wrap(x[i], ld), wrap(y[i], ld)))
        return wrap(r, ld)
    v1, v2 = x.ndim == 1, y.ndim == 1
    if v1:
        x = x[None, :]
    if v2:
        y = y[:, None]
    if x.shape[1] != y.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (np.shape(a), np.shape(b)))
    zero = cast(0, ld)
    out = []
    rows, cols = x.tolist(), y.T.tolist()
    for r in rows:
        for c in cols:
            s = zero
            for p, q in zip(r, c):
                if (not isinstance(p, Sym) and p == 0) or (not isinstance(q, Sym) and q == 0):
                    continue
                s = s + p * q
            out.append(cast(s, ld))
    res = from_list(out, (x.shape[0], y.shape[1]))
    if v1:
        res = res[0]
    if v2:
        res = res[..., 0]
    return rewrap(res, ld)


def inner(a, b):
    return matmul(a, transpose(b)) if np.ndim(b) == 2 else dot(a, b)


def outer(a, b):
    return apply2('multiply', reshape(ravel(a), (-1, 1)), reshape(ravel(b), (1, -1)))


def vdot(a, b):
    return dot(ravel(a), ravel(b))


def kron(a, b):
    x, y = atleast_2d(a), atleast_2d(b)
    n, m = x.shape
    p, q = y.shape
    ox, oy = obj(x), obj(y)
    r = np.empty((n * p, m * q), dtype=object)
    for i in range(n):
        for j in range(m):
            for k in range(p):
                for l in range(q):
                    r[i * p + k, j * q + l] = ox[i, j] * oy[k, l]
    r = wrap(r, result_ld('multiply', [guess_ld(x), guess_ld(y)]))
    if np.ndim(a) == 1 and np.ndim(b) == 1:
        return r[0]
    return r


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    x, y = np.moveaxis(obj(a), axisa, -1), np.moveaxis(obj(b), axisb, -1)
    if x.shape[-1] != 3 or y.shape[-1] != 3:
        raise Unsupported('cross product in two dimensions')
    c = [x[..., 1] * y[..., 2] - x[..., 2] * y[..., 1],
         x[..., 2] * y[..., 0] - x[..., 0] * y[..., 2],
         x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]]
    r = np.stack([np.asarray(v, dtype=object) for v in c], axis=-1)
    return wrap(np.moveaxis(r, -1, axisc), F64)


def einsum(spec, *ops):
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    dims = {}
    arrs = [obj(o) for o in ops]
    for s, a in zip(ins, arrs):
        for c, n in zip(s, a.shape):
            dims[c] = n
    summed = sorted(set(''.join(ins)) - set(out))
    shape = tuple(dims[c] for c in out)
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        env = dict(zip(out, i))
        total = 0.0
        for j in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, j))
            t = 1.0
            for s, a in zip(ins, arrs):
                t = t * a[tuple(env[c] for c in s)]
            total = total + t
        r[i] = total
    return rewrap(r, F64)


def trace(a, *args):
    return array_like(a).trace()


def round_(a, decimals=0, out=None):
    if decimals:
        k = 10.0 ** decimals
        return apply2('true_divide', apply1('rint', apply2('multiply', a, k)), k)
    if guess_ld(a).kind in 'iu':
        return a
    return apply1('rint', a)


around = round_
EXPORT['round'] = round_


def fix(a):
    return apply1('trunc', a)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y = np.broadcast_arrays(obj(a), obj(b))
    return rewrap(from_list([_isclose(p, q, rtol, atol) for p, q in zip(x.ravel().tolist(), y.ravel().tolist())], x.shape), BOOL)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_op('logical_and', array_like(isclose(a, b, rtol, atol)))


def array_equal(a, b, **k):
    x, y = obj(a), obj(b)
    if x.shape != y.shape:
        return False
    return and_(*[p == q for p, q in zip(x.ravel().tolist(), y.ravel().tolist())])


def ravel_multi_index(multi, dims, mode='raise', order='C'):
    multi = [obj(m) for m in multi]
    dims = [_ix(plain(d)) for d in dims]
    if mode == 'raise' or isinstance(mode, str):
        modes = [mode] * len(dims)
    else:
        modes = list(mode)
    bs = np.broadcast_arrays(*multi)
    flat = []
    for t in zip(*[b.ravel().tolist() for b in bs]):
        idx = []
        for v, n, md in zip(t, dims, modes):
            v = plain(v)
            if md == 'raise':
                if bool(or_(v < 0, v >= n)):
                    raise ValueError('invalid entry in coordinates array')
            elif md == 'wrap':
                v = v % n
            else:
                v = ite(v < 0, 0, ite(v >= n, n - 1, v))
            idx.append(v)
        r = 0
        pairs = list(zip(idx, dims))
        for v, n in (pairs if order == 'C' else reversed(pairs)):
            r = r * n + v
        flat.append(r)
    return rewrap(from_list(flat, bs[0].shape), I64)


def unravel_index(indices, shape, order='C'):
    o = obj(indices)
    dims = [_ix(plain(d)) for d in shape]
    total = int(np.prod(dims))
    outs = [[] for _ in dims]
    for v in o.ravel().tolist():
        if bool(or_(v < 0, v >= total)):
            raise ValueError('index %s is out of bounds for array with size %d' % (v, total))
        seq = list(range(len(dims)))
        if order == 'C':
            seq.reverse()
        res = [None] * len(dims)
        for k in seq:
            res[k] = v % dims[k]
            v = v // dims[k]
        for k in range(len(dims)):
            outs[k].append(res[k])
    return tuple(rewrap(from_list(x, o.shape), I64) for x in outs)


def fill_diagonal(a, val, wrap=False):
    n = min(a.shape)
    v = obj(val)
    for i in range(n):
        a[i, i] = v.item() if v.ndim == 0 else v.ravel()[i % v.size]


def percentile(a, q, axis=None, **k):
    if k:
        raise Unsupported('percentile with %s' % ', '.join(k))
    a = array_like(a)
    axes = tuple(range(a.ndim)) if axis is None else tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    m = np.moveaxis(obj(a), axes, range(a.ndim - len(axes), a.ndim))
    shape = m.shape[:a.ndim - len(axes)]
    m = obj(sort(wrap(m.reshape(shape + (-1,)), guess_ld(a)), -1))
    n = m.shape[-1]
    r = []
    for v in np.atleast_1d(np.asarray(q, dtype=float)):
        at = (n - 1) * core.to_fraction(float(v)) / 100
        i = min(int(at), n - 1)
        frac = float(at - i)
        r.append(m[..., i] if not frac else m[..., i] + (m[..., i + 1] - m[..., i]) * frac)
    r = np.array(r[0], dtype=object) if np.ndim(q) == 0 else np.stack([np.asarray(x, dtype=object) for x in r])
    return rewrap(r, F64)


def median(a, axis=None, **k):
    a = array_like(a)
    s = sort(a, axis)
    n = s.shape[axis if axis is not None else 0]
    m = np.moveaxis(obj(s), axis if axis is not None else 0, -1)
    if n % 2:
        r = m[..., n // 2]
    else:
        r = (m[..., n // 2 - 1] + m[..., n // 2]) / 2.0
    return rewrap(np.asarray(r, dtype=object), F64)


def nan_to_num(a, *args, **k):
    o = obj(a)
    return rewrap(map1(lambda v: 0.0 if _isnan(v) else v, o), guess_ld(a))


def apply_along_axis(f, axis, arr, *args, **k):
    m = np.moveaxis(obj(arr), axis, -1)
    rows = [f(wrap(r, guess_ld(arr)), *args, **k) for r in m.reshape(-1, m.shape[-1])]
    r = array([x for x in rows])
    return r.reshape(m.shape[:-1] + np.shape(rows[0]))


def interp(x, xp, fp, **k):
    raise Unsupported('interp')


def vectorize(f, *a, **k):
    def g(*xs):
        bs = np.broadcast_arrays(*[obj(x) for x in xs])
        return array(from_list([f(*t) for t in zip(*[b.ravel().tolist() for b in bs])], bs[0].shape))
    return g


from . import symma     # noqa: needs the definitions above

ma = symma.MODULE


def shape(a):
    return obj(a).shape


def ndim(a):
    return obj(a).ndim


def size(a, axis=None):
    return obj(a).size if axis is None else obj(a).shape[axis]


def asscalar(a):
    return a.item()


def isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def iscomplexobj(x):
    return False


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype)


def take(a, indices, axis=None, **k):
    return array_like(a).take(indices, axis)


def nditer(op, *a, **k):
    """Values of arrays of one shape (or scalars) in step; read-only."""
    if a or k:
        raise Unsupported('nditer with options')
    if not isinstance(op, (list, tuple)):
        return iter(array_like(op).ravel_list())
    arrays = [array_like(x) for x in op]
    shapes = set(tuple(x.shape) for x in arrays if x.shape != ())
    if len(shapes) > 1:
        raise Unsupported('nditer with broadcasting')
    n = int(np.prod(next(iter(shapes)))) if shapes else 1
    cols = [x.ravel_list() if x.shape != () else x.ravel_list() * n for x in arrays]
    return iter(list(zip(*cols)))


def put(a, ind, v, **k):
    a.ravel()  # keep numpy's argument checks
    Flat(a)[ind] = v


def select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = where(c, x, r)
    return r


def hsplit(a, n):
    return array_split(a, n, axis=1)


def compress(c, a, axis=None):
    return array_like(a).compress(c, axis)


def extract(c, a):
    return ravel(a)[nonzero(ravel(c))[0]]


def isreal(x):
    return True


def fromfile(f, dtype=float, count=-1, sep='', offset=0):
    if hasattr(f, 'read_array'):
        return f.read_array(np.dtype(dt(dtype)), count)
    return np.fromfile(f, dt(dtype), count, sep)


def fromstring(s, dtype=float, count=-1, sep=''):
    if hasattr(s, 'as_array'):
        return s.as_array(np.dtype(dt(dtype)))
    return np.frombuffer(s.encode('latin-1') if isinstance(s, str) else s, dt(dtype), count).copy()


def frombuffer(s, dtype=float, count=-1, offset=0):
    if hasattr(s, 'as_array'):
        return fromstring(s, dtype, count)
    return np.frombuffer(s.encode('latin-1') if isinstance(s, str) else s, dt(dtype), count, offset)


def dtype(x, *a, **k):
    return np.dtype(dt(x), *a, **k)


def _single(name):
    def f(*args, **kw):
        if args and getattr(args[0], '_vf_sparse', False):
            if name in ('absolute', 'abs'):
                return abs(args[0])
            if name == 'sqrt':
                return args[0].sqrt()
            raise Unsupported('numpy.%s of a sparse matrix' % name)
        r = ufunc_dispatch(getattr(np, name), '__call__', args, kw) if any(isinstance(a, (Sym, SymArray)) or has_sym(a) for a in args) \
            else getattr(np, name)(*args, **kw)
        if isinstance(r, np.ndarray) and not isinstance(r, (SymArray, np.ma.MaskedArray)) and r.dtype.kind in 'biuf' and 'out' not in kw:
            return array(r)
        return r
    f.__name__ = name
    real = getattr(np, name)

    def reduce(a, axis=0, dtype=None, out=None, keepdims=False, **k):
        return reduce_op(name, a if isinstance(a, np.ndarray) else array_like(a), axis, keepdims)

    def accumulate_(a, axis=0, **k):
        return accumulate(name, array_like(a), axis)

    def at(a, idx, v=None):
        if isinstance(a, SymArray):
            return ufunc_dispatch(real, 'at', (a, idx, v), {})
        return real.at(a, idx, v)

    def outer_(a, b):
        return ufunc_dispatch(real, 'outer', (a, b), {})
    f.reduce, f.accumulate, f.at, f.outer = reduce, accumulate_, at, outer_
    f.nin = real.nin
    return f


for _name in sorted(set(BINARY) | set(UNARY)):
    if hasattr(np, _name):
        globals()[_name] = _single(_name)
EXPORT['abs'] = absolute
bitwise_not = invert
conj = conjugate
array_str = array_repr = lambda a, *x, **k: 'array'


class _ScalarType(type):
    """numpy.float32 and friends as called on possibly symbolic values; also usable as a dtype."""

    def __instancecheck__(cls, x):
        if isinstance(x, cls._vf_builtin):
            return True
        if isinstance(x, Sym) and x.dtype == np.dtype(cls._vf_builtin):
            return True
        return False

    def __subclasscheck__(cls, sub):
        return issubclass(dt(sub), cls._vf_builtin)

    def __eq__(cls, o):
        return dt(cls) == dt(o)

    def __ne__(cls, o):
        return dt(cls) != dt(o)

    def __hash__(cls):
        return hash(cls._vf_builtin)


def _scalar_type(real):
    class T(object, metaclass=_ScalarType):
        _vf_builtin = real
        dtype = np.dtype(real)

        def __new__(cls, x=0):
            if isinstance(x, Sym):
                return cast(x, np.dtype(real))
            if isinstance(x, SymArray):
                return x.astype(real) if x.ndim else cast(x.item(), np.dtype(real))
            if isinstance(x, (list, tuple)) and has_sym(x):
                return array(x, real)
            if isinstance(x, str) and real is int:
                from . import symtext
                if symtext.symbolic(x):
                    return symtext.number(x)
            r = real(x)
            return array(r) if isinstance(r, np.ndarray) else r
    T.__name__ = real.__name__
    return T


for _t in ('float64', 'float32', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'bool_'):
    globals()[_t] = _scalar_type(getattr(np, _t))
float_, int_, double = float64, int64, float64
intp = int64
EXPORT['float'] = _scalar_type(float)
EXPORT['int'] = _scalar_type(int)
EXPORT['bool'] = _scalar_type(bool)


# -- functions numpy itself dispatches to us ----------------------------------------------------------------------------
def function_dispatch(func, args, kwargs):
    mod = EXPORT.get(func.__name__) or globals().get(func.__name__)
    if mod is not None and callable(mod) and func.__module__ in ('numpy', 'numpy.core.multiarray', 'numpy.core.fromnumeric'):
        return mod(*args, **kwargs)
    owner = func.__module__ or ''
    if owner == 'numpy.linalg':
        return getattr(linalg, func.__name__)(*args, **kwargs)
    if not any(has_sym(a) for a in args) and not any(has_sym(a) for a in kwargs.values()):
        return func(*[concrete(a) for a in args], **{k: concrete(v) for k, v in kwargs.items()})
    raise Unsupported('numpy.%s on symbolic values' % func.__name__)


class _Linalg(object):
    def __getattr__(self, name):
        return getattr(np.linalg, name)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2, 'fro'):
            raise Unsupported('norm of order %r' % (ord,))
        x = array_like(x)
        if axis is not None and obj(x).shape[axis] == 1:
            return reduce_op('add', apply1('absolute', x), axis, keepdims)
        if axis is not None and core._forms() and not keepdims and ord is None:
            r = norm_forms(obj(x), axis)
            if r is not None:
                return r
        return apply1('sqrt', reduce_op('add', apply2('multiply', x, x), axis, keepdims))

    @staticmethod
    def solve(a, b):
        return solve_contract(a, b)

    @staticmethod
    def inv(a):
        a = array_like(a)
        return solve_contract(a, eye(a.shape[0]))

    @staticmethod
    def det(a):
        return det_small(obj(a))

    @staticmethod
    def multi_dot(arrays):
        r = arrays[0]
        for x in arrays[1:]:
            r = dot(r, x)
        return r


linalg = _Linalg()


def det_small(m):
    n = m.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return m[0, 0]
    total = 0.0
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = m[0, j] * det_small(minor)
        total = total + t if j % 2 == 0 else total - t
    return total


def norm_forms(a, axis):
    """Lengths of vectors whose components are multiples of one expression, without roots; None if any is not."""
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    forms = core.ctx().forms
    for k in np.ndindex(*out.shape):
        v = a[k].tolist()
        if not any(isinstance(x, Sym) for x in v):
            out[k] = math.sqrt(sum(float(x)**2 for x in v))
            continue
        r = forms.length([core.z3.simplify(core.rexpr(x)) for x in v])
        if r is None:
            return None
        f, c = r
        x = core.mkreal(core.z3.simplify(forms.term(f)))
        if isinstance(x, Sym) and not bool(core.num_cmp('ge', x, 0)):
            x = -x
        out[k] = abs(x) * math.sqrt(c) if not isinstance(x, Sym) else x * math.sqrt(c)
    return wrap(out, F64)


def solve_contract(a, b):
    """x with a x = b: the linear solver by its contract (the matrix is assumed regular, and that is recorded)."""
    if not has_sym(a) and not has_sym(b):
        return array(np.linalg.solve(np.asarray(concrete(array_like(a)), np.float64), np.asarray(concrete(array_like(b)), np.float64)))
    A, B = obj(a), obj(b)
    c = core.ctx()
    c.assumptions.add('linear systems handed to the solver are regular (solver by contract: A x = b)')
    vec = B.ndim == 1
    cols = B.reshape(B.shape[0], -1)
    n = A.shape[0]
    out = np.empty((n, cols.shape[1]), dtype=object)
    if n <= 3 and any(isinstance(v, Sym) for v in A.ravel().tolist()):
        d = det_small(A)
        c.add(core.rexpr(d) != 0)
        if c.cramer:
            for j in range(cols.shape[1]):
                for i in range(n):
                    m = A.copy()
                    m[:, i] = cols[:, j]
                    out[i, j] = core.mkreal(core.rexpr(det_small(m)) / core.rexpr(d))
            return wrap(out[:, 0] if vec else out.reshape(B.shape), F64)
    for j in range(cols.shape[1]):
        xs = [SymReal(c.fresh_real('solve')) for _ in range(n)]
        for i in range(n):
            s = 0.0
            for k in range(n):
                s = s + A[i, k] * xs[k]
            c.add(core.rexpr(s) == core.rexpr(plain(cols[i, j])))
        for i in range(n):
            out[i, j] = xs[i]
    c.model = None
    return wrap(out[:, 0] if vec else out.reshape(B.shape), F64)


class _Lib(object):
    class stride_tricks(object):
        @staticmethod
        def as_strided(x, shape=None, strides=None, **k):
            base = x.view(np.ndarray) if isinstance(x, SymArray) else x
            return rewrap(np.lib.stride_tricks.as_strided(base, shape, strides), guess_ld(x), scalar=False)


class _LibProxy(object):
    stride_tricks = _Lib.stride_tricks

    def __getattr__(self, name):
        return getattr(np.lib, name)


lib = _LibProxy()


ndarray = np.ndarray
newaxis = None
pi = np.pi
nan = np.nan


class _Module(types.ModuleType):
    """What ``import numpy`` gives the code under test."""

    def __getattr__(self, name):
        if name in EXPORT:
            return EXPORT[name]
        if name in globals() and not name.startswith('_') and name not in HIDDEN:
            return globals()[name]
        return getattr(np, name)


HIDDEN = {'np', 'core', 'functools', 'itertools', 'math', 'sys', 'types', 'Sym', 'SymBool', 'SymInt', 'SymReal', 'SymBV', 'SymNum',
          'Unsupported', 'symma', 'and_', 'ite', 'not_', 'or_', 'plain', 'EXPORT', 'obj', 'cast', 'dt', 'BOOL', 'OBJ', 'F64', 'I64'}
NUMPY = _Module('numpy')
