"""numpy.ma during a symbolic run: masked arrays whose data and masks may both be symbolic."""

import types

import numpy as np

from . import core, symnp
from .core import Sym, Unsupported, and_, ite, not_, or_
from .symnp import BOOL, F64, SymArray, apply1, apply2, from_list, guess_ld, obj, rewrap, wrap

nomask = np.ma.nomask
masked = np.ma.masked

DIVIDES = {'true_divide', 'divide', 'floor_divide', 'remainder'}


def is_masked_array(x):
    return isinstance(x, (MArr, np.ma.MaskedArray))


def _mask_list(x, shape=None):
    """Flat list of mask values of anything."""
    shape = np.shape(obj(x)) if shape is None else shape
    n = int(np.prod(shape))
    if x is masked:
        return [True] * n
    if isinstance(x, MArr):
        if x._mask is nomask:
            return [False] * n
        return np.broadcast_to(obj(x._mask), shape).ravel().tolist()
    if isinstance(x, np.ma.MaskedArray):
        return np.broadcast_to(np.ma.getmaskarray(x), shape).ravel().tolist()
    return [False] * n


def _data(x):
    if isinstance(x, MArr):
        return x.data
    if isinstance(x, np.ma.MaskedArray):
        return symnp.array(x.data)
    return x


def _marr(data, mask, shrink=True):
    """Masked array over the given data (shared) and flat mask list or mask array."""
    if not isinstance(data, SymArray):
        data = symnp.array(data)
    r = np.ndarray.view(data.view(np.ndarray), MArr)
    r.ld = data.ld
    r._mask = nomask
    if isinstance(mask, list):
        r._mask = nomask if shrink and all(m is False or m is np.False_ for m in mask) else wrap(from_list([core.plain(m) for m in mask], data.shape), BOOL)
    elif mask is not nomask:
        m = obj(mask)
        if m.shape != data.shape:
            if m.size == 1:
                m = np.broadcast_to(m.reshape(()), data.shape).copy()
            elif m.size == data.size:
                m = m.reshape(data.shape)
            else:
                raise np.ma.MaskError('Mask and data not compatible: data size is %i, mask size is %i.' % (data.size, m.size))
        r._mask = wrap(symnp.map1(lambda v: symnp.cast(symnp._truth(v), BOOL), m), BOOL)
    return r


class MArr(SymArray):
    _mask = nomask
    _fill = None
    _hard = False

    def __new__(cls, data=None, mask=nomask, dtype=None, copy=False, subok=True, ndmin=0, fill_value=None, keep_mask=True, hard_mask=None, shrink=True, **k):
        if data is masked:
            return masked
        base = _data(data)
        a = symnp.array(base, dtype) if copy or not isinstance(base, SymArray) or dtype is not None else base
        if not isinstance(a, SymArray):
            raise Unsupported('masked array of %s' % a.dtype)
        old = _mask_list(data, a.shape) if is_masked_array(data) else None
        if mask is None:
            mask = nomask
        if isinstance(mask, (list, tuple)):
            mask = symnp.array(mask)
        if isinstance(mask, (bool, np.bool_)) and mask is not nomask and not isinstance(mask, np.ndarray):
            mask = [bool(mask)] * a.size
            r = _marr(a, nomask)
            r._mask = wrap(from_list(mask, a.shape), BOOL)
        else:
            r = _marr(a, mask)
        if old is not None:
            if mask is nomask:
                r._mask = data._mask if isinstance(data, MArr) and not copy else _marr(a, old)._mask
            elif keep_mask:
                r._mask = _marr(a, [or_(p, q) for p, q in zip(old, _mask_list(r))])._mask
        r._fill = fill_value if fill_value is not None else getattr(data, '_fill', None)
        return r

    def __array_finalize__(self, o):
        if o is not None:
            self.ld = getattr(o, 'ld', None) or F64

    # -- mask and data
    @property
    def data(self):
        r = np.ndarray.view(self, SymArray)
        r.ld = self.ld
        return r

    _vfdata = data

    @property
    def mask(self):
        return np.False_ if self._mask is nomask else self._mask

    @mask.setter
    def mask(self, m):
        """In place where there is a mask, as numpy does: views that share it see the change."""
        if isinstance(m, (bool, np.bool_)) or m is nomask:
            new = [bool(m)] * self.size
        else:
            new = [symnp.cast(symnp._truth(x), BOOL) for x in symnp.obj(symnp.array(m)).ravel().tolist()]
            new = (new * (self.size // len(new) + 1))[:self.size] if new else [False] * self.size       # flat assignment repeats or cuts off
        new = wrap(from_list(new, self.shape), BOOL)
        if self._mask is nomask or self._mask.shape != self.shape:
            self._mask = new
        else:
            np.ndarray.__setitem__(self._mask.view(np.ndarray), Ellipsis, new.view(np.ndarray))

    @property
    def fill_value(self):
        return self._fill if self._fill is not None else np.ma.default_fill_value(np.zeros(1, self.ld))

    @fill_value.setter
    def fill_value(self, v):
        self._fill = v

    def set_fill_value(self, v):
        self._fill = v

    def get_fill_value(self):
        return self.fill_value

    def _m(self):
        return _mask_list(self)

    def _maskarray(self):
        return wrap(from_list(self._m(), self.shape), BOOL)

    # -- access
    def __getitem__(self, idx):
        if isinstance(idx, MArr):
            idx = idx.data
        idx = symnp.fix_index(idx, self)
        d = np.ndarray.__getitem__(self.view(np.ndarray), idx)
        if self._mask is nomask:
            return _marr(rewrap(d, self.ld, False), nomask)._like(self) if isinstance(d, np.ndarray) and d.dtype == object and not _scalar(d, idx) else symnp.npscalar(d, self.ld)
        m = np.ndarray.__getitem__(self._mask.view(np.ndarray), idx)
        if not isinstance(d, np.ndarray) or _scalar(d, idx):
            if bool(m):
                return masked
            return symnp.npscalar(d, self.ld)
        r = _marr(rewrap(d, self.ld, False), nomask)._like(self)
        r._mask = rewrap(m, BOOL, False)
        return r

    def _like(self, o):
        self._fill = o._fill
        return self

    def __setitem__(self, idx, value):
        if isinstance(idx, MArr):
            idx = idx.data
        if self._hard:
            raise Unsupported('hard mask')
        if value is masked:
            if self._mask is nomask:
                self.mask = False
            self._mask[idx] = True
            return
        m = None
        if is_masked_array(value):
            m = wrap(from_list(_mask_list(value), np.shape(obj(value))), BOOL)
            value = _data(value)
        elif isinstance(value, (list, tuple)) and any(v is masked for v in value):
            m = symnp.array([v is masked for v in value])
            value = [0 if v is masked else v for v in value]
        self.data[idx] = value
        if m is not None:
            if self._mask is nomask:
                self.mask = False
            self._mask[idx] = m
        elif self._mask is not nomask:
            self._mask[idx] = False

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def item(self, *a):
        return self.data.item(*a)

    def tolist(self, fill_value=None):
        if self._mask is nomask:
            return self.data.tolist()
        m = [bool(v) for v in self._m()]
        return from_list([fill_value if q else v for v, q in zip(self.ravel_list(), m)], self.shape).tolist()

    def filled(self, fill_value=None):
        if fill_value is None:
            fill_value = self.fill_value
        return symnp.where(self._maskarray(), fill_value, self.data).astype(self.ld)

    def compressed(self):
        keep = [v for v, m in zip(self.ravel_list(), self._m()) if not bool(m)]
        return wrap(from_list(keep, (len(keep),)), self.ld)

    def count(self, axis=None, keepdims=False):
        r = symnp.reduce_op('add', apply1('logical_not', self._maskarray()), axis)
        return r

    def copy(self, *a, **k):
        r = _marr(self.data.copy(), nomask)._like(self)
        r._mask = nomask if self._mask is nomask else self._mask.copy()
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, *a, **k):
        r = _marr(self.data.astype(dtype), nomask)
        r._mask = nomask if self._mask is nomask else self._mask.copy()
        return r

    def _base(self, name, *a, **k):
        r = _marr(SymArray._base(self.data, name, *a, **k), nomask)._like(self)
        if self._mask is not nomask:
            r._mask = SymArray._base(self._mask, name, *a, **k)
        return r

    def unshare_mask(self):
        if self._mask is not nomask:
            self._mask = self._mask.copy()
        return self

    def harden_mask(self):
        self._hard = True
        return self

    def soften_mask(self):
        self._hard = False
        return self

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if a and a[0] is SymArray:
            return self.data
        return self

    def nonzero(self):
        return symnp.nonzero(self.filled(0))

    # -- reductions
    def _reduce(self, fold, axis, keepdims=False):
        """fold(values, masks) -> (value, mask) for every row."""
        o, m = self.view(np.ndarray), self._maskarray().view(np.ndarray)
        if isinstance(axis, (tuple, list)):
            axes = [a % o.ndim for a in axis]
            rest = [a for a in range(o.ndim) if a not in axes]
            o = o.transpose(rest + axes)
            m = m.transpose(rest + axes)
            shape = o.shape[:len(rest)]
            rows, masks = o.reshape(int(np.prod(shape)), -1).tolist(), m.reshape(int(np.prod(shape)), -1).tolist()
        elif axis is None:
            rows, masks, shape = [o.ravel().tolist()], [m.ravel().tolist()], ()
        else:
            axis = axis % o.ndim
            q, w = np.moveaxis(o, axis, -1), np.moveaxis(m, axis, -1)
            shape = q.shape[:-1]
            rows, masks = q.reshape(int(np.prod(shape)), -1).tolist(), w.reshape(int(np.prod(shape)), -1).tolist()
            if keepdims:
                shape = shape[:axis] + (1,) + shape[axis:]
        out = [fold(r, k) for r, k in zip(rows, masks)]
        return out, shape

    def _result(self, out, shape, ld):
        vals, masks = [v for v, _ in out], [k for _, k in out]
        if shape == ():
            if bool(masks[0]):
                return masked
            return symnp.npscalar(symnp.cast(vals[0], ld), ld)
        return _marr(wrap(from_list([symnp.cast(v, ld) for v in vals], shape), ld), masks)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        def fold(r, m):
            t = 0
            for v, q in zip(r, m):
                v = symnp._n(v)
                t = t + (v if q is False else 0 if q is True else ite(q, 0 if not isinstance(v, (float, core.SymReal)) else 0.0, v))
            return t, and_(*m) if m else True
        o, s = self._reduce(fold, axis, keepdims)
        ld = np.dtype(np.int64) if self.ld.kind in 'biu' else self.ld
        return self._result(o, s, ld)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        def fold(r, m):
            t, n = 0.0, 0
            for v, q in zip(r, m):
                v = symnp.cast(v, F64)
                t = t + (v if q is False else 0.0 if q is True else ite(q, 0.0, v))
                n = n + (1 if q is False else 0 if q is True else ite(q, 0, 1))
            none = and_(*m) if m else True
            if isinstance(n, Sym):
                # divide by each possible count
                v = 0.0
                for c in range(1, len(r) + 1):
                    v = ite(n == c, t / float(c), v)
                return v, none
            return (t / float(n) if n else 0.0), none
        o, s = self._reduce(fold, axis, keepdims)
        return self._result(o, s, F64)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        def fold(r, m):
            vals = [symnp.cast(v, F64) for v, q in zip(r, m) if not bool(q)]
            n = len(vals)
            if n - ddof <= 0:
                return 0.0, True
            mean = sum(vals[1:], vals[0]) / float(n)
            d = [(v - mean) * (v - mean) for v in vals]
            return sum(d[1:], d[0]) / float(n - ddof), False
        o, s = self._reduce(fold, axis, keepdims)
        return self._result(o, s, F64)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        r = self.var(axis, ddof=ddof, keepdims=keepdims)
        return r if r is masked else apply1('sqrt', r)

    def _best(self, axis, better):
        def fold(r, m):
            best, have = None, False
            for v, q in zip(r, m):
                if q is True:
                    continue
                if best is None:
                    best, have = v, not_(q)
                else:
                    take = and_(not_(q), or_(not_(have), better(v, best)))
                    best = ite(take, v, best)
                    have = or_(have, not_(q))
            return (0 if best is None else best), not_(have)
        o, s = self._reduce(fold, axis)
        return self._result(o, s, self.ld)

    def max(self, axis=None, out=None, fill_value=None, keepdims=False):
        return self._best(axis, lambda a, b: a > b)

    def min(self, axis=None, out=None, fill_value=None, keepdims=False):
        return self._best(axis, lambda a, b: a < b)

    def any(self, axis=None, out=None, keepdims=False):
        o, s = self._reduce(lambda r, m: (or_(*[and_(symnp._truth(v), not_(q)) for v, q in zip(r, m)]) if r else False, and_(*m) if m else True), axis)
        return self._result(o, s, BOOL)

    def all(self, axis=None, out=None, keepdims=False):
        o, s = self._reduce(lambda r, m: (and_(*[or_(symnp._truth(v), q) for v, q in zip(r, m)]) if r else True, and_(*m) if m else True), axis)
        return self._result(o, s, BOOL)

    def prod(self, *a, **k):
        raise Unsupported('product of a masked array')

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel_list()[0]) and not bool(self._m()[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    argmin = argmax = argsort = sort = cumsum = prod


def _scalar(d, idx):
    if not isinstance(d, np.ndarray):
        return True
    if d.ndim:
        return False
    k = idx if isinstance(idx, tuple) else (idx,)
    return not any(i is Ellipsis for i in k)


def masked2(name, a, b):
    """Elementwise operation with masks; divisions mask what they cannot divide."""
    if a is masked or b is masked:
        o = b if a is masked else a
        if not isinstance(o, np.ndarray) or o.ndim == 0:
            return masked
        return _marr(symnp.array(_data(o)), [True] * o.size)
    da, db = _data(a), _data(b)
    shape = np.broadcast_shapes(np.shape(obj(da)), np.shape(obj(db)))
    m = [or_(p, q) for p, q in zip(_bm(a, shape), _bm(b, shape))]
    if name in DIVIDES:
        ob = np.broadcast_to(obj(db), shape).ravel().tolist()
        ld = guess_ld(db)
        zero = [v == 0 for v in ob]
        m = [or_(p, z) for p, z in zip(m, zero)]
        one = 1.0 if ld.kind == 'f' else 1
        db = wrap(from_list([one if q is True else v if q is False else ite(q, one, v) for v, q in zip(ob, m)], shape), ld)
    r = apply2(name, da, db)
    if shape == ():
        return masked if bool(m[0]) else r
    return _marr(r, [core.plain(x) for x in m], name not in DIVIDES and not _has_mask(a) and not _has_mask(b))


def _has_mask(x):
    return is_masked_array(x) and (x._mask if isinstance(x, MArr) else np.ma.getmask(x)) is not nomask


def _bm(x, shape):
    if not is_masked_array(x):
        return [False] * int(np.prod(shape))
    m = from_list(_mask_list(x), np.shape(obj(x)))
    return np.broadcast_to(m, shape).ravel().tolist()


def masked1(name, a):
    if a is masked:
        return masked
    d, m = _data(a), _mask_list(a)
    if name in ('sqrt', 'log'):
        vals = d.ravel_list()
        bad = [(v < 0 if not isinstance(v, core.Sym) or not core.plainly_nonnegative(core.rexpr(v)) else False) if name == 'sqrt' else (v <= 0) for v in vals]
        m = [or_(p, q) for p, q in zip(m, bad)]
        d = wrap(from_list([1.0 if q is True else v if q is False else ite(q, 1.0, v) for v, q in zip(vals, m)], d.shape), d.ld)
    return _marr(apply1(name, d), [core.plain(x) for x in m], name not in ('sqrt', 'log') and not _has_mask(a))


# -- the module ----------------------------------------------------------------------------------------------------------
def array(data, dtype=None, copy=False, mask=nomask, fill_value=None, **k):
    return MArr(data, mask=mask, dtype=dtype, copy=copy, fill_value=fill_value)


masked_array = MArr
MaskedArray = MArr


def asarray(a, dtype=None, order=None):
    return a if isinstance(a, MArr) and dtype is None else MArr(a, dtype=dtype)


asanyarray = asarray


def getmaskarray(a):
    if a is masked:
        return np.array(True)
    return wrap(from_list(_mask_list(a), np.shape(obj(_data(a)))), BOOL)


def getmask(a):
    return a._mask if isinstance(a, MArr) else np.ma.getmask(a)


def getdata(a, subok=True):
    return symnp.asarray(_data(a))


def filled(a, fill_value=None):
    return a.filled(fill_value) if isinstance(a, MArr) else a


def masked_where(condition, a, copy=True):
    c = symnp.array(_data(condition))
    d = symnp.array(_data(a)) if copy else symnp.asarray(_data(a))
    if c.shape != d.shape and c.size != 1:
        raise IndexError('Inconsistent shape between the condition and the input')
    m = [or_(p, symnp._truth(q)) for p, q in zip(_mask_list(a, d.shape), np.broadcast_to(obj(c), d.shape).ravel().tolist())]
    if is_masked_array(condition):
        m = [or_(p, q) for p, q in zip(m, _mask_list(condition, d.shape))]
    return _marr(d, m)


def masked_invalid(a, copy=True):
    return masked_where(apply1('logical_not', apply1('isfinite', symnp.array(_data(a)))), a, copy)


def _masked_cmp(name):
    return lambda a, v, copy=True: masked_where(apply2(name, symnp.array(_data(a)), v), a, copy)


masked_equal, masked_less, masked_greater, masked_less_equal, masked_greater_equal, masked_not_equal = [
    _masked_cmp(n) for n in ('equal', 'less', 'greater', 'less_equal', 'greater_equal', 'not_equal')]
masked_values = masked_equal


def masked_outside(a, lo, hi, copy=True):
    d = symnp.array(_data(a))
    return masked_where(apply2('logical_or', apply2('less', d, lo), apply2('greater', d, hi)), a, copy)


def masked_all(shape, dtype=float):
    d = symnp.zeros(shape, dtype)
    return _marr(d, [True] * d.size)


def masked_all_like(a):
    return masked_all(np.shape(a), guess_ld(a))


def zeros(shape, dtype=float, **k):
    return _marr(symnp.zeros(shape, dtype), nomask)


def ones(shape, dtype=float, **k):
    return _marr(symnp.ones(shape, dtype), nomask)


empty = zeros


def zeros_like(a, dtype=None, **k):
    return _marr(symnp.zeros(np.shape(a), dtype or guess_ld(a)), _mask_list(a))


def ones_like(a, dtype=None, **k):
    return _marr(symnp.ones(np.shape(a), dtype or guess_ld(a)), _mask_list(a))


def is_masked(x):
    return bool(or_(*_mask_list(x))) if is_masked_array(x) and np.size(x) else False


isMaskedArray = isMA = isarray = is_masked_array


def count_masked(a, axis=None):
    return symnp.reduce_op('add', getmaskarray(a), axis)


def _join(name):
    def f(arrays, axis=0):
        parts = [a if isinstance(a, np.ndarray) else symnp.array(a) for a in arrays]
        args = {'axis': axis} if name in ('concatenate', 'stack') else {}
        d = getattr(symnp, name)([_data(a) for a in parts], **args)
        m = getattr(symnp, name)([getmaskarray(a) for a in parts], **args)
        return _marr(d, m)
    return f


concatenate, hstack, vstack, stack, dstack = [_join(n) for n in ('concatenate', 'hstack', 'vstack', 'stack', 'dstack')]


def where(c, *args):
    if not args:
        return symnp.nonzero(filled(c, 0))
    x, y = args
    shape = np.broadcast_shapes(np.shape(obj(_data(c))), np.shape(obj(0 if x is masked else _data(x))), np.shape(obj(0 if y is masked else _data(y))))
    d = symnp.where(_data(c), 0.0 if x is masked else _data(x), 0.0 if y is masked else _data(y))
    cond = np.broadcast_to(obj(_data(c)), shape).ravel().tolist()
    mx = [True] * len(cond) if x is masked else _bm(x, shape)
    my = [True] * len(cond) if y is masked else _bm(y, shape)
    m = [or_(q, and_(symnp._truth(k), a), and_(not_(symnp._truth(k)), b)) for k, a, b, q in zip(cond, mx, my, _bm(c, shape))]
    return _marr(symnp.array_like(d), [core.plain(v) for v in m])


def mask_or(a, b, copy=False, shrink=True):
    if a is nomask:
        return b
    if b is nomask:
        return a
    return apply2('logical_or', a, b)


def _method(name):
    def f(a, *args, **k):
        return getattr(a if isinstance(a, MArr) else MArr(a), name)(*args, **k)
    return f


EXPORT = {n: _method(n) for n in ('sum', 'mean', 'std', 'var', 'min', 'max', 'any', 'all', 'count', 'compressed', 'ravel', 'reshape', 'squeeze', 'transpose', 'copy')}


def _unary(name):
    return lambda a, *r, **k: masked1(name, a if isinstance(a, MArr) or a is masked else MArr(symnp.atleast_1d(a)) if np.ndim(a) == 0 else MArr(a))


def _binary(name):
    return lambda a, b, *r, **k: masked2(name, a if is_masked_array(a) else symnp.array_like(a), b)


for _n in ('sqrt', 'log', 'exp', 'absolute', 'negative', 'sin', 'cos', 'floor', 'ceil', 'logical_not'):
    EXPORT[_n] = _unary(_n)
EXPORT['abs'] = EXPORT['absolute']
for _n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'logical_and', 'logical_or', 'equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal',
           'maximum', 'minimum', 'power', 'bitwise_and', 'bitwise_or'):
    EXPORT[_n] = _binary(_n)


def average(a, axis=None, weights=None, returned=False):
    if weights is None:
        return (a if isinstance(a, MArr) else MArr(a)).mean(axis)
    raise Unsupported('weighted average of a masked array')


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name == 'core':
            return self
        if name in EXPORT:
            return EXPORT[name]
        if name in globals() and not name.startswith('_'):
            return globals()[name]
        return getattr(np.ma, name)


MODULE = _Module('numpy.ma')
