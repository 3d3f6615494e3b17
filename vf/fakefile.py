"""Binary files in memory that can hold symbolic numbers (for paths under /scratch only), and structured arrays of them."""
import builtins
import errno
import os
import types

import numpy as np

from . import core, symnp
from .core import Sym, Unsupported

FILES = {}


def reset():
    FILES.clear()


class Token(object):
    def __init__(self, value, dtype):
        self.value, self.dtype = value, dtype


def _bytes_of(v, dtype):
    return np.array(v, dtype=dtype).tobytes()


def _cells(v, dtype):
    if isinstance(v, Sym):
        t = Token(v, dtype)
        return [(t, k) for k in range(dtype.itemsize)]
    return list(_bytes_of(v, dtype))


class File(object):
    def __init__(self, path, mode):
        if 'w' in mode:
            FILES[path] = []
        elif path not in FILES:
            raise IOError(errno.ENOENT, 'No such file', path)
        self.path, self.mode, self.pos, self.closed = path, mode, 0, False
        self.name = path

    @property
    def data(self):
        return FILES[self.path]

    def _put(self, cells):
        if 'r' in self.mode and '+' not in self.mode:
            raise IOError('File not open for writing')
        self.data[self.pos:self.pos + len(cells)] = cells
        self.pos += len(cells)

    def write(self, x):
        x = core.plain(x)
        if isinstance(x, str):
            x = x.encode('utf-8')
        if isinstance(x, symnp.SymArray):
            return self.write_array(x)
        if isinstance(x, Sym):
            return self._put(_cells(x, np.dtype(np.int64)))
        if isinstance(x, int):
            x = np.int64(x).tobytes()
        self._put(list(bytes(x)))

    def write_array(self, a):
        if isinstance(a, Records):
            for row in range(len(a)):
                for n in a.dtype.names:
                    self._put(_cells(a.fields[n].ravel_list()[row], a.dtype[n]))
            return
        for v in a.ravel_list():
            self._put(_cells(v, a.ld))

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else min(self.pos + int(n), len(self.data))
        cells = self.data[self.pos:end]
        self.pos = end
        if any(isinstance(c, tuple) for c in cells):
            raise Unsupported('reading the bytes of a symbolic number')
        return bytes(cells)

    def _value(self, dtype):
        cells = self.data[self.pos:self.pos + dtype.itemsize]
        self.pos += dtype.itemsize
        if not any(isinstance(c, tuple) for c in cells):
            v = np.frombuffer(bytes(cells), dtype)[0]
            return v.item()
        t = cells[0][0] if isinstance(cells[0], tuple) else None
        if t is not None and all(isinstance(c, tuple) and c == (t, k) for k, c in enumerate(cells)):
            if t.dtype == dtype or (t.dtype.kind in 'iu' and dtype.kind in 'iu' and t.dtype.itemsize == dtype.itemsize):
                return t.value
        raise Unsupported('reading numbers that were not written as such')

    def read_array(self, dtype, count=-1):
        count = symnp._ix(core.plain(count.item() if isinstance(count, np.ndarray) else count))
        left = (len(self.data) - self.pos) // dtype.itemsize
        n = left if count < 0 else min(count, left)
        if dtype.names:
            rows = [[self._value(dtype[f]) for f in dtype.names] for _ in range(n)]
            return Records(dtype, n, {f: [r[k] for r in rows] for k, f in enumerate(dtype.names)})
        return symnp.wrap(symnp.from_list([self._value(dtype) for _ in range(n)], (n,)), dtype)

    def seek(self, offset, whence=0):
        if isinstance(offset, np.ndarray):
            offset = offset.item()
        offset = symnp._ix(core.plain(offset))
        self.pos = offset + {0: 0, 1: self.pos, 2: len(self.data)}[whence]

    def tell(self):
        return self.pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Records(object):
    """A structured array of one dimension."""

    def __init__(self, dtype, n, fields=None):
        self.dtype = dtype
        self.shape, self.size, self.ndim = (n,), n, 1
        if n == ():                 # a single record, without dimensions
            self.shape, self.size, self.ndim = (), 1, 0
        self.fields = {}
        for f in dtype.names:
            vals = list(fields[f]) if fields is not None else [0] * n
            self.fields[f] = symnp.wrap(symnp.from_list([symnp.cast(v, dtype[f]) for v in vals], self.shape), dtype[f])

    def atleast_1d(self):
        return self if self.ndim else Records(self.dtype, 1, {f: [v.item()] for f, v in self.fields.items()})

    nbytes = property(lambda self: self.size * self.dtype.itemsize)

    def __len__(self):
        return self.size

    def __getitem__(self, i):
        if isinstance(i, str):
            if i not in self.fields:
                raise ValueError('no field of name ' + i)
            return self.fields[i]
        if isinstance(i, (int, np.integer, Sym)):
            i = symnp._ix(core.plain(i))
            return Record(self.dtype, [self.fields[f][i] for f in self.dtype.names])
        parts = {f: self.fields[f][i] for f in self.dtype.names}
        return Records(self.dtype, len(parts[self.dtype.names[0]]), {f: p.ravel_list() for f, p in parts.items()})

    def __setitem__(self, i, v):
        if not isinstance(i, str):
            raise Unsupported('assignment to rows of records')
        if i not in self.fields:
            raise ValueError('no field of name ' + i)
        self.fields[i][...] = v

    def __iter__(self):
        return iter([self[k] for k in range(self.size)])

    def tofile(self, f, *a):
        f.write_array(self)


class Record(object):
    def __init__(self, dtype, values):
        self.dtype, self.values = dtype, values

    def __getitem__(self, i):
        return self.values[self.dtype.names.index(i) if isinstance(i, str) else i]

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)


def from_rows(rows, dtype):
    rows = [tuple(r) for r in rows]
    return Records(dtype, len(rows), {f: [r[k] for r in rows] for k, f in enumerate(dtype.names)})


def fake_open(file, mode='r', *a, **k):
    if isinstance(file, str) and file.startswith('/scratch/'):
        return File(file, mode)
    return builtins._py2_open(file, mode, *a, **k)
