"""C extension modules during a symbolic run: the functions of the .c file are interpreted from their syntax tree.

The subset is that of small numeric extension modules: scalars, pointers into arrays, loops, conditions, helper functions.
Floating point numbers are modelled as real numbers.  The Python and NumPy C interface is modelled by its documentation."""

import re
import types

import numpy as np

from . import core, symnp
from .core import Unsupported, Sym
from .z3env import load

PRELUDE = '''
typedef struct _PyObject PyObject; typedef struct _PyArrayObject PyArrayObject; typedef struct _PyTypeObject PyTypeObject;
typedef PyObject* (*PyCFunction)(PyObject*, PyObject*); typedef struct { char* name; PyCFunction f; int flags; char* doc; } PyMethodDef;
typedef struct _PyModuleDef PyModuleDef; typedef int npy_int32; typedef int npy_int; typedef long npy_int64; typedef long npy_intp; typedef float npy_float32;
typedef double npy_float64; typedef double npy_double; typedef float npy_float; typedef unsigned char npy_uint8; typedef signed char npy_int8;
typedef unsigned char npy_bool; typedef short npy_int16; typedef unsigned short npy_uint16; typedef unsigned int npy_uint32; typedef unsigned long npy_uint64;
typedef long Py_ssize_t; typedef unsigned long size_t; typedef long int64_t; typedef int int32_t; typedef unsigned int uint32_t; typedef unsigned char uint8_t;
'''
KINDS = {'npy_int32': ('i', 4), 'npy_int': ('i', 4), 'int': ('i', 4), 'int32_t': ('i', 4), 'npy_int64': ('i', 8), 'long': ('i', 8), 'int64_t': ('i', 8), 'npy_intp': ('i', 8),
         'npy_float32': ('f', 4), 'npy_float': ('f', 4), 'float': ('f', 4), 'npy_float64': ('f', 8), 'npy_double': ('f', 8), 'double': ('f', 8),
         'npy_bool': ('b', 1), 'npy_int16': ('i', 2), 'short': ('i', 2), 'Py_ssize_t': ('i', 8), 'size_t': ('u', 8), 'npy_uint8': ('u', 1), 'npy_int8': ('i', 1),
         'npy_uint16': ('u', 2), 'npy_uint32': ('u', 4), 'npy_uint64': ('u', 8)}
MASK = {'f': 'fi', 'i': 'i'}


class Ptr(object):
    """Position in a flat array (or a list of references to variables)."""
    __slots__ = ('a', 'k')

    def __init__(self, a, k=0):
        self.a, self.k = a, k

    def at(self, d):
        return Ptr(self.a, self.k + d)

    def _index(self, d):
        i = self.k + d
        if isinstance(i, Sym):
            i = core.ctx().concretize(core.iexpr(i))
        i = int(i)
        if not 0 <= i < len(self.a):
            raise IndexError('access to element %d of a C array of %d' % (i, len(self.a)))
        return i

    def get(self, d=0):
        v = self.a[self._index(d)]
        return v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v

    def put(self, v, d=0):
        self.a[self._index(d)] = v


class Ref(object):
    """Address of a local variable."""
    __slots__ = ('env', 'name')

    def __init__(self, env, name):
        self.env, self.name = env, name

    def get(self, d=0):
        return self.env[self.name]

    def put(self, v, d=0):
        self.env[self.name] = v


class Return(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


def truth(v):
    if v is None:
        return False
    if isinstance(v, (Ptr, Ref, np.ndarray, str, tuple)):
        return True
    return bool(v != 0) if not isinstance(v, (bool, core.SymBool)) else bool(v)


def cdiv(a, b):
    if all(isinstance(x, (int, core.SymInt, np.integer)) for x in (a, b)):
        q = abs(a) // abs(b)
        return q if bool((a >= 0) == (b >= 0)) else -q
    return a / b


def cmod(a, b):
    return a - cdiv(a, b) * b


BINARY = {'+': lambda a, b: a.at(b) if isinstance(a, Ptr) else b.at(a) if isinstance(b, Ptr) else a + b,
          '-': lambda a, b: (a.k - b.k) if isinstance(b, Ptr) else a.at(-b) if isinstance(a, Ptr) else a - b,
          '*': lambda a, b: a * b, '/': cdiv, '%': cmod, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b,
          '>=': lambda a, b: a >= b, '==': lambda a, b: (a is b) if a is None or b is None else a == b,
          '!=': lambda a, b: (a is not b) if a is None or b is None else a != b,
          '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b}


def typename(t):
    """(base name, number of pointers)"""
    n = 0
    while True:
        k = type(t).__name__
        if k == 'PtrDecl':
            n, t = n + 1, t.type
        elif k in ('TypeDecl', 'Typename', 'Decl', 'ArrayDecl'):
            if k == 'ArrayDecl':
                n += 1
            t = t.type
        elif k == 'IdentifierType':
            return ' '.join(t.names), n
        else:
            return k, n


def convert(v, base):
    """Value stored in a variable of a C type."""
    kind = KINDS.get(base)
    if kind is None or isinstance(v, (Ptr, Ref)) or v is None:
        return v
    if kind[0] in 'iu' and isinstance(v, (float, core.SymReal, np.floating)):
        return core.trunc(v)
    if kind[0] == 'f' and isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return float(v)
    if kind[0] == 'f' and isinstance(v, core.SymInt):
        return core.mkreal(core.rexpr(v))
    return v


class Module(object):
    def __init__(self, text, path):
        pycparser = load('pycparser')
        text = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group().count('\n'), text, flags=re.S)
        text = re.sub(r'//[^\n]*', '', text)
        self.defines = {}
        for m in re.finditer(r'(?m)^\s*#\s*define\s+(\w+)[ \t]+([-+.\w()]+)[ \t]*$', text):
            self.defines[m[1]] = m[2]
        text = re.sub(r'(?m)^\s*#(?:[^\n]*\\\n)*[^\n]*', '', text)
        text = text.replace('Py_RETURN_NONE', 'return Py_None').replace('PyMODINIT_FUNC', 'PyObject*')
        text = re.sub(r'\bnpy_uint64\b(?=\s*\))', 'npy_uint64', text)
        for k, v in self.defines.items():
            if not k.startswith('NPY_'):
                text = re.sub(r'\b%s\b' % k, v, text)
        for q in ('const', 'inline', 'restrict', 'static inline', 'register', 'volatile'):
            text = re.sub(r'\b%s\b' % q, '', text)
        tree = pycparser.CParser().parse(PRELUDE + text, path)
        self.functions, self.globals = {}, {}
        for e in tree.ext:
            k = type(e).__name__
            if k == 'FuncDef':
                self.functions[e.decl.name] = e
            elif k == 'Decl' and e.init is not None and e.name:
                self.globals[e.name] = e.init

    def export(self, module):
        for name, f in self.functions.items():
            params = [typename(p) for p in (f.decl.type.args.params if f.decl.type.args else [])]
            if len(params) >= 2 and all(p == ('PyObject', 1) for p in params):
                def call(*a, _name=name, **k):
                    r = self.call(_name, [None, a, k])
                    if r is None:
                        raise SystemError('error return without exception set')
                    return None if r == 'Py_None' else r
                setattr(module, name, call)

    # -- interpretation
    def call(self, name, args):
        if name in self.functions:
            f = self.functions[name]
            env = {}
            types_ = {}
            for p, v in zip(f.decl.type.args.params if f.decl.type.args else [], args):
                base, n = typename(p)
                env[p.name] = convert(v, base) if n == 0 else v
                types_[p.name] = (base, n)
            env['#types'] = types_
            try:
                self.run(f.body, env)
            except Return as r:
                v = r.args[0]
                base, n = typename(f.decl.type.type)
                return convert(v, base) if n == 0 else v
            return None
        return self.builtin(name, args)

    def builtin(self, name, args):
        if name == 'PyArg_ParseTupleAndKeywords':
            given, kw, fmt, names = args[0], args[1], args[2], args[3]
            outs = list(args[4:])
            return self.parse_args(given, kw, fmt, [n for n in names if n is not None], outs)
        if name == 'PyArg_ParseTuple':
            return self.parse_args(args[0], {}, args[1], [], list(args[2:]))
        if name in ('PyArray_SIZE', 'PyArray_Size'):
            return int(args[0].size)
        if name == 'PyArray_DATA':
            return args[0]
        if name in ('PyArray_DIM', 'PyArray_DIMS'):
            return int(args[0].shape[args[1]]) if name == 'PyArray_DIM' else Ptr(list(args[0].shape))
        if name == 'PyArray_NDIM':
            return int(args[0].ndim)
        if name in ('sqrt', 'sqrtf', 'exp', 'expf', 'sin', 'cos', 'sinf', 'cosf', 'log', 'logf', 'floor', 'ceil', 'floorf'):
            return getattr(core, name.rstrip('f') if name not in ('sqrtf',) else 'sqrt')(args[0])
        if name in ('fabs', 'fabsf', 'abs'):
            return abs(args[0])
        if name in ('fmax', 'fmaxf'):
            return core.ite(args[0] > args[1], args[0], args[1])
        if name in ('fmin', 'fminf'):
            return core.ite(args[0] < args[1], args[0], args[1])
        if name in ('isnan', 'isinf'):
            return 0
        if name in ('pow', 'powf'):
            return args[0] ** args[1]
        if name in ('printf', 'fprintf', 'import_array', 'Py_DECREF', 'Py_INCREF', 'Py_XDECREF', 'PyErr_SetString'):
            return 0
        raise Unsupported('C function %s' % name)

    def parse_args(self, given, kw, fmt, names, outs):
        values = list(given)
        kw = dict(kw or {})
        fmt = fmt.split(':')[0].split(';')[0]
        units = re.findall(r'\|?O!|\|?[A-Za-z]', fmt)
        optional = False
        for k, u in enumerate(units):
            if u.startswith('|'):
                optional, u = True, u[1:]
            arraytype = outs.pop(0) if u == 'O!' else None
            target = outs.pop(0)
            if k < len(values):
                v = values[k]
            elif k < len(names) and names[k] in kw:
                v = kw.pop(names[k])
            elif optional:
                continue
            else:
                raise TypeError('function missing required argument (pos %d)' % (k + 1))
            if u == 'O!':
                if not isinstance(v, np.ndarray):
                    raise TypeError('argument %d must be numpy.ndarray, not %s' % (k + 1, type(v).__name__))
            elif u in 'fd':
                if isinstance(v, np.ndarray):
                    if v.size != 1:
                        raise TypeError('only length-1 arrays can be converted to Python scalars')
                    v = v.reshape(-1)[0]
                v = convert(v, 'double')
            target.put(v)
        if kw or len(values) > len(units):
            raise TypeError('too many or unknown arguments')
        return 1

    def cast(self, v, base, n):
        if n and isinstance(v, np.ndarray):
            kind = KINDS.get(base)
            ld = np.dtype(getattr(v, 'ld', v.dtype))
            if kind and (ld.itemsize != kind[1] or ld.kind.replace('u', 'i') != kind[0].replace('u', 'i')):
                raise TypeError('array of %s read as %s' % (ld, base))
            if not v.flags.c_contiguous:
                raise TypeError('array that is not contiguous read as if it were')
            return Ptr(np.ndarray.reshape(v.data if isinstance(v, symnp.symma.MArr) else v, -1))
        if n == 0:
            return convert(v, base)
        return v

    def lvalue(self, e, env):
        k = type(e).__name__
        if k == 'ID':
            return Ref(env if e.name in env else self.static(e.name), e.name)
        if k == 'UnaryOp' and e.op == '*':
            return self.eval(e.expr, env)
        if k == 'ArrayRef':
            p, i = self.eval(e.name, env), self.eval(e.subscript, env)
            return p.at(i)
        if k == 'Cast':
            return self.lvalue(e.expr, env)
        raise Unsupported('C assignment to %s' % k)

    def static(self, name):
        if not hasattr(self, 'statics'):
            self.statics = {}
        if name not in self.statics:
            if name not in self.globals:
                raise Unsupported('C name %s' % name)
            self.statics[name] = self.eval(self.globals[name], {})
        return self.statics

    def store(self, target, v, env):
        if isinstance(target, Ref):
            base, n = env.get('#types', {}).get(target.name, ('', 0))
            if n == 0:
                v = convert(v, base)
            elif isinstance(v, np.ndarray):
                v = self.cast(v, base, n)
        elif isinstance(target, Ptr) and isinstance(target.a, symnp.SymArray) and np.dtype(target.a.ld).kind in 'iu':
            v = core.trunc(v) if isinstance(v, (float, core.SymReal)) else v
        target.put(v)
        return v

    def eval(self, e, env):
        k = type(e).__name__
        if k == 'Constant':
            if e.type == 'string':
                return eval(e.value)
            if e.type == 'char':
                return ord(eval(e.value))
            if e.type in ('float', 'double', 'long double') or '.' in e.value:
                return float(e.value.rstrip('fFlL'))
            return int(e.value.rstrip('uUlL'), 0)
        if k == 'ID':
            if e.name in env:
                return env[e.name]
            if e.name in ('NULL',):
                return None
            if e.name in ('Py_None', 'PyArray_Type'):
                return e.name
            return self.static(e.name)[e.name]
        if k == 'InitList':
            return [self.eval(x, env) for x in e.exprs]
        if k == 'Cast':
            base, n = typename(e.to_type)
            return self.cast(self.eval(e.expr, env), base, n)
        if k == 'ExprList':
            v = None
            for x in e.exprs:
                v = self.eval(x, env)
            return v
        if k == 'UnaryOp':
            if e.op == '&':
                if type(e.expr).__name__ == 'ID':
                    return Ref(env, e.expr.name) if e.expr.name in env else e.expr.name
                return self.lvalue(e.expr, env)
            if e.op == '*':
                return self.eval(e.expr, env).get()
            if e.op in ('p++', 'p--', '++', '--'):
                t = self.lvalue(e.expr, env)
                old = t.get()
                new = BINARY['+' if '+' in e.op else '-'](old, 1)
                self.store(t, new, env)
                return old if e.op.startswith('p') else new
            if e.op == 'sizeof':
                return 1
            v = self.eval(e.expr, env)
            if e.op == '-':
                return -v
            if e.op == '+':
                return v
            if e.op == '!':
                return not truth(v)
            if e.op == '~':
                return ~v
            raise Unsupported('C operator %s' % e.op)
        if k == 'BinaryOp':
            if e.op == '&&':
                return truth(self.eval(e.left, env)) and truth(self.eval(e.right, env))
            if e.op == '||':
                return truth(self.eval(e.left, env)) or truth(self.eval(e.right, env))
            return BINARY[e.op](self.eval(e.left, env), self.eval(e.right, env))
        if k == 'Assignment':
            t = self.lvalue(e.lvalue, env)
            v = self.eval(e.rvalue, env)
            if e.op != '=':
                v = BINARY[e.op[:-1]](t.get(), v)
            return self.store(t, v, env)
        if k == 'TernaryOp':
            return self.eval(e.iftrue if truth(self.eval(e.cond, env)) else e.iffalse, env)
        if k == 'ArrayRef':
            return self.lvalue(e, env).get()
        if k == 'FuncCall':
            return self.call(e.name.name, [self.eval(a, env) for a in (e.args.exprs if e.args else [])])
        raise Unsupported('C expression %s' % k)

    def run(self, s, env):
        k = type(s).__name__
        if s is None or k == 'EmptyStatement':
            return
        if k == 'Compound':
            for x in s.block_items or []:
                self.run(x, env)
        elif k == 'Decl':
            base, n = typename(s.type)
            env['#types'][s.name] = (base, n)
            env[s.name] = None
            if s.init is not None:
                self.store(Ref(env, s.name), self.eval(s.init, env), env)
        elif k == 'DeclList':
            for d in s.decls:
                self.run(d, env)
        elif k == 'Return':
            raise Return(self.eval(s.expr, env) if s.expr is not None else None)
        elif k == 'If':
            if truth(self.eval(s.cond, env)):
                self.run(s.iftrue, env)
            else:
                self.run(s.iffalse, env)
        elif k in ('For', 'While', 'DoWhile'):
            if k == 'For' and s.init is not None:
                self.run(s.init, env)
            first = k == 'DoWhile'
            steps = 0
            while first or s.cond is None or truth(self.eval(s.cond, env)):
                first = False
                steps += 1
                if steps > 10000:
                    raise Unsupported('C loop of more than 10000 steps')
                try:
                    self.run(s.stmt, env)
                except Break:
                    break
                except Continue:
                    pass
                if k == 'For' and s.next is not None:
                    self.eval(s.next, env)
        elif k == 'Break':
            raise Break()
        elif k == 'Continue':
            raise Continue()
        else:
            self.eval(s, env)


def load_module(path, module):
    with open(path) as f:
        Module(f.read(), path).export(module)
