"""Imports of the code under test, straight from /repo's working tree.

symbolic mode: the translated sources run with shims for numpy, scipy, datetime ... so that symbolic values pass through.
real mode: the translated sources run as they are, extension modules compiled from the working tree."""

import ast
import builtins
import glob
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types

import numpy as np

from . import translate

TOPS = ('eumopps', 'eustace', 'eustaceconfig')
SRC = translate.SRC
EXT_SUFFIX = importlib.machinery.EXTENSION_SUFFIXES[0]


def _lift_texts(text, path):
    """Texts made by join, format and % keep the symbolic characters of their parts."""
    class Lift(ast.NodeTransformer):
        def lift(self, node):
            return ast.copy_location(ast.Call(ast.Name('_vf_text', ast.Load()), [node], []), node)

        def visit_Call(self, node):
            self.generic_visit(node)
            return self.lift(node) if isinstance(node.func, ast.Attribute) and node.func.attr in ('join', 'format') else node

        def visit_BinOp(self, node):
            self.generic_visit(node)
            return self.lift(node) if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str) else node
    return ast.fix_missing_locations(Lift().visit(ast.parse(text, path)))


def _plain_hashes(tree):
    """Hash values are plain integers: one path for each value."""
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name == '__hash__':
            for r in ast.walk(f):
                if isinstance(r, ast.Return) and r.value is not None:
                    r.value = ast.copy_location(ast.Call(ast.Name('hash', ast.Load()), [r.value], []), r.value)
    return ast.fix_missing_locations(tree)


class Loader(importlib.abc.Loader):
    def __init__(self, path, kind, finder):
        self.path, self.kind, self.finder = path, kind, finder

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.kind == 'c':
            from . import cmini
            return cmini.load_module(self.path, module)
        text = translate.cython_text(self.path) if self.kind == 'pyx' else translate.python_text(self.path)
        tree = _lift_texts(text, self.path) if '_vf_text' in (self.finder.builtins or {}) else ast.parse(text, self.path)
        if self.finder.builtins is not None and '__hash__' in text:
            tree = _plain_hashes(tree)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        if self.finder.builtins is not None:
            module.__dict__['__builtins__'] = self.finder.builtins
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, mode, overrides):
        self.mode = mode
        self.builtins = None
        self.overrides = overrides      # module name -> module object standing in for it
        self.files = set()

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if name in self.overrides:
            return importlib.machinery.ModuleSpec(name, Given(self.overrides[name]))
        if top not in TOPS:
            return None
        base = os.path.join(SRC, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return self._spec(name, os.path.join(base, '__init__.py'), 'py', [base])
        if os.path.isfile(base + '.py'):
            return self._spec(name, base + '.py', 'py')
        if os.path.isfile(base + '.pyx'):
            if self.mode == 'real':
                return importlib.util.spec_from_file_location(name, compile_pyx(base + '.pyx', name))
            return self._spec(name, base + '.pyx', 'pyx')
        if os.path.isfile(base + '.c'):
            if self.mode == 'real':
                return importlib.util.spec_from_file_location(name, compile_c(base + '.c', name))
            return self._spec(name, base + '.c', 'c')
        return None

    def _spec(self, name, file, kind, search=None):
        self.files.add(file)
        spec = importlib.machinery.ModuleSpec(name, Loader(file, kind, self), origin=file, is_package=search is not None)
        spec.has_location = True
        if search is not None:
            spec.submodule_search_locations = search
        return spec


class Given(importlib.abc.Loader):
    def __init__(self, module):
        self.module = module

    def create_module(self, spec):
        return self.module

    def exec_module(self, module):
        pass


def _compile_dir(key):
    d = os.path.join(translate.CACHE, 'ext', key)
    os.makedirs(d, exist_ok=True)
    return d


def compile_pyx(path, name):
    with open(path, 'rb') as f:
        data = f.read()
    key = translate._key('cython', path, data, sys.version)
    base = name.split('.')[-1]
    out = os.path.join(_compile_dir(key), base + EXT_SUFFIX)
    if os.path.exists(out):
        return out
    work = tempfile.mkdtemp(prefix='vfpyx')
    try:
        text = '# cython: language_level=2\n' + translate.tool().siblings_relative(data.decode('utf-8').replace('\r\n', '\n'), path)
        pkg = os.path.join(work, *name.split('.')[:-1])
        os.makedirs(pkg)
        d = work
        for part in name.split('.')[:-1]:
            d = os.path.join(d, part)
            open(os.path.join(d, '__init__.py'), 'w').close()
        src = os.path.join(pkg, base + '.pyx')
        with open(src, 'w') as f:
            f.write(text)
        env = dict(os.environ, PYTHONPATH='')
        subprocess.run([sys.executable, '-m', 'cython', src, '-o', src[:-3] + 'c'], check=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        _cc(src[:-3] + 'c', out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def compile_c(path, name):
    with open(path, 'rb') as f:
        data = f.read()
    key = translate._key('c', path, data, sys.version)
    out = os.path.join(_compile_dir(key), name.split('.')[-1] + EXT_SUFFIX)
    if os.path.exists(out):
        return out
    work = tempfile.mkdtemp(prefix='vfc')
    try:
        src = os.path.join(work, os.path.basename(path))
        with open(src, 'w') as f:
            f.write(translate.tool().c_module(data.decode('utf-8')))
        _cc(src, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def _cc(src, out):
    import sysconfig
    tmp = '%s.%d' % (out, os.getpid())
    subprocess.run(['gcc', '-O1', '-w', '-fPIC', '-shared', '-I' + sysconfig.get_paths()['include'], '-I' + np.get_include(), src, '-o', tmp],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    os.replace(tmp, out)


def _type_builtin(mapped):
    """The builtin type, giving for numbers the stand-ins that int and float are replaced by."""
    class Meta(type):
        def __call__(cls, *a, **k):
            if len(a) == 1:
                t = type(a[0])
                return mapped.get(t, t)
            return type(*a, **k)

        def __instancecheck__(cls, x):
            return isinstance(x, type)

    class Type(type, metaclass=Meta):
        pass
    return Type


# -- symbolic mode ------------------------------------------------------------------------------------------------------
def _sym_builtins(finder, dates):
    from . import core, symnp, symsparse, symdt, symmath
    b = dict(vars(builtins))
    shims = {'numpy': symnp.NUMPY, 'scipy': symsparse.SCIPY, 'math': symmath.MATH}
    if dates:
        shims['datetime'] = symdt.module
        m = types.ModuleType('dateutil')
        m.relativedelta = types.ModuleType('dateutil.relativedelta')
        m.relativedelta.relativedelta = symdt.relativedelta
        m.rrule = types.ModuleType('dateutil.rrule')
        m.rrule.rrule = lambda *a, **k: symnp._unsupported('rrule')
        m.rrule.MONTHLY = 1
        shims['dateutil'] = m
    sk = types.ModuleType('sksparse')
    sk.cholmod = symsparse.cholmod_module()
    shims['sksparse'] = sk
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            parts = name.split('.')
            if parts[0] in finder.overrides:
                m = finder.overrides[parts[0]]
                if not fromlist:
                    return m
                for p in parts[1:]:
                    m = getattr(m, p)
                return m
            elif name in finder.overrides:
                pass
            elif parts[0] in shims:
                m = shims[parts[0]]
                if not fromlist:
                    return m
                for p in parts[1:]:
                    m = getattr(m, p)
                return m
        return real_import(name, globals, locals, fromlist, level)

    b['__import__'] = imp
    if 're' in finder.overrides:
        from . import symtext
        b['_vf_text'] = symtext.lift_made
    b['float'] = symnp.EXPORT['float']
    b['int'] = symnp.EXPORT['int']
    b['type'] = _type_builtin({int: b['int'], float: b['float'], core.SymInt: b['int'], core.SymReal: b['float'], core.SymBool: bool})
    b['print'] = lambda *a, **k: None
    from . import fakefile
    b['open'] = b['_py2_open'] = fakefile.fake_open

    def integral(v):
        if isinstance(v, (core.SymInt, core.SymBool, core.SymBV)):
            return True
        if isinstance(v, (int, np.integer, np.bool_)):
            return True
        return isinstance(v, np.ndarray) and v.dtype.kind in 'iub'

    def div(x, y):
        return x // y if integral(x) and integral(y) else x / y

    def idiv(x, y):
        if integral(x) and integral(y):
            x //= y
        else:
            x /= y
        return x

    def rnd(x, ndigits=0):
        if isinstance(x, symnp.SymArray):
            x = x.item()
        if isinstance(x, core.Sym):
            return core.round_half_away(x, ndigits)
        return builtins._py2_round(x, ndigits)

    b['_py2_div'], b['_py2_idiv'], b['_py2_round'] = div, idiv, rnd
    if dates:
        b['_py2_timedelta'] = symdt.timedelta
    else:
        def td(*a, **k):
            if any(isinstance(v, core.Sym) for v in list(a) + list(k.values())):
                return symdt.timedelta(*a, **k)
            return builtins._py2_timedelta(*a, **k)
        b['_py2_timedelta'] = td
    return b


FINDER = None


def install(mode, dates=False, overrides=None):
    """Make imports of the code under test come from the working tree, in the given mode. Once per process."""
    global FINDER
    if FINDER is not None:
        raise RuntimeError('already installed')
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if not p.startswith('/opt/eustace-py3')]
    FINDER = Finder(mode, dict(overrides or {}))
    if mode == 'symbolic':
        FINDER.builtins = _sym_builtins(FINDER, dates)
    sys.meta_path.insert(0, FINDER)
    return FINDER
