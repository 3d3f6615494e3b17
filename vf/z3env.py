"""Makes z3 (and pycparser) importable from the interpreter that has the repository's own dependencies."""
import importlib
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def load(name):
    try:
        return importlib.import_module(name)
    except ImportError:
        sys.path.append(_VT)
        try:
            return importlib.import_module(name)
        finally:
            sys.path.remove(_VT)


z3 = load('z3')
