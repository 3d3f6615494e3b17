"""The math module over possibly symbolic values."""

import math
import types

from . import core, symnp
from .core import Sym


def _f(name, sym):
    real = getattr(math, name)

    def g(x, *a):
        if isinstance(x, symnp.SymArray):
            x = x.item()
        if isinstance(x, Sym):
            return sym(x, *a)
        return real(x, *a)
    return g


class _Math(types.ModuleType):
    def __getattr__(self, name):
        return getattr(math, name)


MATH = _Math('math')
for _n in ('sqrt', 'exp', 'log', 'sin', 'cos'):
    setattr(MATH, _n, _f(_n, getattr(core, _n)))
for _n, _g in (('tan', core.tan), ('acos', core.arccos), ('asin', core.arcsin), ('atan', core.arctan)):
    setattr(MATH, _n, _f(_n, _g))
MATH.fabs = _f('fabs', abs)
MATH.floor = _f('floor', lambda x: core.floor(x) if not isinstance(x, core.SymInt) else x)
MATH.ceil = _f('ceil', lambda x: core.ceil(x) if not isinstance(x, core.SymInt) else x)
MATH.radians = _f('radians', lambda x: x * (math.pi / 180.0))
MATH.degrees = _f('degrees', lambda x: x * (180.0 / math.pi))
MATH.isnan = _f('isnan', lambda x: False)
MATH.isinf = _f('isinf', lambda x: False)
MATH.pow = lambda x, y: x ** y
