"""A stand-in for the parts of iris the code uses: cubes and coordinates hold whatever arrays they are given."""

import types


class Coord(object):
    def __init__(self, points, standard_name=None, long_name=None, var_name=None, units=None, bounds=None, attributes=None, coord_system=None, circular=False, **k):
        from . import symnp
        self.points = symnp.array(points) if not hasattr(points, 'shape') else points
        if getattr(self.points, 'shape', None) == ():
            self.points = self.points.reshape((1,))
        self.standard_name, self.long_name, self.var_name, self.units, self.circular = standard_name, long_name, var_name, units, circular
        self.bounds, self.attributes = bounds, dict(attributes or {})

    def name(self, default='unknown'):
        return self.standard_name or self.long_name or self.var_name or default

    def guess_bounds(self):
        pass


class AuxCoord(Coord):
    pass


class DimCoord(Coord):
    @classmethod
    def from_regular(cls, zeroth, step, count, standard_name=None, long_name=None, var_name=None, units=None, attributes=None, coord_system=None, circular=False, **k):
        from . import symnp
        points = symnp.NUMPY.array([zeroth + step * (i + 1) for i in range(count)])
        return cls(points, standard_name, long_name, var_name, units, circular=circular)


class Cube(object):
    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units=None, attributes=None, cell_methods=None, dim_coords_and_dims=None,
                 aux_coords_and_dims=None, **k):
        self.data = data
        self.standard_name, self.long_name, self.var_name, self.units = standard_name, long_name, var_name, units
        self.attributes = dict(attributes or {})
        self._coords = []
        for c, d in dim_coords_and_dims or []:
            if len(c.points) != data.shape[d]:
                raise ValueError('The requested dimension lengths do not match')
            self._coords.append((c, d))
        for c, d in aux_coords_and_dims or []:
            self._coords.append((c, d))

    def name(self, default='unknown'):
        return self.standard_name or self.long_name or self.var_name or default

    @property
    def shape(self):
        return self.data.shape

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def ndim(self):
        return self.data.ndim

    def add_aux_coord(self, coord, data_dims=None):
        self._coords.append((coord, data_dims))

    def add_dim_coord(self, coord, data_dims=None):
        self._coords.append((coord, data_dims))

    def coords(self, name=None, **k):
        return [c for c, _ in self._coords if name is None or name in (c.standard_name, c.long_name, c.var_name)]

    def coord(self, name=None, **k):
        found = self.coords(name)
        if len(found) != 1:
            raise LookupError('Expected to find exactly 1 %r coordinate, but found %d' % (name, len(found)))
        return found[0]

    def coord_dims(self, coord):
        for c, d in self._coords:
            if c is coord or coord in (c.standard_name, c.long_name, c.var_name):
                return (d,) if isinstance(d, int) else tuple(d or ())
        raise LookupError(coord)


class CubeList(list):
    def __new__(cls, cubes=None):
        return list.__new__(cls)

    def __init__(self, cubes=None):
        list.__init__(self, cubes or [])


class Constraint(object):
    def __init__(self, name=None, cube_func=None, coord_values=None, **k):
        self.name, self.cube_func = name, cube_func

    def extract(self, cube):
        if self.name is not None and cube.name() != self.name:
            return None
        return cube if self.cube_func is None or self.cube_func(cube) else None


def _no(*a, **k):
    raise NotImplementedError('iris files')


def modules():
    m = types.ModuleType('iris')
    m.coords = types.ModuleType('iris.coords')
    m.cube = types.ModuleType('iris.cube')
    m.exceptions = types.ModuleType('iris.exceptions')
    m.exceptions.CoordinateNotFoundError = LookupError
    m.fileformats = types.ModuleType('iris.fileformats')
    m.fileformats.netcdf = types.ModuleType('iris.fileformats.netcdf')
    m.fileformats.netcdf.Saver = object
    m.util = types.ModuleType('iris.util')
    m.coords.DimCoord, m.coords.AuxCoord, m.coords.Coord = DimCoord, AuxCoord, Coord
    m.cube.Cube, m.cube.CubeList = Cube, CubeList
    m.Constraint = Constraint
    m.load = m.load_cube = m.load_cubes = m.save = _no
    return {'iris': m}
