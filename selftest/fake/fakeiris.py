"""A small stand-in for the parts of iris that the demonstrations use (iris is not
installed in this sandbox).  Import it after `stubs`: it fills in iris's classes."""
import copy
import datetime
import sys

import stubs  # noqa: F401
import numpy as np
from cf_units import Unit

import iris
import iris.analysis
import iris.coord_systems
import iris.coords
import iris.cube
import iris.exceptions
import iris.util


class CoordinateNotFoundError(KeyError):
    pass


class ConstraintMismatchError(Exception):
    pass


class InvalidCubeError(Exception):
    pass


class CoordinateCollapseError(Exception):
    pass


class UnitConversionError(Exception):
    pass


for _e in (CoordinateNotFoundError, ConstraintMismatchError, InvalidCubeError,
           CoordinateCollapseError, UnitConversionError):
    setattr(iris.exceptions, _e.__name__, _e)


class CellMethod:
    def __init__(self, method, coords=None, intervals=None, comments=None):
        self.method = method
        coords = () if coords is None else coords
        coords = (coords,) if not isinstance(coords, (tuple, list)) else coords
        self.coord_names = tuple(c if isinstance(c, str) else c.name() for c in coords)
        one = lambda x: () if x is None else ((x,) if isinstance(x, str) else tuple(x))
        self.intervals, self.comments = one(intervals), one(comments)

    def _key(self):
        return (self.method, self.coord_names, self.intervals, self.comments)

    def __eq__(self, other):
        return isinstance(other, CellMethod) and self._key() == other._key()

    def __hash__(self):
        return hash(self._key())

    def __repr__(self):
        return "CellMethod%r" % (self._key(),)


class Cell:
    def __init__(self, point, bound=None):
        self.point, self.bound = point, bound

    def _v(self, o):
        return o.point if isinstance(o, Cell) else o

    def __eq__(self, o):
        v = self._v(o)
        if self.bound is not None and not isinstance(o, Cell):
            return min(self.bound) <= v <= max(self.bound)
        return self.point == v

    def __lt__(self, o):
        return self.point < self._v(o)

    def __le__(self, o):
        return self.point <= self._v(o)

    def __gt__(self, o):
        return self.point > self._v(o)

    def __ge__(self, o):
        return self.point >= self._v(o)

    def __hash__(self):
        return hash(self.point)


class _Named:
    def name(self, default=None):
        return self.standard_name or self.long_name or self.var_name or "unknown"

    def rename(self, name):
        self.standard_name, self.long_name, self.var_name = None, name, None


class DimCoord(_Named):
    def __init__(self, points, standard_name=None, long_name=None, var_name=None, units="1",
                 bounds=None, attributes=None, coord_system=None, circular=False, climatological=False):
        self.points = points
        self.bounds = bounds
        self.standard_name, self.long_name, self.var_name = standard_name, long_name, var_name
        self.units = units
        self.attributes = dict(attributes or {})
        self.coord_system, self.circular = coord_system, circular

    @property
    def points(self):
        return self._p

    @points.setter
    def points(self, p):
        p = np.asarray(p)
        self._p = p.reshape(1) if p.ndim == 0 else p

    @property
    def bounds(self):
        return self._b

    @bounds.setter
    def bounds(self, b):
        b = None if b is None else np.asarray(b)
        self._b = b[None] if b is not None and b.ndim == 1 else b

    @property
    def units(self):
        return self._u

    @units.setter
    def units(self, u):
        self._u = Unit(u) if not isinstance(u, Unit) else u

    shape = property(lambda s: s._p.shape)
    ndim = property(lambda s: s._p.ndim)
    dtype = property(lambda s: s._p.dtype)
    bounds_dtype = property(lambda s: None if s._b is None else s._b.dtype)
    nbounds = property(lambda s: 0 if s._b is None else s._b.shape[-1])

    def has_bounds(self):
        return self._b is not None

    def core_points(self):
        return self._p

    def core_bounds(self):
        return self._b

    def copy(self, points=None, bounds=None):
        new = copy.deepcopy(self)
        if points is not None:
            new.points, new.bounds = points, bounds
        return new

    def __deepcopy__(self, memo):
        new = copy.copy(self)
        new._p, new._b = self._p.copy(), None if self._b is None else self._b.copy()
        new.attributes = copy.deepcopy(self.attributes)
        return new

    def convert_units(self, unit):
        unit = Unit(unit)
        new = self._u.convert(self._p, unit)
        self._p = new
        if self._b is not None:
            self._b = self._u.convert(self._b, unit)
        self._u = unit

    def cell(self, i):
        p = self._p[i]
        b = None if self._b is None else tuple(self._b[i])
        if self._u.is_time_reference():
            def conv(x):
                t = self._u.num2date(x)
                if not isinstance(t, datetime.datetime):
                    t = datetime.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second)
                return t
            p = conv(p)
            b = None if b is None else tuple(conv(x) for x in b)
        return Cell(p, b)

    def cells(self):
        return [self.cell(i) for i in range(len(self._p))]

    def __len__(self):
        return len(self._p)

    def __iter__(self):
        return (self[i] for i in range(len(self._p)))

    def __getitem__(self, k):
        new = self.copy()
        new.points = self._p[k]
        new.bounds = None if self._b is None else self._b[k]
        return new

    def collapsed(self):
        lo = self._p if self._b is None else self._b
        return self.copy(points=np.array([(lo.min() + lo.max()) // 2 if lo.dtype.kind == "i" else (lo.min() + lo.max()) / 2], dtype=self.dtype),
                         bounds=np.array([[lo.min(), lo.max()]], dtype=self.dtype))

    def is_monotonic(self):
        d = np.diff(self._p)
        return bool((d >= 0).all() or (d <= 0).all())

    def is_contiguous(self):
        return self._b is not None and bool((self._b[:-1, 1] == self._b[1:, 0]).all())

    def guess_bounds(self, bound_position=0.5):
        d = np.diff(self._p)
        d = np.concatenate([d[:1], d, d[-1:]])
        self._b = np.stack([self._p - d[:-1] * bound_position, self._p + d[1:] * (1 - bound_position)], axis=-1)

    def nearest_neighbour_index(self, point):
        return int(np.argmin(np.abs(self._p - point)))

    def _meta(self):
        return (self.name(), str(self._u), sorted(self.attributes.items()), self.coord_system)

    def __eq__(self, o):
        return (isinstance(o, DimCoord) and self._meta() == o._meta() and self.shape == o.shape
                and bool((self._p == o._p).all()) and self.has_bounds() == o.has_bounds()
                and (self._b is None or bool((self._b == o._b).all())))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(id(self))

    def __repr__(self):
        return "<coord %s %s %s %s>" % (self.name(), self._p, self._b, self._u)


class AuxCoord(DimCoord):
    @classmethod
    def from_coord(cls, c):
        new = c.copy()
        new.__class__ = cls
        return new


DimCoord.from_coord = classmethod(lambda cls, c: AuxCoord.from_coord.__func__(cls, c))


class Constraint:
    def __init__(self, name=None, cube_func=None, coord_values=None, **kw):
        self._name, self._func = name, cube_func
        self._coords = dict(coord_values or {}, **kw)
        self._and = []

    def __and__(self, o):
        new = Constraint()
        new._and = [self, o]
        return new

    def _leaves(self):
        return sum((c._leaves() for c in self._and), []) if self._and else [self]

    def extract(self, cube):
        for con in self._leaves():
            if con._name is not None and cube.name() != con._name:
                return None
            if con._func is not None and not con._func(cube):
                return None
            for cn, want in con._coords.items():
                try:
                    coord = cube.coord(cn)
                except CoordinateNotFoundError:
                    return None
                def ok(cell):
                    if callable(want):
                        return want(cell)
                    if isinstance(want, (list, tuple, set, np.ndarray)):
                        return any(cell == w for w in want)
                    return cell == want
                keep = [i for i, c in enumerate(coord.cells()) if ok(c)]
                if not keep:
                    return None
                dims = cube.coord_dims(coord)
                if dims and len(keep) < len(coord.points):
                    key = [slice(None)] * cube.ndim
                    key[dims[0]] = keep[0] if len(keep) == 1 else keep
                    cube = cube[tuple(key)]
        return cube


class AttributeConstraint(Constraint):
    def __init__(self, **attrs):
        super().__init__(cube_func=lambda c: all(
            k in c.attributes and (v(c.attributes[k]) if callable(v) else c.attributes[k] == v) for k, v in attrs.items()))


class NameConstraint(Constraint):
    def __init__(self, standard_name=None, long_name=None, var_name=None):
        want = {k: v for k, v in dict(standard_name=standard_name, long_name=long_name, var_name=var_name).items() if v}
        super().__init__(cube_func=lambda c: all(
            v(getattr(c, k)) if callable(v) else getattr(c, k) == v for k, v in want.items()))


def _con(c):
    return c if isinstance(c, Constraint) else Constraint(name=c)


class Cube(_Named):
    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units="1",
                 attributes=None, cell_methods=None, dim_coords_and_dims=None,
                 aux_coords_and_dims=None, **_):
        self._data = data if isinstance(data, np.ndarray) else np.asarray(data)
        self.standard_name, self.long_name, self.var_name = standard_name, long_name, var_name
        self.units = units
        self.attributes = dict(attributes or {})
        self.cell_methods = tuple(cell_methods or ())
        self._dim, self._aux = [], []
        self.aux_factories = ()
        for c, d in dim_coords_and_dims or []:
            self.add_dim_coord(c, d)
        for c, d in aux_coords_and_dims or []:
            self.add_aux_coord(c, d)

    @property
    def units(self):
        return self._u

    @units.setter
    def units(self, u):
        self._u = Unit(u) if not isinstance(u, Unit) else u

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, d):
        d = d if isinstance(d, np.ndarray) else np.asarray(d)
        if d.shape != self._data.shape:
            raise ValueError("Require cube data with shape %r, got %r." % (self._data.shape, d.shape))
        self._data = d

    shape = property(lambda s: s._data.shape)
    ndim = property(lambda s: s._data.ndim)
    dtype = property(lambda s: s._data.dtype)

    def core_data(self):
        return self._data

    lazy_data = core_data

    def has_lazy_data(self):
        return False

    @property
    def dim_coords(self):
        return tuple(c for c, d in sorted(self._dim, key=lambda t: t[1]))

    @property
    def aux_coords(self):
        return tuple(c for c, d in self._aux)

    derived_coords = ()
    mesh = None

    def add_dim_coord(self, coord, dim):
        dim = dim[0] if isinstance(dim, (tuple, list)) else dim
        if self.coords(coord.name()):
            raise ValueError("The coordinate %r already exists" % coord.name())
        self._dim.append((coord, dim))

    def add_aux_coord(self, coord, data_dims=None):
        if self.coords(coord.name()):
            raise ValueError("The coordinate %r already exists" % coord.name())
        dims = () if data_dims is None else ((data_dims,) if isinstance(data_dims, (int, np.integer)) else tuple(data_dims))
        self._aux.append((coord, dims))

    def remove_coord(self, coord):
        c = self.coord(coord)
        self._dim = [(x, d) for x, d in self._dim if x is not c]
        self._aux = [(x, d) for x, d in self._aux if x is not c]

    def replace_coord(self, new):
        old = self.coord(new.name())
        self._dim = [(new if x is old else x, d) for x, d in self._dim]
        self._aux = [(new if x is old else x, d) for x, d in self._aux]

    def coords(self, name_or_coord=None, dim_coords=None, dimensions=None, axis=None, var_name=None,
               standard_name=None, long_name=None, **_):
        pool = [] if dim_coords is False else [(c, (d,)) for c, d in sorted(self._dim, key=lambda t: t[1])]
        pool += [] if dim_coords is True else list(self._aux)
        name = name_or_coord.name() if hasattr(name_or_coord, "name") else name_or_coord
        out = []
        for c, d in pool:
            if name is not None and name not in (c.standard_name, c.long_name, c.var_name):
                continue
            if any(v is not None and getattr(c, k) != v for k, v in (
                    ("var_name", var_name), ("standard_name", standard_name), ("long_name", long_name))):
                continue
            if dimensions is not None:
                want = (dimensions,) if isinstance(dimensions, (int, np.integer)) else tuple(dimensions)
                if d != want:
                    continue
            if axis is not None and iris.util.guess_coord_axis(c) != axis.upper():
                continue
            out.append(c)
        return out

    def coord(self, name_or_coord=None, dim_coords=None, axis=None, dimensions=None, **k):
        found = self.coords(name_or_coord, dim_coords=dim_coords, axis=axis, dimensions=dimensions, **k)
        if len(found) != 1:
            raise CoordinateNotFoundError("Expected to find exactly 1 %s coordinate, but found %d." % (
                name_or_coord if isinstance(name_or_coord, str) else axis or name_or_coord, len(found)))
        return found[0]

    def coord_dims(self, coord):
        c = self.coord(coord)
        for x, d in self._dim:
            if x is c:
                return (d,)
        for x, d in self._aux:
            if x is c:
                return d

    def coord_system(self, spec=None):
        for c in self.coords():
            if c.coord_system is not None:
                return c.coord_system

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if Ellipsis in [k for k in key if not isinstance(k, (np.ndarray, list))]:
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (self.ndim - len(key) + 1) + key[i + 1:]
        key = key + (slice(None),) * (self.ndim - len(key))
        key = [k if isinstance(k, (slice, int, np.integer)) else np.asarray(k) for k in key]
        data = self._data
        gone, newdim, n = set(), {}, 0
        for i in range(self.ndim - 1, -1, -1):
            data = data[(slice(None),) * i + (key[i],)]
        for i, k in enumerate(key):
            if isinstance(k, (int, np.integer)):
                gone.add(i)
            else:
                newdim[i] = n
                n += 1
        data = data.copy() if isinstance(data, np.ndarray) else np.asarray(data)
        new = self._like(data)
        for c, d in self._dim:
            cc = c[key[d]] if not isinstance(key[d], slice) or key[d] != slice(None) else c.copy()
            if d in gone:
                new._aux.append((cc, ()))
            else:
                new._dim.append((cc, newdim[d]))
        for c, ds in self._aux:
            cc = c.copy()
            for ax in range(len(ds) - 1, -1, -1):
                if cc.ndim == len(ds):
                    pass
                p = cc._p[(slice(None),) * ax + (key[ds[ax]],)]
                b = None if cc._b is None else cc._b[(slice(None),) * ax + (key[ds[ax]],)]
                cc._p, cc._b = np.asarray(p), b
            if cc._p.ndim == 0:
                cc.points = cc._p
                cc.bounds = cc._b
            new._aux.append((cc, tuple(newdim[d] for d in ds if d not in gone)))
        return new

    def _like(self, data):
        new = Cube(data, self.standard_name, self.long_name, self.var_name, self._u,
                   copy.deepcopy(self.attributes), self.cell_methods)
        return new

    def copy(self, data=None):
        data = self._data.copy() if data is None else (data if isinstance(data, np.ndarray) else np.asarray(data))
        if data.shape != self.shape:
            raise ValueError("Cannot copy cube with new data of a different shape")
        new = self._like(data)
        new._dim = [(c.copy(), d) for c, d in self._dim]
        new._aux = [(c.copy(), d) for c, d in self._aux]
        return new

    def __deepcopy__(self, memo):
        return self.copy()

    def convert_units(self, unit):
        unit = Unit(unit)
        if unit != self._u:
            try:
                mask = np.ma.getmask(self._data)
                new = self._u.convert(np.array(np.ma.getdata(self._data)), unit)
            except ValueError as e:
                raise UnitConversionError(str(e))
            self._data = np.ma.array(new, mask=mask) if isinstance(self._data, np.ma.MaskedArray) else new
            self._u = unit

    def slices_over(self, ref):
        ref = ref if isinstance(ref, (list, tuple)) else [ref]
        dims = []
        for r in ref:
            dims += list(self.coord_dims(r)) if not isinstance(r, (int, np.integer)) else [r]
        dims = sorted(set(dims))
        for idx in np.ndindex(*[self.shape[d] for d in dims]):
            key = [slice(None)] * self.ndim
            for d, i in zip(dims, idx):
                key[d] = i
            yield self[tuple(key)]

    def slices(self, ref):
        ref = ref if isinstance(ref, (list, tuple)) else [ref]
        want = []
        for r in ref:
            want += list(self.coord_dims(r)) if not isinstance(r, (int, np.integer)) else [r]
        other = [d for d in range(self.ndim) if d not in want]
        for idx in np.ndindex(*[self.shape[d] for d in other]):
            key = [slice(None)] * self.ndim
            for d, i in zip(other, idx):
                key[d] = i
            out = self[tuple(key)]
            kept = sorted(want)
            order = [kept.index(d) for d in want]
            if order != list(range(len(order))):
                out.transpose(order)
            yield out

    def transpose(self, order=None):
        order = list(range(self.ndim))[::-1] if order is None else list(order)
        self._data = self._data.transpose(order)
        self._dim = [(c, order.index(d)) for c, d in self._dim]
        self._aux = [(c, tuple(order.index(x) for x in d)) for c, d in self._aux]

    def extract(self, constraint):
        return _con(constraint).extract(self)

    def add_cell_method(self, cm):
        self.cell_methods = tuple(self.cell_methods) + (cm,)

    def collapsed(self, coords, aggregator, **kw):
        coords = coords if isinstance(coords, (list, tuple)) else [coords]
        dims = tuple(sorted({d for c in coords for d in self.coord_dims(c)}))
        data = aggregator.call(self._data, dims, **kw)
        new = self._like(np.ma.asarray(data) if isinstance(data, np.ma.MaskedArray) else np.asarray(data))
        left = [d for d in range(self.ndim) if d not in dims]
        for c, d in self._dim:
            if d in dims:
                new._aux.append((c.collapsed() if c.dtype.kind in "if" else c[0], ()))
            else:
                new._dim.append((c.copy(), left.index(d)))
        for c, ds in self._aux:
            if any(d in dims for d in ds):
                if c.dtype.kind in "if":
                    new._aux.append((c.collapsed(), ()))
            else:
                new._aux.append((c.copy(), tuple(left.index(d) for d in ds)))
        new.cell_methods = tuple(self.cell_methods) + (CellMethod(aggregator.name, [c if isinstance(c, str) else c.name() for c in coords]),)
        return new

    def summary(self, shorten=False):
        return self.name()

    def _arith(self, other, op):
        o = other._data if isinstance(other, Cube) else other
        return self.copy(data=op(self._data, o))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: a / b)

    def __eq__(self, o):
        return (isinstance(o, Cube) and self.name() == o.name() and self._u == o._u and self.attributes == o.attributes
                and self.cell_methods == o.cell_methods and self.shape == o.shape
                and [c for c in self.dim_coords] == [c for c in o.dim_coords]
                and sorted(map(repr, self.aux_coords)) == sorted(map(repr, o.aux_coords))
                and bool(np.ma.allequal(self._data, o._data)))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(id(self))

    def __repr__(self):
        return "<cube %s / (%s) %s %s>" % (self.name(), self._u, self.shape, [c.name() for c in self.coords()])


class CubeList(list):
    def extract(self, constraints):
        cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
        return CubeList(r for con in cons for r in (c.extract(con) for c in self) if r is not None)

    def extract_cube(self, constraint):
        out = self.extract(constraint)
        if len(out) != 1:
            raise ConstraintMismatchError("Got %d cubes for constraint %r, expecting 1." % (len(out), constraint))
        return out[0]

    def extract_cubes(self, constraints):
        if isinstance(constraints, (list, tuple)):
            return CubeList(self.extract_cube(c) for c in constraints)
        return CubeList([self.extract_cube(constraints)])

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return CubeList(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return CubeList(list.__add__(self, o))

    def merge_cube(self):
        first = self[0]
        vary = []
        for c in first.coords():
            if first.coord_dims(c) == ():
                pts = [x.coord(c.name()) for x in self]
                if any(p != pts[0] for p in pts[1:]):
                    vary.append(c.name())
        for x in self:
            if x.shape != first.shape or x.name() != first.name() or x.attributes != first.attributes or x.units != first.units:
                raise Exception("failed to merge into a single cube")
        if len(self) == 1:
            return first.copy()
        if not vary:
            raise Exception("failed to merge into a single cube: duplicates")
        lead = [v for v in vary]
        key = "time" if "time" in lead else lead[0]
        order = sorted(range(len(self)), key=lambda i: self[i].coord(key).points[0])
        cubes = [self[i] for i in order]
        stack = np.ma.stack if any(isinstance(c.data, np.ma.MaskedArray) for c in cubes) else np.stack
        new = first._like(stack([c.data for c in cubes]))
        for c, d in cubes[0]._dim:
            new._dim.append((c.copy(), d + 1))
        for c, ds in cubes[0]._aux:
            if c.name() in vary:
                pts = np.array([x.coord(c.name()).points[0] for x in cubes])
                bds = None if c.bounds is None else np.array([x.coord(c.name()).bounds[0] for x in cubes])
                j = c.copy(points=pts, bounds=bds)
                if c.name() == key:
                    j.__class__ = DimCoord
                    new._dim.append((j, 0))
                else:
                    new._aux.append((j, (0,)))
            else:
                new._aux.append((c.copy(), tuple(d + 1 for d in ds)))
        return new

    def merge(self, unique=True):
        return CubeList([self.merge_cube()])


class Aggregator:
    def __init__(self, name, fn):
        self.name, self._fn = name, fn

    def __call__(self, *a, **k):
        return self

    def call(self, data, dims, **kw):
        return self._fn(data, dims, **kw)


def _mean(d, axis, weights=None, **k):
    return np.ma.average(d, axis=axis if weights is None else axis[0], weights=weights) if isinstance(d, np.ma.MaskedArray) or weights is not None else d.mean(axis=axis)


for _n, _f in dict(MEAN=_mean, SUM=lambda d, a, **k: d.sum(axis=a), MAX=lambda d, a, **k: d.max(axis=a),
                   MIN=lambda d, a, **k: d.min(axis=a), MEDIAN=lambda d, a, **k: np.median(d, axis=a),
                   STD_DEV=lambda d, a, ddof=1, **k: d.std(axis=a, ddof=ddof),
                   VARIANCE=lambda d, a, ddof=1, **k: d.var(axis=a, ddof=ddof)).items():
    setattr(iris.analysis, _n, Aggregator(dict(MEAN="mean", SUM="sum", MAX="maximum", MIN="minimum", MEDIAN="median",
                                               STD_DEV="standard_deviation", VARIANCE="variance")[_n], _f))


class CoordSystem:
    def __init__(self, *a, **k):
        self.args = (a, tuple(sorted(k.items())))
        self.semi_major_axis = a[0] if a else k.get("semi_major_axis")
        self.__dict__.update({q: v for q, v in k.items()})

    def __eq__(self, o):
        return type(self) is type(o) and self.args == o.args

    def __hash__(self):
        return hash(self.args)

    def as_cartopy_crs(self):
        return self

    as_cartopy_projection = as_cartopy_crs


for _n in ("GeogCS", "LambertAzimuthalEqualArea", "TransverseMercator", "RotatedGeogCS", "Mercator"):
    setattr(iris.coord_systems, _n, type(_n, (CoordSystem,), {}))
iris.coord_systems.CoordSystem = CoordSystem


def guess_coord_axis(c):
    n = c.name()
    if n in ("projection_x_coordinate", "longitude", "grid_longitude"):
        return "X"
    if n in ("projection_y_coordinate", "latitude", "grid_latitude"):
        return "Y"
    if n in ("height", "altitude", "pressure"):
        return "Z"
    if c.units.is_time_reference():
        return "T"


def new_axis(cube, scalar_coord=None, expand_extras=()):
    new = cube._like(cube.data[None])
    name = scalar_coord if isinstance(scalar_coord, str) or scalar_coord is None else scalar_coord.name()
    for c, d in cube._dim:
        new._dim.append((c.copy(), d + 1))
    for c, ds in cube._aux:
        if c.name() == name:
            j = c.copy()
            j.__class__ = DimCoord
            new._dim.append((j, 0))
        else:
            new._aux.append((c.copy(), tuple(d + 1 for d in ds)))
    return new


def squeeze(cube):
    return cube[tuple(0 if n == 1 else slice(None) for n in cube.shape)]


def promote_aux_coord_to_dim_coord(cube, name):
    c = cube.coord(name)
    for i, (x, ds) in enumerate(cube._aux):
        if x is c:
            old = [(y, d) for y, d in cube._dim if (d,) == ds]
            cube._dim = [(y, d) for y, d in cube._dim if (d,) != ds]
            del cube._aux[i]
            c.__class__ = DimCoord
            cube._dim.append((c, ds[0]))
            cube._aux += [(y, (d,)) for y, d in old]
            return


def equalise_attributes(cubes):
    keys = [k for k in cubes[0].attributes if all(k in c.attributes and c.attributes[k] == cubes[0].attributes[k] for c in cubes)]
    for c in cubes:
        for k in list(c.attributes):
            if k not in keys:
                del c.attributes[k]


for _f in (guess_coord_axis, new_axis, squeeze, promote_aux_coord_to_dim_coord, equalise_attributes):
    setattr(iris.util, _f.__name__, _f)
iris.util.broadcast_to_shape = lambda a, shape, dims: np.broadcast_to(
    np.asarray(a).reshape([shape[i] if i in dims else 1 for i in range(len(shape))]), shape)
iris.experimental_equalise = equalise_attributes
iris.coords.DimCoord, iris.coords.AuxCoord, iris.coords.CellMethod = DimCoord, AuxCoord, CellMethod
iris.coords.Coord, iris.coords.Cell = DimCoord, Cell
iris.cube.Cube, iris.cube.CubeList = Cube, CubeList
iris.Constraint, iris.AttributeConstraint, iris.NameConstraint = Constraint, AttributeConstraint, NameConstraint
iris._constraints = sys.modules.setdefault("iris._constraints", iris.util)


def grid(data, name="air_temperature", units="K", time=None, frt=None, extra=None, spacing=2000.0, bounds=False,
         attributes=None, time_bounds=None, latlon=False):
    """A cube whose last two dimensions are y and x; extra = [(coord, dim)] for leading ones."""
    data = np.asarray(data) if not isinstance(data, np.ma.MaskedArray) else data
    ny, nx = data.shape[-2:]
    nd = data.ndim
    names = ("latitude", "longitude") if latlon else ("projection_y_coordinate", "projection_x_coordinate")
    cs = iris.coord_systems.GeogCS(6371229.0) if latlon else iris.coord_systems.LambertAzimuthalEqualArea(54.9, -2.5)
    cube = Cube(data, units=units, attributes=attributes)
    cube.rename(name)
    cube.add_dim_coord(DimCoord((np.arange(ny) * spacing).astype(np.float32), names[0], units="degrees" if latlon else "m", coord_system=cs), nd - 2)
    cube.add_dim_coord(DimCoord((np.arange(nx) * spacing).astype(np.float32), names[1], units="degrees" if latlon else "m", coord_system=cs), nd - 1)
    if bounds:
        for n in names:
            cube.coord(n).guess_bounds()
    for c, d in extra or []:
        (cube.add_aux_coord(c) if d is None else cube.add_dim_coord(c, d))
    if time is not None:
        u = "seconds since 1970-01-01 00:00:00"
        cube.add_aux_coord(DimCoord(np.array([time], np.int64), "time", units=Unit(u, calendar="gregorian"), bounds=time_bounds))
        if frt is not None:
            cube.add_aux_coord(DimCoord(np.array([frt], np.int64), "forecast_reference_time", units=Unit(u, calendar="gregorian")))
            cube.add_aux_coord(DimCoord(np.array([time - frt], np.int32), "forecast_period", units="seconds",
                                        bounds=None if time_bounds is None else np.array(time_bounds, np.int32) - np.int32(0) if False else (None if time_bounds is None else (np.array(time_bounds) - frt).astype(np.int32))))
    return cube
