"""Parameter names of library routines, so that an argument given by position and the same
one given by name are one thing.  A name ending in = is optional: it is always written by name."""
SIG = {
    "cf_units.Unit": "unit calendar=None",
    "datetime.timedelta": "days seconds= microseconds= milliseconds= minutes= hours= weeks=",
    "iris.Constraint": "name cube_func=None coord_values=None",
    "iris.analysis.Linear": "extrapolation_mode",
    "iris.analysis.Nearest": "extrapolation_mode",
    "iris.coords.AuxCoord": "points standard_name=None long_name=None var_name=None units=None bounds=None attributes=None coord_system=None climatological=False",
    "iris.coords.CellMethod": "method coords=None intervals=None comments=None",
    "iris.coords.DimCoord": "points standard_name=None long_name=None var_name=None units=None bounds=None attributes=None coord_system=None circular=False climatological=False",
    "iris.cube.Cube": "data standard_name=None long_name=None var_name=None units= attributes=None cell_methods=None dim_coords_and_dims=None aux_coords_and_dims=None aux_factories=None",
    "iris.load": "uris constraints= callback=",
    "iris.load_cube": "uris constraints= callback=",
    "iris.load_cubes": "uris constraints= callback=",
    "iris.load_raw": "uris constraints= callback=",
    "iris.util.broadcast_to_shape": "array shape dim_map",
    "iris.util.new_axis": "src_cube scalar_coord= expand_extras=",
    "json.load": "fp",
    "json.loads": "s",
    "numpy.all": "a axis=None out=None keepdims=False",
    "numpy.allclose": "a b rtol= atol= equal_nan=False",
    "numpy.angle": "z deg=False",
    "numpy.any": "a axis=None out=None keepdims=False",
    "numpy.append": "arr values axis=None",
    "numpy.argmax": "a axis=None out=None",
    "numpy.argmin": "a axis=None out=None",
    "numpy.argsort": "a axis=-1 kind=None order=None",
    "numpy.array": "object dtype=None",
    "numpy.array_equal": "a1 a2 equal_nan=False",
    "numpy.asarray": "a dtype=None order=None",
    "numpy.ascontiguousarray": "a dtype=None",
    "numpy.average": "a axis=None weights=None returned=False",
    "numpy.broadcast_to": "array shape subok=False",
    "numpy.clip": "a a_min a_max out=None",
    "numpy.concatenate": "arrays axis=0 out=None",
    "numpy.count_nonzero": "a axis=None",
    "numpy.cumsum": "a axis=None dtype= out=",
    "numpy.delete": "arr obj axis=None",
    "numpy.diff": "a n=1 axis=-1 prepend= append=",
    "numpy.digitize": "x bins right=False",
    "numpy.dot": "a b out=None",
    "numpy.empty": "shape dtype=None order='C'",
    "numpy.empty_like": "prototype dtype=None order='K' subok=True shape=None",
    "numpy.expand_dims": "a axis",
    "numpy.flip": "m axis=None",
    "numpy.fromiter": "iter dtype count=-1",
    "numpy.full": "shape fill_value dtype=None order='C'",
    "numpy.full_like": "a fill_value dtype=None order='K' subok=True shape=None",
    "numpy.insert": "arr obj values axis=None",
    "numpy.interp": "x xp fp left=None right=None period=None",
    "numpy.isclose": "a b rtol= atol= equal_nan=False",
    "numpy.isin": "element test_elements assume_unique=False invert=False",
    "numpy.issubdtype": "arg1 arg2",
    "numpy.lexsort": "keys axis=-1",
    "numpy.lib.stride_tricks.as_strided": "x shape=None strides=None subok=False writeable=True",
    "numpy.linspace": "start stop num=50 endpoint=True retstep=False dtype=None axis=0",
    "numpy.ma.MaskedArray": "data mask= dtype=None copy=False subok=True ndmin=0 fill_value=None keep_mask=True hard_mask=None shrink=True order=None",
    "numpy.ma.all": "a axis=None out=None keepdims=False",
    "numpy.ma.any": "a axis=None out=None keepdims=False",
    "numpy.ma.array": "data dtype=None copy=False order=None mask= fill_value=None keep_mask=True hard_mask=False shrink=True subok=True ndmin=0",
    "numpy.ma.asarray": "a dtype=None order=None",
    "numpy.ma.average": "a axis=None weights=None returned=False",
    "numpy.ma.concatenate": "arrays axis=0",
    "numpy.ma.filled": "a fill_value=None",
    "numpy.ma.getdata": "a subok=True",
    "numpy.ma.masked_array": "data mask= dtype=None copy=False subok=True ndmin=0 fill_value=None keep_mask=True hard_mask=None shrink=True order=None",
    "numpy.ma.masked_equal": "x value copy=True",
    "numpy.ma.masked_greater": "x value copy=True",
    "numpy.ma.masked_greater_equal": "x value copy=True",
    "numpy.ma.masked_invalid": "a copy=True",
    "numpy.ma.masked_less": "x value copy=True",
    "numpy.ma.masked_less_equal": "x value copy=True",
    "numpy.ma.masked_where": "condition a copy=True",
    "numpy.ma.max": "a axis=None out=None keepdims=False initial= where=",
    "numpy.ma.mean": "a axis=None dtype=None out=None keepdims=False",
    "numpy.ma.median": "a axis=None out=None overwrite_input=False keepdims=False",
    "numpy.ma.min": "a axis=None out=None keepdims=False initial= where=",
    "numpy.ma.stack": "arrays axis=0 out=None",
    "numpy.ma.sum": "a axis=None dtype=None out=None keepdims=False initial= where=",
    "numpy.ma.zeros": "shape dtype=None order='C'",
    "numpy.max": "a axis=None out=None keepdims=False initial= where=",
    "numpy.mean": "a axis=None dtype=None out=None keepdims=False",
    "numpy.median": "a axis=None out=None overwrite_input= keepdims=False",
    "numpy.min": "a axis=None out=None keepdims=False initial= where=",
    "numpy.moveaxis": "a source destination",
    "numpy.nan_to_num": "x copy=True nan= posinf=None neginf=None",
    "numpy.nanargmax": "a axis=None out=None",
    "numpy.nanmax": "a axis=None out=None keepdims=False initial= where=",
    "numpy.nanmean": "a axis=None dtype=None out=None keepdims=False",
    "numpy.nanmin": "a axis=None out=None keepdims=False initial= where=",
    "numpy.nanstd": "a axis=None dtype=None out=None ddof=0 keepdims=False",
    "numpy.nansum": "a axis=None dtype=None out=None keepdims=False",
    "numpy.ones": "shape dtype=None order='C'",
    "numpy.ones_like": "a dtype=None order='K' subok=True shape=None",
    "numpy.pad": "array pad_width mode='constant'",
    "numpy.percentile": "a q axis=None out=None overwrite_input=False method='linear' keepdims=False",
    "numpy.prod": "a axis=None dtype=None out=None keepdims=False initial= where=",
    "numpy.ptp": "a axis=None out=None keepdims=False",
    "numpy.put_along_axis": "arr indices values axis",
    "numpy.repeat": "a repeats axis=None",
    "numpy.searchsorted": "a v side='left' sorter=None",
    "numpy.size": "a axis=None",
    "numpy.sort": "a axis=-1 kind=None order=None",
    "numpy.squeeze": "a axis=None",
    "numpy.stack": "arrays axis=0 out=None",
    "numpy.std": "a axis=None dtype= out= ddof=0 keepdims=False",
    "numpy.sum": "a axis=None dtype=None out=None keepdims=False initial= where=",
    "numpy.swapaxes": "a axis1 axis2",
    "numpy.take": "a indices axis=None out=None mode='raise'",
    "numpy.testing.assert_allclose": "actual desired rtol= atol=0 equal_nan=True err_msg='' verbose=True",
    "numpy.testing.assert_equal": "actual desired err_msg='' verbose=True",
    "numpy.tile": "A reps",
    "numpy.transpose": "a axes=None",
    "numpy.unique": "ar return_index=False return_inverse=False return_counts=False axis=None",
    "numpy.var": "a axis=None dtype= out= ddof=0 keepdims=False",
    "numpy.zeros": "shape dtype=None order='C'",
    "numpy.zeros_like": "a dtype=None order='K' subok=True shape=None",
    "os.makedirs": "name mode= exist_ok=False",
    "scipy.interpolate.griddata": "points values xi method='linear' fill_value= rescale=False",
    "scipy.interpolate.interp1d": "x y kind='linear' axis=-1 copy=True bounds_error= fill_value= assume_sorted=",
    "scipy.ndimage.convolve": "input weights output= mode= cval= origin=",
    "scipy.ndimage.filters.uniform_filter": "input size output= mode= cval= origin=",
    "scipy.ndimage.label": "input structure=None output=",
    "scipy.ndimage.uniform_filter": "input size output= mode= cval= origin=",
    "scipy.spatial.cKDTree": "data leafsize=",
}
METHODS = {
    "add_ancillary_variable": "ancillary_variable data_dims=",
    "add_aux_coord": "coord data_dims",
    "add_cell_measure": "cell_measure data_dims_or_name=",
    "add_cell_method": "cell_method",
    "add_dim_coord": "dim_coord data_dim",
    "aggregated_by": "coords aggregator",
    "astype": "dtype order= casting= subok= copy=",
    "cell": "index",
    "collapsed": "coords aggregator",
    "concatenate_cube": "check_aux_coords",
    "convert": "value other ctype=",
    "convert_units": "unit",
    "coord": "name_or_coord|name standard_name=",
    "coord_dims": "coord",
    "coords": "name_or_coord standard_name=",
    "copy": "data|points bounds=None",
    "date2num": "date",
    "extract": "constraint",
    "filled": "fill_value",
    "guess_bounds": "bound_position",
    "interpolate": "sample_points scheme collapse_scalar=True",
    "is_compatible": "other",
    "isin": "values",
    "merge_cube": "unique",
    "nearest_neighbour_index": "point",
    "num2date": "time_value",
    "regrid": "grid scheme",
    "remove_coord": "coord",
    "rename": "name",
    "replace_coord": "new_coord",
    "rsplit": "sep maxsplit=",
    "setdefault": "key default",
    "slices": "ref_to_slice ordered=True",
    "slices_over": "ref_to_slice",
    "split": "sep maxsplit=",
    "strftime": "format|fmt",
    "transpose": "new_order",
}


def settle(sig, pos, kws, value):
    """The same arguments, the required ones by position and the optional ones by name,
    without those that only repeat the default."""
    names = [w.partition("=") for w in sig.split()]
    kd = dict(kws)
    if len(pos) > len(names) or len(kd) != len(kws):
        return pos, kws
    outp, outk, used, gap = [], [], set(), False
    for i, (nm, opt, dflt) in enumerate(names):
        al = nm.split("|")
        given = [a for a in al if a in kd]
        if i < len(pos):
            if given:
                return pos, kws
            v = pos[i]
        elif given:
            v = kd[given[0]]
            used.add(given[0])
        else:
            gap = True
            continue
        if dflt:
            n = value(v)
            if n.op == "const" and repr(n.args[0]) == dflt:
                gap = True
                continue
        if opt or gap:
            outk.append((al[0], v))
        else:
            outp.append(v)
    return outp, outk + [(k, v) for k, v in kws if k not in used]
