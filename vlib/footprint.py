"""What a value is computed from: the inputs, library operations, functions of this
repository, attributes and literals its normal form mentions.  Rewriting an expression
moves these around; dropping or adding one changes what the result depends on.

Two grains.  `features` (whole returned value, effect or refusal condition) leaves out
everything an idiomatic rewrite may exchange: builtins, container methods, reductions,
strings, small integers.  `local` (one operand in a known position) keeps reductions,
slices and larger integers as well.  Interchangeable spellings share a class."""
from .nodes import Node

CLASS = {}
for _c, _names in {
    "alloc": "zeros ones full empty zeros_like ones_like full_like empty_like",
    "join": "vstack hstack stack concatenate dstack column_stack concat chain append extend from_iterable",
    "minmax": "min max amin amax minimum maximum clip nanmin nanmax fmin fmax",
    "data": "data core_data lazy_data getdata",
    "mask": "mask is_masked getmaskarray getmask nomask",
    "coord": "coord coords",
    "axis": "swapaxes moveaxis rollaxis transpose T",
    "total": "sum nansum cumsum",
    "order": "sorted sort argsort reversed flip flipud fliplr",
    "finite": "isnan isfinite isinf",
    "radian": "radians deg2rad degrees rad2deg",
    "broadcast": "repeat tile meshgrid broadcast_to broadcast_arrays newaxis expand_dims atleast_1d atleast_2d atleast_3d",
    "trunc": "int floor ceil rint around round trunc",
}.items():
    for _n in _names.split():
        CLASS[_n] = _c

# never meaning-bearing on their own
IDIOM = {
    "len", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "frozenset", "str", "bool", "float",
    "iter", "next", "isinstance", "hasattr", "getattr", "setattr", "map", "filter", "any", "all", "type", "repr", "print",
    "slice", "callable", "issubclass", "object", "super", "divmod", "array", "asarray", "asanyarray", "copy", "deepcopy",
    "itemgetter", "attrgetter", "format", "where", "logical_and", "logical_or", "logical_not", "bitwise_and", "bitwise_or",
    "invert", "append", "extend", "get", "items", "keys", "values", "update", "pop", "setdefault", "insert", "add",
    "index", "count", "join", "tolist", "item", "view", "clear", "reshape", "flatten", "ravel", "squeeze", "remove",
    "discard", "dtype", "shape", "ndim", "size", "__name__", "__class__", "__doc__", "arange", "linspace", "shape", "size",
    "astype", "float32", "float64", "int32", "int64", "int8", "uint8", "bool_", "partial", "lambda", "startswith", "endswith",
    "split", "strip", "replace", "lower", "upper", "title", "add_aux_coord", "warn", "ndarray", "asscalar", "abs",
    "absolute", "mod", "multiply", "divide", "subtract", "true_divide", "power", "square", "sqrt", "count_nonzero",
    "issubset", "issuperset", "union", "intersection", "difference", "symmetric_difference", "debug", "info", "ndindex",
    "product", "nonzero", "flatnonzero", "equal", "less", "greater", "less_equal", "greater_equal", "not_equal", "negative",
    "fromkeys", "Iterable", "Sequence", "number", "floating", "integer", "ma", "newaxis", "take", "isscalar", "bool8",
    "__call__", "__init__", "__new__", "__getitem__", "isin", "in1d", "compress", "contains", "eq", "exp2", "reduce",
}
# exchanged freely over a whole function, meaningful in one position
WEAK = {"minmax", "total", "order", "join", "alloc", "trunc", "broadcast", "axis", "mean", "average", "argmax", "argmin",
        "unique", "diff", "fill", "filled", "coord", "data"}
_memo = ({}, {})


def word(s):
    s = s.rsplit(".", 1)[-1]
    return CLASS.get(s, s)


def own(n, fine):
    op, a = n.op, n.args
    if op in ("param", "selfattr", "global"):
        return f"{op} {a[0]}"
    if op == "mod":
        s = str(a[0])
        if s.split(".")[0] in ("itertools", "functools", "operator", "typing", "collections"):
            return None
        w = word(s)
        return None if w in IDIOM else f"{w}"
    if op == "call" and a[0] in ("isinstance", "issubclass") and len(a) == 3 and a[2].op == "call" and a[2].args[0] == "type" or \
            op in ("eq", "is") and all(x.op == "call" and x.args[0] == "type" or x.op == "attr" and x.args[1] == "__class__" for x in a):
        return "whether two values are of one kind"
    if op in ("call", "m", "mcall", "pm"):
        s = a[0]
        if not isinstance(s, str) or s.split(".")[0] in ("itertools", "functools", "operator", "typing", "collections"):
            return None
        w = word(s)
        if s.startswith("improver.") or s.startswith("self.") or s.startswith("super"):
            return None if w in IDIOM else f"call of {s}"
        if w in IDIOM or not fine and w in WEAK:
            return None
        return w
    if op == "fn":
        return f"call of {a[0]}" if isinstance(a[0], str) else None
    if op in ("attr", "pattr"):
        w = word(str(a[1] if op == "attr" else a[0]))
        if w in IDIOM or not fine and w in WEAK:
            return None
        return w
    if op == "eq" and fine and all(x.op == "call" and x.args[0] in ("set", "frozenset", "sorted", "collections.Counter") for x in a):
        return "comparison regardless of order"
    if op == "bin":
        return f"operator {a[0]}"
    if op == "slice":
        return "slice" if fine else None
    if op == "const":
        v = a[0]
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return None
        if isinstance(v, (int, float)):
            if v in (0, 1, -1, 0.5, -0.5):
                return None
            if v == int(v) if v == v and abs(v) != float("inf") else False:
                if abs(v) < 4 or not fine and abs(v) < 20:
                    return None
            return f"literal {abs(v)!r}"
        return None
    return None


def _f(n, fine):
    memo = _memo[fine]
    r = memo.get(n.dig)
    if r is None:
        s = set()
        for a in n.args if n.op != "pos" else ():       # a position among things iterated together
            if isinstance(a, Node):
                s |= _f(a, fine)
        x = own(n, fine)
        if x:
            s.add(x)
        r = memo[n.dig] = frozenset(s)
    return r


def features(n):
    return _f(n, 0)


def local(n):
    return _f(n, 1)


_nest = {}


def nest(n):
    """(functions of this repository used in n, pairs of which the first is applied to a
    result of the second)."""
    r = _nest.get(n.dig)
    if r is None:
        names, pairs = set(), set()
        for a in n.args:
            if isinstance(a, Node):
                x, y = nest(a)
                names |= x
                pairs |= y
        me = n.args[0] if n.op in ("fn", "call") and n.args and isinstance(n.args[0], str) else None
        if me and (n.op == "fn" or me.startswith(("self.", "improver."))):
            pairs |= {(me, x) for x in names if x != me}
            names.add(me)
        r = _nest[n.dig] = (frozenset(names), frozenset(pairs))
    return r


def exchanged(r, c):
    a, b = nest(r)[1], nest(c)[1]
    for x, y in sorted(a):
        if (y, x) not in a and (y, x) in b and (x, y) not in b:
            return f"{y} is now applied to the result of {x} instead of before it"
    return None


_keys, _words = {}, {}


def entries(n):
    """Names under which entries are put in containers."""
    r = _keys.get(n.dig)
    if r is None:
        s = set()
        for a in n.args:
            if isinstance(a, Node):
                s |= entries(a)
        if n.op == "setitem" and isinstance(n.args[0], Node) and n.args[0].op == "const" and isinstance(n.args[0].args[0], str):
            s.add(n.args[0].args[0])
        r = _keys[n.dig] = frozenset(s)
    return r


def words(n):
    """Every string there is."""
    r = _words.get(n.dig)
    if r is None:
        s = set()
        for a in n.args:
            if isinstance(a, Node):
                s |= words(a)
            elif isinstance(a, str):
                s.add(a)
        r = _words[n.dig] = frozenset(s)
    return r


def changed(r, c, fine):
    """-> text describing what the value depends on no longer / newly, or None."""
    a, b = _f(r, fine), _f(c, fine)
    if fine and "order" in a ^ b and "minmax" in a ^ b or fine and ("minmax" in b - a and "order" in a and "minmax" not in a or "minmax" in a - b and "order" in b):
        a, b = a - {"order", "minmax"}, b - {"order", "minmax"}       # ends of the sorted ones
    gone, new = sorted(a - b), sorted(b - a)
    if not gone and not new:
        lost, put = sorted(entries(r) - words(c)), sorted(entries(c) - words(r))
        if (lost or put) and not r.opq and not c.opq:
            return "entry " + ", ".join(repr(k) + (" no longer set" if k in lost else " newly set") for k in lost + put)
        return exchanged(r, c)
    t = []
    if gone:
        t.append("no longer uses " + ", ".join(gone[:4]))
    if new:
        t.append("newly uses " + ", ".join(new[:4]))
    return "; ".join(t)
