"""Compare a confirmed contract node with the node computed from the current
source.  Three outcomes: equal (value-preserving normal forms coincide),
`E` = a localised difference that changes the value (positive evidence), and
`U` = shapes the normaliser cannot relate (undecided, never an alarm)."""
import builtins

from .nodes import C, N, and_, contains, Node, TRUE, FALSE, NONE, is_num, not_, show, lits, ite, isboolish, or_, add, neg
from .logic import cases, cond, equivalent, varies
from .footprint import changed as footprint, word


def contains_op(n, op, depth=4):
    """Whether something of this kind is near the top of n."""
    return n.op == op or depth > 0 and any(contains_op(a, op, depth - 1) for a in n.args if isinstance(a, Node))



REDUCE = {"max", "min", "sum", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.sum", "numpy.mean", "mean", "any", "all", "numpy.any",
          "numpy.all", "numpy.nanmax", "numpy.nanmin"}
SETOPS = {"and", "or", "add", "mul", "set", "updates", "effects", "stores", "raiseif", "dict", "defaults"}
# externals whose exchange (same arguments) changes the value
CONTRAST = {
    "numpy.sum", "numpy.mean", "numpy.max", "numpy.min", "numpy.any", "numpy.all", "numpy.nansum", "numpy.nanmean",
    "numpy.nanmax", "numpy.nanmin", "numpy.floor", "numpy.ceil", "numpy.around", "numpy.round", "numpy.rint",
    "numpy.trunc", "numpy.argmax", "numpy.argmin", "numpy.argsort", "numpy.sort", "numpy.cumsum", "numpy.cumprod",
    "numpy.prod", "numpy.diff", "numpy.isnan", "numpy.isfinite", "numpy.isinf", "numpy.abs", "numpy.exp", "numpy.log",
    "numpy.log10", "numpy.log1p", "numpy.expm1", "numpy.sin", "numpy.cos", "numpy.tan", "numpy.arcsin",
    "numpy.arccos", "numpy.arctan", "numpy.arctan2", "numpy.zeros", "numpy.ones", "numpy.zeros_like",
    "numpy.ones_like", "numpy.full", "numpy.full_like", "numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin",
    "numpy.ma.masked_where", "numpy.ma.masked_less", "numpy.ma.masked_greater", "numpy.ma.masked_less_equal",
    "numpy.ma.masked_greater_equal", "numpy.ma.masked_equal", "numpy.ma.masked_not_equal", "numpy.isclose",
    "numpy.union1d", "numpy.intersect1d", "numpy.setdiff1d", "numpy.std", "numpy.var", "numpy.median",
    "numpy.percentile", "numpy.nanpercentile", "numpy.deg2rad", "numpy.rad2deg", "numpy.radians", "numpy.degrees",
    "numpy.float32", "numpy.float64", "numpy.int32", "numpy.int64", "numpy.int8", "numpy.uint8", "numpy.nan",
    "numpy.inf", "numpy.ndindex", "numpy.vstack", "numpy.hstack", "max", "min", "sum", "len", "int", "float", "str",
    "round", "sorted", "reversed", "math.floor", "math.ceil", "math.log", "math.exp", "any", "all",
    "numpy.ma.sum", "numpy.ma.mean", "numpy.ma.max", "numpy.ma.min", "numpy.clip", "numpy.interp", "numpy.unique",
    "numpy.fliplr", "numpy.flipud", "numpy.ma.masked", "numpy.ma.nomask", "numpy.digitize", "numpy.mod",
    "bool", "datetime.timedelta", "datetime.datetime", "numpy.flip", "numpy.roll", "numpy.rollaxis",
    "numpy.searchsorted", "numpy.count_nonzero", "numpy.logical_xor", "numpy.sign", "numpy.nan_to_num",
}
CONTRAST_M = {
    "seconds", "days", "upper", "lower", "startswith", "endswith", "append", "extend", "remove", "add_aux_coord",
    "remove_coord", "replace_coord", "union", "intersection", "difference", "symmetric_difference", "issubset",
    "issuperset", "ravel", "extract", "slices", "slices_over", "coord", "coords", "merge_cube", "concatenate_cube",
    "convert_units", "standard_name", "long_name", "var_name", "points", "bounds", "mask", "data", "lower", "upper",
    "convert", "date2num", "num2date", "sum", "mean", "keys", "values", "items", "pdf", "cdf", "ppf", "index",
    "find", "rfind", "split", "rsplit", "strip", "lstrip", "rstrip", "astype", "total_seconds", "fill", "insert",
    "add_dim_coord", "any", "all", "collapsed", "aggregated_by", "rolling_window", "regrid", "sort", "reverse",
}
# wrappers that do not change the value seen by an observer of the result
TRANSPARENT = {"list", "tuple", "numpy.array", "numpy.asarray", "numpy.asanyarray", "copy.copy", "copy.deepcopy",
               "float", "int", "str", "numpy.ma.array", "iter", "bool", "improver.utilities.flatten"}
TRANSPARENT_M = {"copy", "keys", "view", "item", "tolist"}
ATOM = {"param", "selfattr", "global", "mod"}

BIG = 6


def N_and(ls):
    from .nodes import and_
    return and_(*ls)


def asbool(n):
    return or_(*n.args) if n.op == "raiseif" else n


# functions of which the masked version treats masked points otherwise
MASKING = {"where", "nonzero", "mean", "sum", "max", "min", "average", "median", "concatenate", "stack", "vstack", "hstack", "sqrt", "log", "exp",
           "argmax", "argmin", "cumsum", "sort", "any", "all", "zeros_like", "ones_like", "unique", "allclose", "allequal", "minimum", "maximum"}
UNARY = {"numpy.abs", "numpy.exp", "numpy.log", "numpy.log10", "numpy.log2", "numpy.sqrt", "numpy.sin", "numpy.cos", "numpy.tan",
         "numpy.sign", "numpy.expm1", "numpy.log1p", "numpy.floor", "numpy.ceil", "numpy.trunc", "numpy.rint"}


def unary(n):
    """(function, operand) of an elementwise function of one operand."""
    if n.op == "call" and len(n.args) == 2 and n.args[0] in UNARY:
        return n.args[0], n.args[1]
    if n.op == "pow" and n.args[1].op == "const":
        return f"power {n.args[1].args[0]}", n.args[0]
    return None


def combination(n):
    """{term: factor} of a sum of multiples of plain terms, else None."""
    out = {}
    for t in n.args if n.op == "add" else (n,):
        k, x = 1, t
        if is_num(t):
            k, x = t.args[0], None
        elif t.op == "mul" and len(t.args) == 2 and any(is_num(a) for a in t.args):
            k, x = next(a.args[0] for a in t.args if is_num(a)), next((a for a in t.args if not is_num(a)), None)
        if x is not None and (x.opq or x.op in ("add", "mul", "pow", "bin", "ite", "loop", "opaque")):
            return None
        d = x.dig if x is not None else ""
        out[d] = out.get(d, 0) + k
    return {d: k for d, k in out.items() if k} if any(out) else None


def unfiltered(n):
    """S where n is [x for x in S if ...]."""
    if n.op in ("list", "set") and len(n.args) == 1 and n.args[0].op == "item" and len(n.args[0].args) == 2:
        v, g = n.args[0].args
        if v.op == "elem" and len(lits(g)) > 1 and any(x.op == "each" and x.args[0] is v.args[0] for x in lits(g)):
            return v.args[0]
    return None


def literal(n):
    """A list of constants written out."""
    return n.op in ("list", "tuple", "set") and bool(n.args) and all(
        (x.args[0] if x.op == "item" and len(x.args) == 1 else x).op == "const" for x in n.args if isinstance(x, Node))


def taken(r, c):
    """r holds certain entries of a collection of which c is a copy."""
    r, c = [x.args[1] if x.op == "call" and x.args[0] == "dict" and len(x.args) == 2 else x for x in (r, c)]
    if r.op == "dict" and r.args and c.op == "ite" and c.args[2].op == "dict" and not c.args[2].args and \
            all(e.op == "ent" and len(e.args) == 3 and e.args[2] is c.args[0] for e in r.args):
        r, c = N("dict", *[N("ent", *e.args[:2]) for e in r.args]), c.args[1]
    if r.op != "dict" or not r.args or any(e.op != "ent" or e.args[1].op != "idx" or e.args[1].args[1] is not e.args[0] for e in r.args):
        return False
    y = c.args[1] if c.op == "m" and c.args[0] == "copy" and len(c.args) == 2 else c
    return all(e.args[1].args[0] is y for e in r.args)


# (exception, what it is a kind of), as far as `except` clauses here need it
KINDS = {"CoordinateNotFoundError": {"KeyError"}, "UnitConversionError": {"IrisError"}, "ConstraintMismatchError": {"IrisError"},
         "InvalidCubeError": {"IrisError"}, "MergeError": {"IrisError"}, "ConcatenateError": {"IrisError"}, "QhullError": {"RuntimeError"}}


def kinds(name):
    t = getattr(builtins, name, None)
    if isinstance(t, type) and issubclass(t, BaseException):
        return {x.__name__ for x in t.__mro__}
    return KINDS.get(name, {"?"}) | {name, "Exception", "BaseException"}


def caught(r, c):
    """An exception that only one of two clauses handles."""
    a, b = set(r.args), set(c.args)
    for names, other, how in ((a - b, b, "no longer"), (b - a, a, "newly")):
        for x in sorted(names, key=str):
            k = kinds(str(x))
            if "?" not in k and not k & other and not any(str(x) in kinds(str(y)) or "?" in kinds(str(y)) for y in other - (a & b)):
                return f"{x} {how} handled"
    return None


def picks(n):
    """Per dimension, what a written-out index takes (None where unknown)."""
    out = []
    for x in n.args if n.op == "tuple" else (n,):
        if x.op == "const" and isinstance(x.args[0], int):
            out.append(x.args[0])
        elif x.op == "slice" and all(y.op == "const" for y in x.args):
            a, b, k = [y.args[0] for y in x.args]
            out.append((None if a == 0 and (k is None or k > 0) else a, b, None if k == 1 else k))
        else:
            return None
    while out and out[-1] == (None, None, None):
        out.pop()
    return out


def someof(n):
    """The condition of which n says that it holds at least once."""
    if n.op == "call" and n.args[0] == "any" and len(n.args) == 2 and n.args[1].op == "list" and len(n.args[1].args) == 1 \
            and n.args[1].args[0].op == "item" and n.args[1].args[0].args[0] is TRUE and len(n.args[1].args[0].args) == 2:
        return n.args[1].args[0].args[1]
    return None


class Leaf(str):
    """An undecided pair of corresponding places."""
    def __new__(cls, r, c):
        x = str.__new__(cls, f"{show(r, 3)[:160]}  vs  {show(c, 3)[:160]}")
        x.pair = r, c
        return x


class Diff:
    def __init__(self, plain=frozenset(), methods=frozenset()):
        self.methods = methods  # method names of the confirmed source
        self.memo = {}
        self.budget = 20000
        self.trust = True       # r and c are known to stand for the same operand
        self.plain = plain      # digests of options holding text, numbers or sequences
        self.refusing = False   # comparing the condition of a refusal

    def d(self, r, c):
        """-> (evidence list, undecided list)"""
        if r is c:
            return (), ()
        k = (r.dig, c.dig, self.trust, self.refusing)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = ((), ("cycle",))
        self.budget -= 1
        t = self.trust
        if self.budget < 0:
            res = ((), ("budget",))
        else:
            res = self._d(r, c)
            self.trust = t
            if res[0] or res[1]:
                ops = {r.op, c.op}
                if ops & {"ite", "obj", "effects", "updates", "stores"} and equivalent(r, c):
                    res = ((), ())
                elif ops & {"and", "or", "not", "raiseif"} and (isboolish(r) or r.op == "raiseif") and \
                        equivalent(asbool(r), asbool(c), True):
                    res = ((), ())
        self.memo[k] = res
        return res

    def ev(self, msg):
        return (msg,), ()

    def un(self, r, c):
        if self.trust and not r.opq and not c.opq:
            t = footprint(r, c, 1)
            if t:
                return self.ev(f"{t}: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}")
        if not r.opq and not c.opq:
            return (), (Leaf(r, c),)
        return (), (f"{show(r, 3)[:160]}  vs  {show(c, 3)[:160]}",)

    def loosely(self, r, c):
        """d without knowing that r and c correspond."""
        t, self.trust = self.trust, False
        x = self.d(r, c)
        self.trust = t
        return x

    def _d(self, r, c):
        if r.opq or c.opq:
            if r.op == "opaque" or c.op == "opaque":
                return self.un(r, c)
        for x, y in ((r, c), (c, r)):
            # a list filled by position, or a sum written out
            if x.op in ("rep", "obj") and y.op == "list" and (x if x.op == "rep" else x.args[0]).op == "rep" or \
                    x.op in ("add", "concat") and y.op == "call" and y.args[0] == "sum":
                return (), (f"{show(r, 3)[:160]}  vs  {show(c, 3)[:160]}",)
            if x.op == "obj" and all(u.op == "upd" for u in x.args[1:]):
                ms = {q.args[0] for u in x.args[1:] for q in u.args[:1] if q.op == "mcall"}
                us = [q for u in x.args[1:] for q in u.args[:1]]
                if ms & {"insert", "append", "extend"} and y.op in ("concat", "ite", "list") and contains_op(y, "concat") or \
                        any(q.op == "setitem" and (q.args[0].op == "lt" or q.args[0].op == "not" and q.args[0].args[0].op == "lt") for q in us) and y.op in ("call", "m") and word(str(y.args[0])) == "minmax" or \
                        any(q.op == "at" and q.args[0].op == "pelem" for q in us) and y.op in ("list", "call") and contains_op(y, "item"):
                    # put in afterwards or at once; limited in place or by a function; changed in place or while listed
                    return (), (f"{show(r, 3)[:160]}  vs  {show(c, 3)[:160]}",)
                if ms and (y.op == "list" and ms <= {"pop", "remove", "insert"} and any(p.op == "item" and len(p.args) == 2 for p in y.args)
                           or y.op == "dict" and ms == {"update"} and any(p.op == "dsplice" for p in y.args)):
                    # entries taken out or put in afterwards, or chosen at once
                    return (), (f"{show(r, 3)[:160]}  vs  {show(c, 3)[:160]}",)
            if x.op == "obj" and y.op == "where" and len(x.args) == 2 and x.args[1].op == "upd" and len(x.args[1].args) == 1 and \
                    x.args[1].args[0].op == "setitem" and len(x.args[1].args[0].args) == 2:
                # points set in place, or chosen: the same but for masked points
                k, v = x.args[1].args[0].args
                for q, a, b in ((y.args[0], y.args[1], y.args[2]), (not_(y.args[0]), y.args[2], y.args[1])):
                    if b is x.args[0]:
                        e, u = self.join(self.d(k, q) if x is r else self.d(q, k), self.d(v, a) if x is r else self.d(a, v))
                        return (e, u) if e else ((), u + ("set in place or chosen",))
        # object state
        if r.op == "obj" or c.op == "obj":
            rb, ru = (r.args[0], r.args[1:]) if r.op == "obj" else (r, ())
            cb, cu = (c.args[0], c.args[1:]) if c.op == "obj" else (c, ())
            e1, u1 = self.d(rb, cb)
            e2, u2 = self.sets("update", ru, cu, r) if ru != cu else ((), ())
            return e1 + e2, u1 + u2
        if r.op == "pos" and c.op == "pos":
            return (), ("position",)
        if r.op == c.op == "exc":
            x = caught(r, c)
            if x:
                return self.ev(f"{x}: expected {show(r)}, found {show(c)}")
        if r.op == c.op == "idx" and r.args[0] is c.args[0] and "tuple" in (r.args[1].op, c.args[1].op):
            x, y = picks(r.args[1]), picks(c.args[1])
            if x is not None and y is not None and x != y:
                return self.ev(f"other elements taken: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}")
        if r.op == c.op == "mcall" and {r.args[0], c.args[0]} == {"insert", "append"} and r.args[-1] is c.args[-1]:
            return self.ev(f"{r.args[0]} became {c.args[0]}: {show(r.args[-1], 4)[:200]}")
        for o, i in ((r, c), (c, r)):
            if o.op == "eq" and i.op == "m" and i.args[0] in ("issubset", "issuperset") and set(i.args[1:]) == set(o.args):
                return self.ev(f"comparison of sets changed: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}")
            if i.op == "carry" and o is i.args[1] and self.trust:
                return self.ev(f"each pass now {'builds on the one before' if o is r else 'starts again'}: {show(o, 4)[:200]}")
            if r.op == c.op and r.op in ("elem", "each") and i.args[0].op == "carry" and o.args[0] is i.args[0].args[1]:
                return self.ev(f"each pass now {'builds on the one before' if o is r else 'starts again'}: {show(o, 4)[:200]}")
        # a yes/no field written as truth values, negated
        for x, y in ((r, c), (c, r)):
            if x.op == "not" and y.op == "m" and y.args[0] == "astype" and len(y.args) == 3 and y.args[1] is x.args[0] and \
                    y.args[2].op == "mod" and y.args[2].args[0] in ("bool", "numpy.bool_", "numpy.bool8"):
                return self.ev(f"negation {'dropped' if x is r else 'added'}: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}")
        x, y = unary(r), unary(c)
        if x and y and x[1] is y[1] and x[0] != y[0]:
            return self.ev(f"{x[0]} became {y[0]}: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}")
        if r.op == "const" and c.op == "const":
            return self.ev(f"{show(r)} became {show(c)}")
        if {r.op, c.op} == {"mod", "const"} and all(is_num(x) or x.op == "mod" and x.args[0] in ("numpy.nan", "numpy.inf", "numpy.pi", "numpy.e") for x in (r, c)):
            return self.ev(f"{show(r)} became {show(c)}")
        if r.op == "not" and r.args[0] is c:
            return self.ev(f"negation dropped: expected {show(r, 5)}, found {show(c, 5)}")
        if c.op == "not" and c.args[0] is r:
            return self.ev(f"negated: expected {show(r, 5)}, found {show(c, 5)}")
        for x, y in ((r, c), (c, r)):
            g, h = someof(x.args[0]) if x.op == "not" else None, someof(y)
            if g is not None and h is not None:
                a = [l for l in lits(g) if l not in lits(h)]
                b = [l for l in lits(h) if l not in lits(g)]
                if a and b and not_(and_(*a)) is and_(*b):
                    return self.ev(f"{'every became some' if x is r else 'some became every'}: {show(and_(*b), 4)[:200]}")
        # comparison strictness / direction
        rn, rl = (True, r.args[0]) if r.op == "not" else (False, r)
        cn, cl = (True, c.args[0]) if c.op == "not" else (False, c)
        if {rl.op, cl.op} <= {"lt", "eq"} and "lt" in (rl.op, cl.op):
            x = self.offset(rl, cl, rn == cn)
            if x:
                return self.ev(f"comparison changed ({x}): expected {show(r, 5)}, found {show(c, 5)}")
        if rl.op == "lt" and cl.op == "lt":
            if rl.args[0] is cl.args[1] and rl.args[1] is cl.args[0]:
                return self.ev(f"comparison changed: expected {show(r, 5)}, found {show(c, 5)}")
            if rn == cn:
                return self.children(rl, cl, r, c)
            # strictness changed and an operand as well
            (a, b), (x, y) = rl.args, cl.args
            if a is y or b is x:
                e, u = self.d(b, x) if a is y else self.d(a, y)
                if e and not u:
                    return e, u
            return self.un(r, c)
        if {rl.op, cl.op} == {"lt", "eq"} and set(x.dig for x in rl.args) == set(x.dig for x in cl.args):
            return self.ev(f"comparison changed: expected {show(r, 5)}, found {show(c, 5)}")
        if {rl.op, cl.op} == {"is", "eq"} and set(x.dig for x in rl.args) == set(x.dig for x in cl.args) and rn == cn:
            if all(x.op in ("idx", "elem", "m", "param", "selfattr", "attr") and x.args[-1] != "__class__" and x.args[0] not in ("dtype", "type", "coord_system") for x in r.args + c.args if isinstance(x, Node) and x.op != "not"):
                return self.ev(f"comparison changed: expected {show(r, 5)}, found {show(c, 5)}")
            return (), ("is/eq",)
        if {rl.op, cl.op} == {"in", "eq"} and rn == cn and rl.args and cl.args and \
                set(x.dig for x in rl.args if isinstance(x, Node)) == set(x.dig for x in cl.args if isinstance(x, Node)):
            return self.ev(f"comparison changed: expected {show(r, 5)}, found {show(c, 5)}")
        if self.refusing:
            x = self.presence(rl, cl)
            if x and rn != cn:
                return self.ev(x)
            for o, i in ((rl, cl), (cl, rl)):
                if rn == cn and o.op == "is" and set(o.args) == {NONE, i}:
                    return self.ev(f"what is refused is now the opposite: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}")
        if r.op == c.op and r.op in SETOPS:
            return self.sets(r.op, r.args, c.args, r)
        if r.op in ("and", "or", "add", "mul") and any(x is c for x in r.args):
            rest = [x for x in r.args if x is not c]
            return self.ev(f"{r.op}-term dropped: {'; '.join(show(x, 4) for x in rest)[:300]}")
        if c.op in ("and", "or", "add", "mul") and any(x is r for x in c.args):
            rest = [x for x in c.args if x is not r]
            return self.ev(f"{c.op}-term added: {'; '.join(show(x, 4) for x in rest)[:300]}")
        if {r.op, c.op} in ({"and", "or"}, {"add", "mul"}) and set(x.dig for x in r.args) == set(x.dig for x in c.args):
            return self.ev(f"{r.op} became {c.op}: {show(r, 4)[:200]}")
        if r.op == "and" and c.op != "and" or c.op == "and" and r.op != "and":
            return self.sets("and", lits(r), lits(c), r)
        if {r.op, c.op} <= {"add", "mul", "pow", "bin"} or "add" in (r.op, c.op) and {r.op, c.op} <= {"add", "param", "selfattr", "pos", "carry", "idx", "attr", "elem", "m"}:
            x = self.arith(r, c)
            if x is not None:
                return x
        if isboolish(r) and not_(r) is c:
            return self.ev(f"negated: expected {show(r, 5)}, found {show(c, 5)}")
        if r is TRUE and isboolish(c):
            return self.ev(f"condition added: {show(c, 6)[:300]}")
        if c is TRUE and isboolish(r):
            return self.ev(f"condition dropped: {show(r, 6)[:300]}")
        if c is FALSE and isboolish(r):
            return self.ev(f"condition {show(r, 6)[:300]} became always false")
        if r is FALSE and isboolish(c):
            return self.ev(f"always-false condition became {show(c, 6)[:300]}")
        if r.op == c.op == "loop" and len(r.args) != len(c.args) and all(x is y for x, y in zip(r.args[:3], c.args[:3])):
            n = r if len(r.args) > len(c.args) else c
            return self.ev(f"loop {'no longer' if n is r else 'newly'} stops early when {show(n.args[3], 5)[:200]}")
        if r.op == "loop" and r.args[1] is c or any(isinstance(a, Node) and a.op == "carry" and a.args[1] is c for a in r.args):
            return self.ev(f"update in loop dropped: {show(r, 4)[:240]}")
        if r.op == c.op == "where":
            return self.either(r, c)
        if r.op == "undef" or c.op == "undef" or any(
                x.op == "ite" and any(y.op == "undef" for y in x.args[1:]) for x in (r, c)) and r.op != c.op:
            return self.un(r, c)
        # ite: a case added or removed
        if r.op == "ite" and c.op != "ite" and (c is r.args[1] or c is r.args[2]):
            return self.ev(f"case dropped: {show(r.args[0], 4)[:200]} no longer selects {show(r.args[2] if c is r.args[1] else r.args[1], 3)[:120]}")
        if c.op == "ite" and r.op != "ite" and (r is c.args[1] or r is c.args[2]):
            return self.ev(f"new case: when {show(c.args[0] if r is c.args[2] else not_(c.args[0]), 4)[:200]} the value is {show(c.args[1] if r is c.args[2] else c.args[2], 3)[:160]} instead of {show(r, 3)[:120]}")
        if r.op == "ite" and c.op == "ite":
            if r.args[1] is c.args[2] and r.args[2] is c.args[1]:
                return self.ev(f"branches swapped / condition negated: {show(r.args[0], 4)[:160]} vs {show(c.args[0], 4)[:160]}") if r.args[0] is c.args[0] else self.chosen(r, not_(c.args[0]))
            best = self.either(r, c)
            if best[1]:
                # extra case wrapped around / removed from the chain
                for i in (1, 2):
                    if c.args[i] is r:
                        return self.ev(f"new case: {show(c.args[0], 4)[:200]} selects {show(c.args[3 - i], 3)[:160]}")
                    if r.args[i] is c:
                        return self.ev(f"case dropped: {show(r.args[0], 4)[:200]} selecting {show(r.args[3 - i], 3)[:160]}")
            return best
        # an extreme value exchanged for the first or last
        for o, i in ((r, c), (c, r)):
            if o.op in ("call", "m") and len(o.args) == 2 and o.args[0] in REDUCE and i.op == "idx" and i.args[1].op == "const" and i.args[0] is o.args[1]:
                return self.ev(f"element taken instead of {o.args[0]}: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}")
        if r.op == c.op and r.op in ("elem", "each") and literal(r.args[0]) and literal(c.args[0]):
            return self.d(r.args[0], c.args[0])
        if taken(r, c) or taken(c, r):
            return self.ev(f"{'all entries' if taken(r, c) else 'only certain entries'} now taken over: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}")
        if r.op == c.op and r.op in ("elem", "each", "pos") and \
                any(isinstance(x, Node) and isinstance(y, Node) and x is not y and (unfiltered(x) or unfiltered(y)) for x, y in zip(r.args, c.args)):
            # the selection may be made where the items are used
            x, y = r.args[0], c.args[0]
            if unfiltered(x) is None or unfiltered(x) is not unfiltered(y) or r.args[1:] != c.args[1:] or \
                    len(lits(x.args[0].args[1])) != len(lits(y.args[0].args[1])):
                return self.un(r, c)
        for x, y in ((r, c), (c, r)):
            t = unfiltered(x)
            if t is not None and (y is t or y.op == "call" and y.args[0] in ("list", "tuple", "set", "iter") and y.args[1] is t):
                return self.ev(f"selection {'dropped' if x is r else 'added'}: expected {show(r, 5)[:240]}, found {show(c, 5)[:240]}")
            if x.op == "m" and x.args[0] in ("issubset", "issuperset", "isdisjoint") and y.op in ("and", "or") and len(y.args) == len(x.args) - 1 and \
                    all(z.op == "set" or z.op == "call" and z.args[0] == "set" for z in y.args) and x.args[1] in y.args:
                return self.ev(f"comparison of sets changed: expected {show(r, 5)[:240]}, found {show(c, 5)[:240]}")
        if r.op == c.op == "call" and r.args[0] == c.args[0] and r.args[0] in ("len", "sorted") and len(r.args) == len(c.args) == 2:
            a, b = r.args[1], c.args[1]
            for x, y in ((a, b), (b, a)):
                if x.op == "call" and x.args[0] == "set" and len(x.args) == 2 and x.args[1] is y:
                    return self.ev(f"{'distinct items no longer' if x is a else 'only distinct items now'} taken: {show(a, 5)[:200]}")
            if {a.op, b.op} == {"set", "list"} and len(a.args) == len(b.args) == 1 and a.args[0] is b.args[0]:
                return self.ev(f"{'distinct items no longer' if a.op == 'set' else 'only distinct items now'} counted: {show(a, 5)[:200]}")
        # wrapper removed / added
        w = self.wrap(r, c)
        if w is not None:
            return w
        if r.op == c.op and len(r.args) == len(c.args):
            return self.children(r, c, r, c)
        if r.op == c.op and r.op in ("call", "m", "fn", "list", "tuple", "fmt", "mcall"):
            return self.callargs(r, c)
        # an input replaced by a constant / another input
        if r.op in ("param", "selfattr") and c.op in ("param", "selfattr"):
            return self.ev(f"{show(r)} replaced by {show(c)}")
        if r.op in ("param", "selfattr") and c.op == "const":
            return self.ev(f"{show(r)} replaced by constant {show(c)}")
        if r.op == "const" and c.op in ("param", "selfattr"):
            return self.ev(f"constant {show(r)} replaced by {show(c)}")
        if r.op in ("attr", "idx", "m", "call", "fn", "elem") and c is NONE:
            return self.ev(f"{show(r, 4)[:160]} replaced by None")
        if r.op in ("add", "mul", "fn", "call", "m", "attr", "idx") and c.op == "const" and is_num(c):
            if r.op == "call" and r.args[0] == "len":
                return self.un(r, c)
            return self.ev(f"{show(r, 4)[:160]} replaced by constant {show(c)}")
        return self.un(r, c)

    def either(self, r, c):
        """Two case distinctions: same or opposite order of the cases."""
        if r.args[0] is c.args[0]:
            return self.children(r, c, r, c)
        if r.args[0] is not_(c.args[0]):
            return self.flipped(r, c)
        if r.args[1:] == c.args[1:]:
            return self.chosen(r, c.args[0])
        t, self.trust = self.trust, False
        x = min(self.children(r, c, r, c), self.flipped(r, c), key=lambda t: (len(t[1]), len(t[0])))
        self.trust = t
        return x

    def chosen(self, r, k):
        """r's cases, now told apart by k."""
        q = r.args[0]
        rn, rl = (True, q.args[0]) if q.op == "not" else (False, q)
        cn, cl = (True, k.args[0]) if k.op == "not" else (False, k)
        x = self.presence(rl, cl)
        if x and rn != cn:
            absent = r.args[1 + ((rl.op == "is") == rn)]
            empty = not absent.args or absent.op == "const" and not absent.args[0] and absent is not NONE
            if not empty and not contains(absent, rl) and not contains(absent, cl):
                return self.ev(x)
        return self.d(q, k)

    def presence(self, r, c):
        """`x is None` exchanged for the truth of x, where zero and empty values differ."""
        for o, i in ((r, c), (c, r)):
            if o.op == "is" and i.dig in self.plain and set(o.args) == {NONE, i}:
                return f"{'an empty or zero' if o is r else 'only an absent'} {show(i)} now counts as missing"
        return None

    def offset(self, r, c, same):
        """Linear comparisons that differ by a constant only."""
        def linear(n):
            x = add(n.args[1], neg(n.args[0]))
            ts = x.args if x.op == "add" else (x,)
            k = sum(t.args[0] for t in ts if is_num(t))
            return k, add(*[t for t in ts if not is_num(t)])
        if any(a.op not in ("add", "mul", "const", "call", "elem", "attr", "idx", "pos", "param", "selfattr", "carry", "fn", "loop", "m", "pow")
               or a.opq for n in (r, c) for a in n.args):
            return None
        k, x = linear(r)
        j, y = linear(c)
        if is_num(x) or is_num(y):
            return None
        m = neg(y)
        if m.op == "mul" and len(m.args) == 2 and m.args[1].op == "add":
            m = add(*[neg(t) for t in m.args[1].args])
        if r.op == c.op == "lt":
            if x is y and k != j and same:
                return f"limit moved by {j - k}"
            if x is m and not same and k != -j:
                return f"limit moved by {-j - k}"
            return None
        return "equality against order" if x is y or x is m else None

    def flipped(self, r, c):
        a = self.d(r.args[0], not_(c.args[0]))
        return self.join(a, self.join(self.d(r.args[1], c.args[2]), self.d(r.args[2], c.args[1])))

    def arith(self, r, c):
        """+/-/*/÷ exchanged between identical operands."""
        def leaves(n):
            if n.op in ("add", "mul"):
                return [y for x in n.args for y in leaves(x)]
            if n.op == "pow" and is_num(n.args[1]) and n.args[1].args[0] in (-1,):
                return leaves(n.args[0])
            if is_num(n) and n.args[0] in (-1, 1):
                return []
            return [n]
        a, b = leaves(r), leaves(c)
        x, y = combination(r), combination(c)
        if sorted(x.dig for x in a) == sorted(x.dig for x in b) or x and y and x != y and (
                set(x) | {""} == set(y) | {""} or len(x) == 1 and set(x) < set(y) or len(y) == 1 and set(y) < set(x)):
            return self.ev(f"arithmetic operator changed: expected {show(r, 5)[:200]}, found {show(c, 5)[:200]}")
        return None

    def wrap(self, r, c):
        def inner(o, i):
            if o.op == "eq":
                return any(x is i for x in o.args) and not any(x.op == "const" for x in o.args)
            return o.op in ("call", "m", "fn", "attr", "idx", "pow", "mul", "lt", "where") and any(x is i for x in o.args if isinstance(x, Node))
        def transparent(o):
            return (o.op == "call" and o.args[0] in TRANSPARENT) or (o.op == "m" and o.args[0] in TRANSPARENT_M) or \
                (o.op == "fn" and o.args[0] in TRANSPARENT)
        if inner(r, c) and r.size - c.size < 60:
            if transparent(r):
                return self.un(r, c)
            return self.ev(f"operation dropped: expected {show(r, 4)[:240]}, found {show(c, 3)[:120]}")
        if inner(c, r) and c.size - r.size < 60:
            if transparent(c):
                return self.un(r, c)
            return self.ev(f"operation added: expected {show(r, 3)[:120]}, found {show(c, 4)[:240]}")
        return None

    def children(self, r, c, R, Cc):
        prim = [(x, y) for x, y in zip(r.args, c.args) if not isinstance(x, Node) or not isinstance(y, Node)]
        kids = [(x, y) for x, y in zip(r.args, c.args) if isinstance(x, Node) and isinstance(y, Node)]
        pd = [(x, y) for x, y in prim if x != y or type(x) is not type(y)]
        kd = [(x, y) for x, y in kids if x is not y]
        if pd:
            if any(isinstance(x, Node) or isinstance(y, Node) for x, y in pd):
                return self.un(R, Cc)
            if kd:
                return self.un(R, Cc)
            x, y = pd[0]
            if r.op in ("param", "selfattr"):
                return self.ev(f"{show(r)} replaced by {show(c)}")
            if r.op == "attr":
                return self.ev(f"attribute .{x} became .{y} on {show(r.args[0], 4)[:120]}")
            if r.op == "call" and isinstance(x, str) and isinstance(y, str) and {x.replace("numpy.ma.", "numpy."), y.replace("numpy.ma.", "numpy.")} in ({x}, {y}) \
                    and x.rsplit(".", 1)[-1] in MASKING:
                return self.ev(f"{x} became {y} (masked points)")
            if r.op == "call" and x in CONTRAST and y in CONTRAST:
                return self.ev(f"{x} became {y}")
            if r.op == "mod" and x in CONTRAST and y in CONTRAST:
                return self.ev(f"{x} became {y}")
            if r.op in ("m", "mcall") and x in CONTRAST_M and y in CONTRAST_M:
                return self.ev(f".{x}() became .{y}()")
            if r.op == "fn" and isinstance(x, str) and isinstance(y, str):
                return self.ev(f"call of {x} became {y}")
            if r.op == "bound" and {x, y} <= self.methods:
                return self.ev(f"method {x} became {y}")
            if r.op == "bin":
                return self.ev(f"operator {x} became {y}")
            if r.op == "kw":
                return self.un(R, Cc)
            if r.op == "store":
                return self.ev(f"store to .{x} became .{y}")
            return self.un(R, Cc)
        # permuted operands
        kv = [(x.args[1], y.args[1]) if x.op == y.op == "kw" and x.args[0] == y.args[0] else (x, y) for x, y in kd]
        if len(kd) >= 2 and sorted(x.dig for x, _ in kv) == sorted(y.dig for _, y in kv):
            return self.ev(f"operands swapped: expected {show(R, 4)[:240]}, found {show(Cc, 4)[:240]}")
        if r.op in ("eq", "is") and len(kd) == 2:
            # sorted operands: align crosswise
            (a, b), (x, y) = r.args, c.args
            if a is y or b is x:
                return self.d(b, x) if a is y else self.d(a, y)
            t, self.trust = self.trust, False
            o1 = self.join(self.d(a, x), self.d(b, y))
            o2 = self.join(self.d(a, y), self.d(b, x))
            self.trust = t
            return min(o1, o2, key=lambda t: (len(t[1]), len(t[0])))
        if r.op == "kw" and len(r.args) == 2 and kd:
            return self.d(*kd[0])
        e, u = (), ()
        for x, y in kd:
            a, b = self.d(x, y)
            e += a
            u += b
        if len(kd) > 4 and (u or len(set(e)) > 1):
            u += ("many",)
        return e, u

    @staticmethod
    def join(a, b):
        return a[0] + b[0], a[1] + b[1]

    def callargs(self, r, c):
        """Same callee, different number of arguments."""
        rp = [x for x in r.args if not isinstance(x, Node)]
        cp = [x for x in c.args if not isinstance(x, Node)]
        if rp != cp:
            return self.un(r, c)
        rk = {x.args[0]: x for x in r.args if isinstance(x, Node) and x.op == "kw"}
        ck = {x.args[0]: x for x in c.args if isinstance(x, Node) and x.op == "kw"}
        ra = [x for x in r.args if isinstance(x, Node) and x.op != "kw"]
        ca = [x for x in c.args if isinstance(x, Node) and x.op != "kw"]
        if len(ra) != len(ca):
            if r.op in ("tuple", "list", "fmt"):
                rs, cs = [x.dig for x in ra], [x.dig for x in ca]
                if is_subseq(cs, rs):
                    return self.ev(f"element(s) dropped from {show(r, 3)[:160]}")
                if is_subseq(rs, cs):
                    return self.ev(f"element(s) added to {show(r, 3)[:160]}")
                return self.un(r, c)
            if r.op in ("call", "m") and ra and ca:
                rs, cs = [x.dig for x in ra], [x.dig for x in ca]
                if cs == rs[:len(cs)] and rk == ck:
                    return self.ev(f"argument dropped: expected {show(r, 3)[:200]}, found {show(c, 3)[:200]}")
                if rs == cs[:len(rs)] and rk == ck:
                    return self.ev(f"argument added: expected {show(r, 3)[:200]}, found {show(c, 3)[:200]}")
            return self.un(r, c)
        e, u = (), ()
        for x, y in zip(ra, ca):
            a, b = self.d(x, y)
            e += a
            u += b
        for k in sorted(set(rk) | set(ck)):
            if k in rk and k in ck:
                a, b = self.d(rk[k], ck[k])
                e += a
                u += b
            elif k in rk:
                if k in TRIVIAL_KW:
                    u += (f"kw {k}",)
                else:
                    e += (f"argument {k}={show(rk[k].args[1], 3)[:80]} no longer passed to {rp[0] if rp else r.op}",)
            else:
                if k in TRIVIAL_KW:
                    u += (f"kw {k}",)
                else:
                    e += (f"argument {k}={show(ck[k].args[1], 3)[:80]} newly passed to {rp[0] if rp else r.op}",)
        return e, u

    def sets(self, what, ra, ca, R):
        rd = {x.dig: x for x in ra}
        cd = {x.dig: x for x in ca}
        L = [x for d, x in rd.items() if d not in cd]
        M = [x for d, x in cd.items() if d not in rd]
        if not L and not M:
            return (), ()
        if what in ("updates", "effects", "update", "stores"):
            for x in list(L):
                for y in list(M):
                    if len(x.args) == len(y.args) == 2 and x.args[0] is y.args[0] and equivalent(x.args[1], y.args[1], True):
                        L.remove(x)
                        M.remove(y)
                        break
            if not L and not M:
                return (), ()
        if not L:
            return tuple(f"{what} added: {show(x, 5)[:260]}" for x in M), ()
        if not M:
            return tuple(f"{what} dropped: {show(x, 5)[:260]}" for x in L), ()
        if what == "and" and not_(N_and(L)) is N_and(M):
            return self.ev(f"negated: {show(N_and(L), 5)[:260]}")
        if len(L) > 8 or len(M) > 8:
            return (), ("many-set",)
        if what == "mul" and len(L) + len(M) > 2 or what == "add" and len(L) + len(M) > 2:
            x = self.arith(R, N(what, *ca))
            if x is not None:
                return x
        # greedy best matching
        if len(L) > 1 or len(M) > 1:
            self.trust = False
        pairs = []
        for x in L:
            for y in M:
                e, u = self.d(x, y)
                whole = any(isinstance(t, Leaf) and t.pair == (x, y) for t in u)     # nothing in common
                pairs.append(((len(u) + whole, len(e), abs(x.size - y.size)), x, y, e, u))
        pairs.sort(key=lambda t: (t[0], t[1].dig, t[2].dig))
        ul, um = {x.dig for x in L}, {y.dig for y in M}
        E, U = (), ()
        for key, x, y, e, u in pairs:
            if x.dig in ul and y.dig in um:
                ul.discard(x.dig)
                um.discard(y.dig)
                E += e
                U += u
        for x in L:
            if x.dig in ul:
                E += (f"{what} dropped: {show(x, 5)[:260]}",)
        for y in M:
            if y.dig in um:
                E += (f"{what} added: {show(y, 5)[:260]}",)
        return E, U


def replaced(r, c):
    """Evidence from the only pair of places that differ."""
    if r.op == "pos" and is_num(c):
        return f"every item now takes item {show(c)}"
    t = footprint(r, c, 1)
    return f"{t}: expected {show(r, 4)[:200]}, found {show(c, 4)[:200]}" if t else None


TRIVIAL_KW = {"copy", "order", "stacklevel", "casting"}


def is_subseq(a, b):
    it = iter(b)
    return all(x in it for x in a) and len(a) < len(b)


def settled(n):
    """When a call is refused: each way with what it takes for granted settled in the rest of it,
    `for x in xs: if p(x): raise` as `if any(p(x) for x in xs): raise`, and whatever was tried before
    having worked."""
    out = []
    for t in n.args if n.op == "raiseif" else (n,):
        ls = [l for l in lits(t) if not (l.op == "not" and l.args[0].op == "exc")]
        fixed = [l for l in ls if not varies(l)]
        rest = [l for l in ls if varies(l)]
        asg = {(l.args[0] if l.op == "not" else l).dig: l.op != "not" for l in fixed}
        memo = {}
        rest = [cond(l, asg, memo) for l in rest]
        if len(rest) == 1 and rest[0].op == "call" and rest[0].args[0] == "any":
            fixed.append(rest[0])
        elif rest:
            fixed.append(N("call", "any", N("list", N("item", TRUE, N_and(rest)))))
        out.append(N_and(fixed))
    return or_(*out)


def compare_items(ref, cur, opaque=0, plain=frozenset(), methods=frozenset()):
    """ref, cur: {item: Node}.  -> (evidence [(item,msg)], undecided [(item,msg)])"""
    E, U = [], []
    D = Diff(plain, methods)
    rr = {k: v for k, v in ref.items() if cur.get(k) is not v}
    cc = {k: v for k, v in cur.items() if ref.get(k) is not v}
    # exception class changed
    rx = [k for k in rr if k.startswith("raise:") and k not in cur]
    cx = [k for k in cc if k.startswith("raise:") and k not in ref]
    for a in list(rx):
        for b in list(cx):
            if rr[a] is cc[b]:
                E.append((a, f"exception class {a[6:]} became {b[6:]}"))
                rx.remove(a); cx.remove(b)
                rr.pop(a); cc.pop(b)
                break
    # what a refused call would also have computed does not matter
    refused = {}
    for k in ref:
        if k.startswith("raise:") and k in cur and (ref[k] is cur[k] or equivalent(asbool(ref[k]), asbool(cur[k]), True)):
            refused[k] = [x for x in ref[k].args if not varies(x)]
    for k in sorted(set(rr) & set(cc)):
        dead = [x for q, xs in refused.items() if q != k for x in xs]
        b = k.startswith("raise:")
        if dead and equivalent(asbool(rr[k]) if b else rr[k], asbool(cc[k]) if b else cc[k], b, dead):
            del rr[k], cc[k]
    for k in sorted(set(rr) & set(cc)):
        if k.startswith("raise:") and settled(rr[k]) is settled(cc[k]):
            del rr[k], cc[k]
    for what in ("step", "tried"):
        if what not in rr and what not in cc:
            continue
        a, b = [set(x.get(what).args) if what in x else set() for x in (rr, cc)]
        a, b = sorted(a - b, key=lambda n: n.dig), sorted(b - a, key=lambda n: n.dig)
        rr.pop(what, None), cc.pop(what, None)
        key = lambda n: n.args[1].dig
        by = {key(n): n for n in b}
        if len(a) == len(b) == 1 and (what == "tried" or a[0].args[1] is b[0].args[1] and len({n.args[0].args[0].op == "while" for n in a + b}) == 1):
            rr[what], cc[what] = a[0], b[0]
        elif len(a) == len(b) == len(by) and {key(n) for n in a} == set(by):
            rr[what], cc[what] = N("steps", *a), N("steps", *[by[key(n)] for n in a])
        elif a or b:
            U.append((what, "what one pass of a loop leaves to the next differs" if what == "step" else "what is tried or fetched differs"))
    for k in sorted(set(rr) | set(cc)):
        D.refusing = k.startswith("raise:")
        if k in cc and cc[k].opq and not (k in rr and rr[k].opq):
            e, u = (), (f"{k}: not interpretable",)
        elif k in rr and k in cc:
            e, u = D.d(rr[k], cc[k])
        elif k in rr:
            if k in ref and k in cur:
                continue
            e, u = missing(k, rr[k], opaque)
        else:
            if k in ref:
                continue
            e, u = extra(k, cc[k], opaque)
        if u and k in rr and k in cc and all(isinstance(x, Leaf) for x in u) and len({(x.pair[0].dig, x.pair[1].dig) for x in u}) == 1:
            # one place differs, wherever it is used
            x = replaced(*u[0].pair)
            if x and set(e) <= {x}:
                e, u = (x,), ()
        if u and k in rr and k in cc and not rr[k].opq and not cc[k].opq:
            t = footprint(rr[k], cc[k], 0)
            if t:
                e, u = (f"{label(k)} {t}",), ()
            elif not k.startswith("raise:"):
                t = incase(D, rr[k], cc[k])
                if t:
                    e, u = (t,), ()
        E += [(k, m) for m in e]
        U += [(k, m) for m in u]
    return E, U


def incase(D, r, c):
    """Evidence from one case: the conditions are settled one way, and what is then left of the
    two values is something each yields in no case of the other."""
    pairs = cases(r, c)
    if not pairs:
        return None
    rs, cs = {x.dig for _, x, _ in pairs}, {y.dig for _, _, y in pairs}
    for asg, x, y in pairs:
        if x is y or x.dig in cs or y.dig in rs and not cs <= rs or x.op == "const" and y.op == "const" or x.opq or y.opq:
            continue
        e, u = D.d(x, y)
        if e and not u:
            return f"when {asg}: {e[0]}"
    return None


def missing(k, n, opaque):
    if k.startswith(("raise:", "upd:", "selfupd:", "eff")):
        if opaque:
            return (), ("dropped (opaque)",)
        return (f"{label(k)} dropped: {show(n, 6)[:300]}",), ()
    if k.startswith("self:"):
        return (f"attribute no longer stored: {show(n, 5)[:200]}",), ()
    if k == "decorators":
        return (f"decorator dropped: {show(n)}",), ()
    if k == "defaults":
        return (f"default dropped: {show(n)}",), ()
    return (), ("missing " + k,)


def extra(k, n, opaque):
    if k.startswith("raise:"):
        return (f"{label(k)} added: {show(n, 6)[:300]}",), ()
    if k.startswith(("upd:", "selfupd:")):
        return (f"{label(k)} added: {show(n, 6)[:300]}",), ()
    return (), ("extra " + k,)


def label(k):
    if k.startswith("raise:"):
        return f"raising {k[6:]}"
    if k.startswith("upd:"):
        return f"in-place change of argument '{k[4:]}'"
    if k.startswith("selfupd:"):
        return f"in-place change of self.{k[8:]}"
    return {"eff": "effect"}.get(k, k)
