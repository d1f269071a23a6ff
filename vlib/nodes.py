"""Hash-consed value nodes and the normalising constructors.

A node denotes the value an expression has, independent of how it is spelled.
The constructors apply only identities that preserve that value (commutativity,
De Morgan, comparison flipping, ite fusion ...)."""
import hashlib


class Node:
    __slots__ = ("op", "args", "dig", "size", "opq", "_has")

    def __repr__(self):
        return show(self)


_tab = {}


def _pkey(a):
    if isinstance(a, Node):
        return a.dig
    if isinstance(a, float) and a == a and a not in (float("inf"), float("-inf")) and a == int(a) and abs(a) < 1e15:
        a = int(a)
    return f"{type(a).__name__}:{a!r}"


def N(op, *args):
    key = op + "(" + ",".join(_pkey(a) for a in args) + ")"
    dig = hashlib.blake2b(key.encode(), digest_size=12).hexdigest()
    n = _tab.get(dig)
    if n is None:
        n = Node()
        n.op, n.args, n.dig = op, args, dig
        n.size = 1
        n.opq = op == "opaque"
        for a in args:
            if isinstance(a, Node):
                n.size += a.size
                n.opq = n.opq or a.opq
        n._has = None
        _tab[dig] = n
    return n


def C(v):
    if isinstance(v, float) and v == v and abs(v) != float("inf") and v == int(v) and abs(v) < 1e15:
        v = int(v)
    return N("const", v)


TRUE, FALSE, NONE = C(True), C(False), C(None)
EMPTY = C("")


def is_num(n):
    return n.op == "const" and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool)


def is_const(n):
    return n.op == "const"


def contains(n, target, memo=None):
    if n is target:
        return True
    memo = {} if memo is None else memo
    if n.dig in memo:
        return memo[n.dig]
    memo[n.dig] = False
    r = any(isinstance(a, Node) and contains(a, target, memo) for a in n.args)
    memo[n.dig] = r
    return r


def subst(n, mp, memo=None):
    """Replace nodes by digest using mp {dig: Node} (no renormalisation)."""
    memo = {} if memo is None else memo
    if n.dig in mp:
        return mp[n.dig]
    if n.dig in memo:
        return memo[n.dig]
    new = tuple(subst(a, mp, memo) if isinstance(a, Node) else a for a in n.args)
    if all(x is y for x, y in zip(new, n.args)):
        r = n
    else:
        r = rebuild(n.op, new)
    memo[n.dig] = r
    return r


DEFAULTS = {}       # (callee, parameter) -> digests of its default values


def rebuild(op, args):
    if op == "fn":
        args = tuple(x for x in args if not (isinstance(x, Node) and x.op == "kw" and DEFAULTS.get((args[0], x.args[0])) == {x.args[1].dig}))
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "ite":
        return ite(*args)
    if op == "idx":
        return idx(*args)
    if op == "pow":
        return pow_(*args)
    if op == "obj":
        ups = {}
        base = args[0]
        if base.op == "obj":
            ups = {u.dig: u for u in base.args[1:]}
            base = base.args[0]
        for u in args[1:]:
            if u.op == "upd" and len(u.args) == 2:
                if u.args[1] is FALSE:
                    continue
                if u.args[1] is TRUE:
                    u = N("upd", u.args[0])
            ups[u.dig] = u
        return N("obj", base, *sorted(ups.values(), key=lambda u: u.dig)) if ups else base
    if op in ("effects", "updates", "stores"):
        keep = {x.dig: x for x in args if not (len(x.args) == 2 and x.args[1] is FALSE)}
        return N(op, *sorted(keep.values(), key=lambda x: x.dig))
    if op == "list" and any(x.op == "item" and len(x.args) == 2 and (x.args[1] is TRUE or x.args[1] is FALSE) for x in args):
        args = tuple(N("item", x.args[0]) if x.op == "item" and len(x.args) == 2 and x.args[1] is TRUE else x
                     for x in args if not (x.op == "item" and len(x.args) == 2 and x.args[1] is FALSE))
    return N(op, *args)


# ---- arithmetic --------------------------------------------------------
def _coef(n):
    """(coefficient, rest) of a term."""
    if is_num(n):
        return n.args[0], None
    if n.op == "mul" and is_num(n.args[0]):
        rest = n.args[1:]
        return n.args[0].args[0], rest[0] if len(rest) == 1 else N("mul", *rest)
    return 1, n


SEQ = ("list", "str", "fmt", "tuple")


def add(*xs):
    flat = []
    for x in xs:
        if x.op == "add":
            flat.extend(x.args)
        else:
            flat.append(x)
    if any(x.op in SEQ or (x.op == "const" and isinstance(x.args[0], (str, bytes))) for x in flat):
        xs = [x for x in xs if x is not EMPTY] if len(xs) == 2 else xs
        return xs[0] if len(xs) == 1 else concat(*xs)
    for i, x in enumerate(xs):
        if x.op == "ite" and EMPTY in x.args[1:]:
            return ite(x.args[0], *[add(*xs[:i], y, *xs[i + 1:]) for y in x.args[1:]])
    const, terms = 0, {}
    for x in flat:
        c, r = _coef(x)
        if r is None:
            const += c
        else:
            t = terms.get(r.dig)
            terms[r.dig] = (r, (t[1] if t else 0) + c)
    out = []
    for r, c in terms.values():
        if c == 0:
            continue
        out.append(r if c == 1 else mul(C(c), r))
    out.sort(key=lambda n: n.dig)
    if const != 0 or not out:
        out.append(C(const))
    return out[0] if len(out) == 1 else N("add", *out)


def concat(*xs):
    xs = [N("list", N("splice", x.args[1])) if x.op == "call" and x.args[0] == "list" and len(x.args) == 2 else x for x in xs] \
        if any(x.op == "list" for x in xs) else xs
    if all(x.op == "list" for x in xs):
        return N("list", *[p for x in xs for p in x.args])
    if all(x.op == "tuple" for x in xs):
        return N("tuple", *[p for x in xs for p in x.args])
    if all(x.op == "const" and isinstance(x.args[0], str) for x in xs):
        return C("".join(x.args[0] for x in xs))
    if any(x.op == "fmt" or (x.op == "const" and isinstance(x.args[0], str)) for x in xs):
        return fmt(*xs)
    out = []
    for x in xs:
        if x.op == "concat":
            out.extend(x.args)
        else:
            out.append(x)
    return N("concat", *out)


def fmt(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == "fmt" else (p,)
        for q in ps:
            if q.op == "const" and isinstance(q.args[0], str):
                if q.args[0] == "":
                    continue
                if out and out[-1].op == "const" and isinstance(out[-1].args[0], str):
                    out[-1] = C(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and out[0].op == "const" and isinstance(out[0].args[0], str):
        return out[0]
    return N("fmt", *out)


def mul(*xs):
    flat = []
    for x in xs:
        if x.op == "mul":
            flat.extend(x.args)
        else:
            flat.append(x)
    if any(x.op in SEQ or (x.op == "const" and isinstance(x.args[0], (str, bytes))) for x in flat):
        return N("rep", *xs)
    const, pw = 1, {}
    for x in flat:
        if is_num(x):
            const *= x.args[0]
            continue
        b, e = (x.args[0], x.args[1]) if x.op == "pow" else (x, C(1))
        t = pw.get(b.dig)
        pw[b.dig] = (b, add(t[1], e) if t else e)
    if const == 0 and not any(b.op in ("obj",) for b, _ in pw.values()):
        # keep 0*x (array of zeros) distinct from the number 0
        pass
    out = []
    for b, e in pw.values():
        p = pow_(b, e)
        if is_num(p):
            const *= p.args[0]
        else:
            out.append(p)
    out.sort(key=lambda n: n.dig)
    if not out:
        return C(const)
    if const == 1:
        return out[0] if len(out) == 1 else N("mul", *out)
    if len(out) == 1 and out[0].op == "add":
        return add(*[mul(C(const), t) for t in out[0].args])
    return N("mul", C(const), *out)


def unsigned(n):
    """n or -n, the same one for both: for what does not depend on the sign."""
    k, r = _coef(n)
    if n.op == "add":
        ts = sorted((x for x in n.args if not is_num(x)), key=lambda x: (_coef(x)[1] or x).dig)
        return neg(n) if ts and _coef(ts[0])[0] < 0 else n
    return neg(n) if r is not None and k < 0 else n


def pow_(b, e):
    if is_num(e) and e.args[0] and e.args[0] % 2 == 0:
        b = unsigned(b)
    if is_num(e):
        if e.args[0] == 1:
            return b
        if e.args[0] == 0:
            return C(1)
        if is_num(b):
            try:
                v = b.args[0] ** e.args[0]
                if not isinstance(v, complex):
                    return C(v)
            except Exception:
                pass
        if b.op == "pow" and is_num(b.args[1]) and e.args[0] == int(e.args[0]):
            return pow_(b.args[0], C(b.args[1].args[0] * e.args[0]))
        if b.op == "mul" and e.args[0] == int(e.args[0]):
            return mul(*[pow_(x, e) for x in b.args])
    return N("pow", b, e)


def neg(x):
    return mul(C(-1), x)


def div(a, b):
    return mul(a, pow_(b, C(-1)))


# ---- booleans ----------------------------------------------------------
def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.args[0]
    if x.op == "and":
        return or_(*[not_(a) for a in x.args])
    if x.op == "or":
        return and_(*[not_(a) for a in x.args])
    return N("not", x)


def _nary(op, unit, zero, xs):
    flat = {}
    for x in xs:
        for y in (x.args if x.op == op else (x,)):
            if y is unit:
                continue
            if y is zero:
                return zero
            flat[y.dig] = y
    for y in flat.values():
        if not_(y).dig in flat:
            return zero
    dual = "or" if op == "and" else "and"
    # absorption: a & (a | b) == a ; a & (~a | b) == a & b
    changed = True
    while changed:
        changed = False
        for y in list(flat.values()):
            if y.op == dual:
                ks = set(k.dig for k in y.args)
                if any(k in flat and flat[k] is not y for k in ks):
                    del flat[y.dig]
                    changed = True
                    break
                keep = [k for k in y.args if not_(k).dig not in flat]
                if len(keep) != len(y.args):
                    del flat[y.dig]
                    ny = (or_ if dual == "or" else and_)(*keep) if keep else (FALSE if dual == "or" else TRUE)
                    if ny is zero:
                        return zero
                    if ny is not unit:
                        for z in (ny.args if ny.op == op else (ny,)):
                            flat[z.dig] = z
                    changed = True
                    break
    if len(flat) > 1:
        # x == c1  implies  not x == c2
        vals = list(flat.values())
        if op == "and":
            eqs = [y for y in vals if y.op == "eq" and any(a.op == "const" for a in y.args)]
            for e in eqs:
                for y in vals:
                    if y is not e and excl_eq(e, y):
                        return FALSE
                    if y.op == "not" and excl_eq(e, y.args[0]):
                        flat.pop(y.dig, None)
        else:
            nes = [y.args[0] for y in vals if y.op == "not" and y.args[0].op == "eq" and any(a.op == "const" for a in y.args[0].args)]
            for e in nes:
                for y in vals:
                    if excl_eq(e, y):
                        flat.pop(y.dig, None)
                    if y.op == "not" and excl_eq(e, y.args[0]):
                        return TRUE
        # what is true is not None
        for y in vals:
            neg_, z = (True, y.args[0]) if y.op == "not" else (False, y)
            if z.op == "is" and NONE in z.args and y.dig in flat:
                x = z.args[0] if z.args[1] is NONE else z.args[1]
                t = x if op == "and" else not_(x)
                if t.dig in flat:
                    if neg_ == (op == "or"):
                        return zero
                    del flat[y.dig]
        # whole numbers: k < x and not k + 1 < x is x == k + 1
        ups = {}
        for y in vals:
            neg_, z = (True, y.args[0]) if y.op == "not" else (False, y)
            if z.op == "lt" and z.args[0].op == "const" and neg_ == (op == "or"):
                ups[z.args[1].dig] = y, z
        for y in vals if ups else ():
            neg_, z = (True, y.args[0]) if y.op == "not" else (False, y)
            if z.op == "lt" and z.args[0].op == "const" and neg_ == (op == "and") and z.args[1].dig in ups:
                o, w = ups[z.args[1].dig]
                x, k, m = z.args[1], w.args[0].args[0], z.args[0].args[0]
                if intval(x)[0] and intval(z.args[0])[0] and intval(w.args[0])[0] and m == k + 1 and o.dig in flat and y.dig in flat:
                    del flat[o.dig], flat[y.dig]
                    e = eq(x, z.args[0])
                    e = e if op == "and" else not_(e)
                    return _nary(op, unit, zero, list(flat.values()) + [e])
    out = sorted(flat.values(), key=lambda n: n.dig)
    if not out:
        return unit
    return out[0] if len(out) == 1 else N(op, *out)


def and_(*xs):
    return _nary("and", TRUE, FALSE, xs)


def or_(*xs):
    return _nary("or", FALSE, TRUE, xs)


def lits(g):
    if g is TRUE:
        return ()
    return g.args if g.op == "and" else (g,)


def intval(n):
    """(is a whole number, is not negative) for certain."""
    if n.op == "const":
        v = n.args[0]
        ok = isinstance(v, int) and not isinstance(v, bool)
        return ok, ok and v >= 0
    if n.op == "call" and n.args[0] == "len" or n.op == "pos" or n.op == "attr" and n.args[1] in ("ndim", "size"):
        return True, True
    if n.op == "idx" and n.args[0].op == "attr" and n.args[0].args[1] == "shape" and n.args[1].op != "slice":
        return True, True
    if n.op == "elem" and n.args[0].op == "call" and n.args[0].args[0] == "range":
        a = [intval(x) for x in n.args[0].args[1:] if isinstance(x, Node)]
        return all(x for x, _ in a), all(x for x, _ in a) and len(a) < 3 and (len(a) == 1 or a[0][1])
    if n.op in ("add", "mul"):
        a = [intval(x) for x in n.args]
        return all(x for x, _ in a), all(x and y for x, y in a)
    return False, False


def counted(n):
    """The truth values of which n is the number."""
    if n.op == "call" and n.args[0] in ("numpy.sum", "numpy.count_nonzero") and len(n.args) == 2 and n.args[1].op in ("not", "lt", "eq", "and", "or"):
        return n.args[1]
    return None


def found(x):
    """(text, part) when x is where the part is found in the text."""
    return x.op == "m" and x.args[0] == "find" and len(x.args) == 3 and isinstance(x.args[2], Node)


def anyof(n):
    """The values of which n is the largest or smallest, each with its condition."""
    if n.op == "call" and n.args[0] in ("max", "min") and len(n.args) == 2 and n.args[1].op == "list" and len(n.args[1].args) == 1 \
            and n.args[1].args[0].op == "item" and len(n.args[1].args[0].args) == 2:
        return n.args[1].args[0].args
    return None, None


def lt(a, b):
    """a < b; among whole numbers with the constant alone on the left and a fixed sign."""
    if b is C(0) and found(a):
        return not_(in_(a.args[2], a.args[1]))
    if a is C(0) and b.op == "call" and b.args[0] == "len" and len(b.args) == 2 and b.args[1].op == "list" and len(b.args[1].args) == 1 \
            and b.args[1].args[0].op == "item" and len(b.args[1].args[0].args) == 2:
        return N("call", "any", b.args[1])
    for x, kind in ((b, "max"), (a, "min")):
        v, g = anyof(x)
        if v is not None and x.args[0] == kind:
            return N("call", "any", N("list", N("item", TRUE, and_(g, lt(a, v) if kind == "max" else lt(v, b)))))
    if is_num(a) and a.args[0] == 0 and counted(b) is not None:
        return N("call", "numpy.any", counted(b))
    if is_num(b) and b.args[0] == 1 and counted(a) is not None:
        return not_(N("call", "numpy.any", counted(a)))
    if is_num(a) and is_num(b):
        return C(a.args[0] < b.args[0])
    if not (intval(a)[0] and intval(b)[0]):
        return N("lt", a, b)
    d = add(b, neg(a))
    if is_num(d):
        return C(0 < d.args[0])
    k, ts = 0, []
    for x in (d.args if d.op == "add" else (d,)):
        if is_num(x):
            k += x.args[0]
        else:
            ts.append(x)
    ts.sort(key=lambda x: (_coef(x)[1] or x).dig)
    if _coef(ts[0])[0] > 0:
        e, c, flip = add(*ts), -k, False
    else:
        e, c, flip = neg(add(*ts)), k - 1, True
        if e.op == "mul" and len(e.args) == 2 and e.args[1].op == "add":
            e = add(*[neg(t) for t in ts])
    if c < 0 and intval(e)[1]:
        return FALSE if flip else TRUE
    r = N("lt", C(c), e)
    return not_(r) if flip else r


def cmp_(op, a, b):
    if op == "<":
        return lt(a, b)
    if op == ">":
        return lt(b, a)
    if op == "<=":
        return not_(lt(b, a))
    if op == ">=":
        return not_(lt(a, b))
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return not_(eq(a, b))
    if op == "is":
        return is_(a, b)
    if op == "is not":
        return not_(is_(a, b))
    if op == "in":
        return in_(a, b)
    if op == "not in":
        return not_(in_(a, b))
    raise ValueError(op)


def eq(a, b):
    if a is b and a.op == "const":
        return TRUE
    if a.op == "const" and b.op == "const":
        return FALSE
    if a.op == b.op == "tuple" and not any(x.op == "star" for x in a.args + b.args):
        if len(a.args) != len(b.args):
            return FALSE
        if len(a.args) <= 6 and any(x.op == "const" for x in a.args + b.args):
            return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op in ("is", "not", "in") and b.op in ("is", "not", "in") and (a.op == b.op or "is" in (a.op, b.op)):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    for x, y in ((a, b), (b, a)):
        if is_num(x) and x.args[0] == 0 and counted(y) is not None:
            return not_(N("call", "numpy.any", counted(y)))
        if is_num(x) and x.args[0] == 0 and intval(y)[1] and y.op not in ("add", "mul"):
            return not_(lt(x, y))
        if x is C(-1) and found(y):
            return not_(in_(y.args[2], y.args[1]))
    return N("eq", *sorted((a, b), key=lambda n: n.dig))


def is_(a, b):
    if a is b and a.op == "const":
        return TRUE
    if a.op == "const" and b.op == "const":
        return C(a.args[0] is b.args[0])
    for x, y in ((a, b), (b, a)):
        if y is NONE:
            if x.op in ("list", "dict", "fmt", "tuple", "eq", "lt", "not", "in") or x.op == "m" and x.args[0] == "coord":
                return FALSE
            if x.op == "ite":
                p, q = is_(x.args[1], NONE), is_(x.args[2], NONE)
                if p.op == "const" or q.op == "const":
                    return ite(x.args[0], p, q)
            if x.op == "obj" and any(u.op == "upd" and len(u.args) == 1 and u.args[0].op in ("mcall", "store", "setitem") for u in x.args[1:]):
                return FALSE        # something was done to it
            if x.op == "first" and x.args[0].op in ("elem", "pos"):
                # nothing found
                return not_(any_of(x.args[1]))
    return N("is", *sorted((a, b), key=lambda n: n.dig))


def in_(a, b):
    els = None
    if b.op == "tuple":
        els = b.args
    elif b.op in ("list", "set") and all(p.op == "item" and len(p.args) == 1 for p in b.args):
        els = [p.args[0] for p in b.args]
    elif b.op == "dict" and all(p.op == "ent" and len(p.args) == 2 for p in b.args):
        els = [p.args[0] for p in b.args]
    if els is not None and len(els) <= 8:
        return or_(*[eq(a, e) for e in els])
    if b.op == "call" and b.args[0] in ("list", "tuple", "set", "sorted") and len(b.args) == 2:
        return in_(a, b.args[1])
    if b.op == "m" and b.args[0] == "keys" and len(b.args) == 2:
        return in_(a, b.args[1])
    return N("in", a, b)


SINK = {"attr", "idx", "call", "m", "lt", "eq", "in", "fmt", "kw", "fn", "pow", "slice", "is", "not", "tuple"}


def any_of(g):
    return N("call", "any", N("list", N("item", TRUE, g)))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == "list" and a.args or a.op == "call" and a.args[0] == "iris.cube.CubeList":
        a = cofactor(a, c, True)
    if b.op == "list" and b.args or b.op == "call" and b.args[0] == "iris.cube.CubeList":
        b = cofactor(b, c, False)
    if c is a and b.op in ("list", "dict") and not b.args:
        return ite(is_(a, NONE), b, a)      # an empty collection in place of an empty one
    if isboolish(c):
        if a is TRUE and isboolish(b):
            return or_(c, b)
        if b is FALSE and isboolish(a):
            return and_(c, a)
        if a is FALSE and isboolish(b):
            return and_(not_(c), b)
        if b is TRUE and isboolish(a):
            return or_(not_(c), a)
    if c is a and a.op in ("list", "dict", "set") and b.op == a.op and not b.args:
        return a
    # x is None: x -> x is None: None
    if c.op == "is" and NONE in c.args and a is not NONE and a in c.args:
        return ite(c, NONE, b)
    # x if x else y
    if a is DEAD and c.op != "eq":
        pass
    if b.op == "list" and not b.args and a.op == "list" and len(a.args) == 1 and a.args[0].op == "item" and len(a.args[0].args) == 2 \
            and any_of(a.args[0].args[1]) is c:
        return a
    if b is NONE and a.op == "first" and any_of(a.args[1]) is c:
        # what a search found, nothing when it found nothing
        return a
    a = cofactor(a, c, True)
    b = cofactor(b, c, False)
    if a is b:
        return a
    if a is DEAD or b is DEAD:
        return N("ite", c, a, b)
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == b.op and a.op in SINK and len(a.args) == len(b.args):
        if all(
            (x is y) or (isinstance(x, Node) and isinstance(y, Node))
            or (not isinstance(x, Node) and not isinstance(y, Node) and x == y)
            for x, y in zip(a.args, b.args)
        ):
            new = tuple(ite(c, x, y) if isinstance(x, Node) else x for x, y in zip(a.args, b.args))
            return rebuild(a.op, new)
    if a.op == b.op == "dict" and len(a.args) == len(b.args) and \
            all(x.op == y.op == "ent" and len(x.args) == len(y.args) == 2 and x.args[0] is y.args[0] for x, y in zip(a.args, b.args)):
        return N("dict", *[N("ent", x.args[0], ite(c, x.args[1], y.args[1])) for x, y in zip(a.args, b.args)])
    if a.op == "list" and (b.op == "list" or b.op == "call" and b.args[0] == "list") or b.op == "list" and a.op == "call" and a.args[0] == "list":
        # [x, *rest] if c else rest
        x, y = [n.args if n.op == "list" else (N("splice", n.args[1]),) if len(n.args) == 2 else None for n in (a, b)]
        if x and y and len(x) != len(y):
            long, short, g = (x, y, c) if len(x) > len(y) else (y, x, not_(c))
            k = len(long) - len(short)
            for front in (True, False):
                more, rest = (long[:k], long[k:]) if front else (long[-k:], long[:-k])
                if rest == short and all(p.op == "item" and len(p.args) == 1 for p in more):
                    more = tuple(N("item", p.args[0], g) for p in more)
                    return N("list", *(more + rest if front else rest + more))
    if a.op == "item" and b.op == "item" and len(a.args) == len(b.args) == 1:
        return N("item", ite(c, a.args[0], b.args[0]))
    if a.op in ("add", "mul") or b.op in ("add", "mul"):
        for op, unit in (("add", 0), ("mul", 1)):
            if a.op == op or b.op == op:
                sa = {x.dig: x for x in (a.args if a.op == op else (a,))}
                sb = {x.dig: x for x in (b.args if b.op == op else (b,))}
                common = [x for d, x in sa.items() if d in sb and not is_num(x)]
                if common:
                    cd = {x.dig for x in common}
                    f = add if op == "add" else mul
                    ra = f(*[x for d, x in sa.items() if d not in cd]) if len(cd) < len(sa) else C(unit)
                    rb = f(*[x for d, x in sb.items() if d not in cd]) if len(cd) < len(sb) else C(unit)
                    return f(*common, ite(c, ra, rb))
    if b.op == "ite" and b.args[0].dig < c.dig and excl_eq(c, b.args[0]):
        # mutually exclusive dispatch: canonical order
        return N("ite", b.args[0], b.args[1], ite(c, a, b.args[2]))
    return N("ite", c, a, b)


DEAD = N("dead")


def excl_eq(p, q):
    """p, q are x == const1, x == const2 with different constants."""
    if p.op == "eq" and q.op == "eq" and p is not q:
        pc = [a for a in p.args if a.op == "const"]
        qc = [a for a in q.args if a.op == "const"]
        if len(pc) == 1 and len(qc) == 1 and pc[0] is not qc[0]:
            px = [a for a in p.args if a.op != "const"][0]
            qx = [a for a in q.args if a.op != "const"][0]
            return px is qx
    return False


def conflicts(known, l):
    if l.op == "or":
        return all(conflicts(known, x) for x in l.args)
    return any(k.dig == not_(l).dig or excl_eq(k, l) for k in known)


def strip_dead(n):
    """Drop the condition in front of an unreachable tail."""
    if n.op != "ite":
        return n
    if n.args[2] is DEAD:
        return strip_dead(n.args[1])
    if n.args[1] is DEAD:
        return strip_dead(n.args[2])
    a, b = strip_dead(n.args[1]), strip_dead(n.args[2])
    if a is n.args[1] and b is n.args[2]:
        return n
    return ite(n.args[0], a, b)


def cofactor(n, c, val, depth=0):
    """Simplify n under the assumption c==val (top ite-spine only)."""
    if n is c:
        return C(val) if isboolish(c) else n
    if n.op == "ite" and depth < 6:
        if n.args[0] is c:
            return cofactor(n.args[1] if val else n.args[2], c, val, depth + 1)
        known = lits(c) if val else lits(not_(c))
        cond = n.args[0]
        kd = {k.dig for k in known}
        if all(l.dig in kd for l in lits(cond)):
            return cofactor(n.args[1], c, val, depth + 1)
        if any(conflicts(known, l) for l in lits(cond)):
            return cofactor(n.args[2], c, val, depth + 1)
        x = cofactor(n.args[1], c, val, depth + 1)
        y = cofactor(n.args[2], c, val, depth + 1)
        if x is not n.args[1] or y is not n.args[2]:
            return ite(cond, x, y)
    if n.op == "call" and n.args[0] == "iris.cube.CubeList" and len(n.args) == 2 and n.args[1].op == "list":
        x = cofactor(n.args[1], c, val, depth + 1)
        return n if x is n.args[1] else N("call", n.args[0], x)
    if n.op == "list" and len(n.args) == 1 and n.args[0].op == "splice" and len(n.args[0].args) == 2:
        known = {k.dig for k in (lits(c) if val else lits(not_(c)))}
        x, g = n.args[0].args
        g2 = and_(*[l for l in lits(g) if l.dig not in known])
        if g2 is not g:
            return N("list", N("splice", x, g2) if g2 is not TRUE else N("splice", x))
    if n.op == "list" and len(n.args) == 1 and n.args[0].op == "item" and len(n.args[0].args) == 2:
        # elements chosen under what is already known
        known = {k.dig for k in (lits(c) if val else lits(not_(c)))}
        x, g = n.args[0].args
        ls = lits(g)
        keep = [l for l in ls if l.dig not in known]
        if len(keep) < len(ls) and keep:
            if len(keep) == 1 and keep[0].op == "each" and x.op == "elem" and x.args[0] is keep[0].args[0] and x.args[1] == keep[0].args[1]:
                return N("list", N("splice", keep[0].args[0]))
            return N("list", N("item", x, and_(*keep)))
    return n


BOOLCALLS = {
    "isinstance", "any", "all", "hasattr", "callable", "numpy.any", "numpy.all", "numpy.isnan", "numpy.isfinite",
    "numpy.isclose", "numpy.allclose", "numpy.array_equal", "numpy.ma.is_masked", "numpy.ma.isMaskedArray",
    "numpy.isin", "numpy.isinf", "issubclass", "numpy.issubdtype", "numpy.iterable", "numpy.ma.isMA",
}


def isboolish(n):
    if n.op in ("not", "lt", "eq", "is", "in", "and", "or", "unbroken"):
        return True
    if n.op == "const":
        return isinstance(n.args[0], bool)
    if n.op == "call":
        return n.args[0] in BOOLCALLS
    if n.op == "m":
        return n.args[0] in ("startswith", "endswith", "issubset", "any", "all", "is_convertible")
    if n.op == "ite":
        return isboolish(n.args[1]) and isboolish(n.args[2])
    return False


# ---- access ------------------------------------------------------------
def idx(v, i):
    if i.op == "const" and isinstance(i.args[0], int) and not isinstance(i.args[0], bool):
        k = i.args[0]
        if v.op == "tuple" and -len(v.args) <= k < len(v.args):
            return v.args[k]
        if v.op == "list" and all(p.op == "item" and len(p.args) == 1 for p in v.args) and -len(v.args) <= k < len(v.args):
            return v.args[k].args[0]
        if v.op == "call" and v.args[0] == "sorted" and len(v.args) == 2 and k in (0, -1):
            return N("call", "min" if k == 0 else "max", v.args[1])
        if v.op == "enum_elem":
            return N("pos", v.args[0], v.args[1]) if k == 0 else N("elem", v.args[0], v.args[1])
        if v.op == "ite":
            x, y = idx(v.args[1], i), idx(v.args[2], i)
            if x.op != "idx" or y.op != "idx":
                return ite(v.args[0], x, y)
    if i.op == "const" and v.op == "dict":
        hits = [e for e in v.args if e.op == "ent" and e.args[0] is i]
        if len(hits) == 1 and all(e.op == "ent" and len(e.args) == 2 and e.args[0].op == "const" for e in v.args):
            return hits[0].args[1]
    if v.op == "attr" and v.args[1] == "shape" and v.args[0].op == "call" and is_num(i):
        k = {"numpy.reshape": 2, "numpy.zeros": 1, "numpy.ones": 1, "numpy.empty": 1, "numpy.full": 1}.get(v.args[0].args[0])
        if k and len(v.args[0].args) > k:
            dims = v.args[0].args[k]
            x = idx(dims, i)
            if not is_num(x) and not (x.op == "idx" and x.args[0] is dims):
                return x
    if v.op == "idx" and v.args[1].op == "slice" and i.op == "const" and type(i.args[0]) is int and v.args[1].args[2] is NONE and v.args[0].op == "attr" and v.args[0].args[1] == "shape":
        a, b = v.args[1].args[:2]
        a = 0 if a is NONE else a.args[0] if is_num(a) else None
        b = None if b is NONE else b.args[0] if is_num(b) else "?"
        k = i.args[0]
        if type(a) is int and a >= 0 and k >= 0 and (b is None or type(b) is int and (b < 0 or a + k < b)):
            return idx(v.args[0], C(a + k))
    if i.op == "pos" and i.args[0] is v:
        return N("elem", v, i.args[1])
    if v.op == "attr" and v.args[1] == "shape" and i.op == "slice" and is_num(i.args[0]) and -4 <= i.args[0].args[0] < 0 \
            and i.args[1] is NONE and i.args[2] is NONE:
        return N("tuple", *[N("idx", v, C(k)) for k in range(i.args[0].args[0], 0)])
    return N("idx", v, i)


def show(n, depth=7):
    if not isinstance(n, Node):
        return repr(n)
    op, a = n.op, n.args
    if op == "const":
        return repr(a[0])
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if op == "param":
        return str(a[0])
    if op == "selfattr":
        return f"self.{a[0]}"
    if op == "pattr":
        return f".{a[0]}"
    if op == "pidx":
        return f"[{s(a[0])}]"
    if op == "pm":
        return f".{a[0]}({', '.join(s(x) for x in a[1:])})"
    if op == "at":
        return f"{s(a[0])}:{s(a[1])}"
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if op in ("call", "fn"):
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if op == "m":
        return f"{s(a[1])}.{a[0]}({', '.join(s(x) for x in a[2:])})"
    if op == "kw":
        return f"{a[0]}={s(a[1])}"
    if op == "add":
        return "(" + " + ".join(s(x) for x in a) + ")"
    if op == "mul":
        return "(" + " * ".join(s(x) for x in a) + ")"
    if op == "pow":
        return f"{s(a[0])}**{s(a[1])}"
    if op == "lt":
        return f"({s(a[0])} < {s(a[1])})"
    if op == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if op == "is":
        return f"({s(a[0])} is {s(a[1])})"
    if op == "in":
        return f"({s(a[0])} in {s(a[1])})"
    if op == "not":
        if isinstance(a[0], Node) and a[0].op == "lt":
            return f"({s(a[0].args[0])} >= {s(a[0].args[1])})"
        return f"not {s(a[0])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a) + ")"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if op == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op == "item":
        return s(a[0]) if len(a) == 1 else f"{s(a[0])} if {s(a[1])}"
    if op == "elem":
        return f"each({s(a[0])})"
    if op == "obj":
        return f"{s(a[0])}⟨{'; '.join(s(x) for x in a[1:])}⟩"
    if op == "upd":
        return f"{' '.join(s(x) if isinstance(x, Node) else str(x) for x in a)}"
    return f"{op}({', '.join(s(x) for x in a)})"
