"""More behaviour-preserving edits, as transformations of one function (or module)."""
import ast
import copy


def blocks(fn):
    for x in ast.walk(fn):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, fld, b


def loads(n):
    return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]


def stores(n):
    return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in sw:
        return ast.Compare(t.left, [sw[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


# each: fn(node deep copy, rnd) -> True when something was changed
def ifexp2if(fn, rnd):
    did = False
    for x, fld, b in list(blocks(fn)):
        out = []
        for st in b:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp) and isinstance(st.targets[0], (ast.Name, ast.Attribute)):
                v = st.value
                out.append(ast.If(v.test, [ast.Assign(st.targets, v.body)], [ast.Assign(copy.deepcopy(st.targets), v.orelse)]))
                did = True
            elif isinstance(st, ast.Return) and isinstance(st.value, ast.IfExp):
                v = st.value
                out += [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
                did = True
            else:
                out.append(st)
        setattr(x, fld, out)
    return did


def if2ret(fn, rnd):
    """if c: return a / else: return b  ->  no else."""
    did = False
    for x, fld, b in list(blocks(fn)):
        out = []
        for st in b:
            if isinstance(st, ast.If) and st.orelse and ends(st.body) and not (len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If)):
                out += [ast.If(st.test, st.body, [])] + st.orelse
                did = True
            else:
                out.append(st)
        setattr(x, fld, out)
    return did


def addelse(fn, rnd):
    """if c: return a; rest -> if c: return a else: rest"""
    did = False
    for x, fld, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.If) and not st.orelse and ends(st.body) and i + 1 < len(b) and not isinstance(x, ast.Try):
                st.orelse = b[i + 1:]
                setattr(x, fld, b[:i + 1])
                did = True
                break
    return did


def fstr2format(fn, rnd):
    did = False

    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            nonlocal did
            t, args = "", []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    t += v.value.replace("{", "{{").replace("}", "}}")
                elif v.format_spec is None and v.conversion == -1:
                    t += "{}"
                    args.append(v.value)
                else:
                    return n
            did = True
            return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), args, [])
    T().visit(fn)
    return did


def format2fstr(fn, rnd):
    did = False

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal did
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) \
                    and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                t = n.func.value.value
                if t.count("{}") == len(n.args) and t.replace("{}", "").count("{") == 0 and t.replace("{}", "").count("}") == 0:
                    if any(isinstance(q, (ast.Constant, ast.JoinedStr)) and (not isinstance(q, ast.Constant) or isinstance(q.value, str)) for a in n.args for q in ast.walk(a)):
                        return n
                    parts = t.split("{}")
                    vals = []
                    for i, p in enumerate(parts):
                        if p:
                            vals.append(ast.Constant(p))
                        if i < len(n.args):
                            vals.append(ast.FormattedValue(n.args[i], -1, None))
                    did = True
                    return ast.JoinedStr(vals)
            return n
    T().visit(fn)
    return did


def demorgan(fn, rnd):
    did = False
    for x in ast.walk(fn):
        if isinstance(x, (ast.If, ast.While, ast.IfExp)) and isinstance(x.test, ast.BoolOp):
            op = ast.Or() if isinstance(x.test.op, ast.And) else ast.And()
            x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in x.test.values]))
            did = True
    return did


def guard(fn, rnd):
    """for ...: if c: BODY -> if not c: continue; BODY;  def: ...; if c: BODY -> if not c: return"""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            i = x.body[0]
            x.body = [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
            did = True
    if isinstance(fn.body[-1], ast.If) and not fn.body[-1].orelse and not any(isinstance(z, ast.Return) and z.value is not None for z in ast.walk(fn)) \
            and not any(isinstance(z, (ast.Yield, ast.YieldFrom)) for z in ast.walk(fn)):
        i = fn.body[-1]
        fn.body[-1:] = [ast.If(neg(i.test), [ast.Return(None)], [])] + i.body
        did = True
    return did


def inlinemsg(fn, rnd):
    """msg = E; raise X(msg)  ->  raise X(E)"""
    did = False
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            a, c = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(c, (ast.Raise, ast.Expr)):
                n = a.targets[0].id
                call = c.exc if isinstance(c, ast.Raise) else c.value
                if isinstance(call, ast.Call) and call.args and isinstance(call.args[0], ast.Name) and call.args[0].id == n and loads(c).count(n) == 1 and n in ("msg", "error_msg", "message", "err_msg"):
                    if loads(fn).count(n) == stores(fn).count(n):
                        call.args[0] = a.value
                        del b[i]
                        did = True
                        continue
            i += 1
    return did


def inlinetemp(fn, rnd):
    """x = E; <next statement using x once>  ->  inlined (x stored once, loaded once)."""
    did = False
    if any(isinstance(z, (ast.FunctionDef, ast.Lambda)) for z in ast.walk(fn) if z is not fn):
        return False
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            a, c = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(c, (ast.Return, ast.Assign, ast.Expr)):
                n = a.targets[0].id
                v = getattr(c, "value", None)
                if v is not None and loads(fn).count(n) == 1 and stores(fn).count(n) == 1 and n in loads(v):
                    # evaluated first in the next statement
                    first = v
                    ok = False
                    if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id == n and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(q, ast.Call) for q in ast.walk(v.func)):
                        v.args[0] = a.value
                        ok = True
                    elif isinstance(v, ast.Name):
                        c.value = a.value
                        ok = True
                    elif isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == n:
                        v.left = a.value
                        ok = True
                    if ok:
                        del b[i]
                        did = True
                        continue
            i += 1
    return did


def splitor(fn, rnd):
    """if a or b: raise -> two ifs"""
    did = False
    for x, fld, b in list(blocks(fn)):
        out = []
        for st in b:
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.Or) and ends(st.body):
                out += [ast.If(v, copy.deepcopy(st.body), []) for v in st.test.values]
                did = True
            else:
                out.append(st)
        setattr(x, fld, out)
    return did


def enum(fn, rnd):
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and not (isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name)):
            x.target = ast.Tuple([name("_", ast.Store()), x.target], ast.Store())
            x.iter = ast.Call(name("enumerate"), [x.iter], [])
            did = True
    return did


def anyloop(fn, rnd):
    """for x in xs: if c: raise E  ->  if any(c for x in xs): raise E   (E not about x)"""
    did = False
    for x, fld, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.For) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.If) and not st.body[0].orelse and isinstance(st.body[0].body[-1], ast.Raise):
                r = st.body[0]
                if not set(stores(st.target)) & {n for s in r.body for n in loads(s)}:
                    b[i] = ast.If(ast.Call(name("any"), [ast.GeneratorExp(r.test, [ast.comprehension(st.target, st.iter, [], 0)])], []), r.body, [])
                    did = True
            elif isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], ast.Raise) and isinstance(st.test, ast.Call) and isinstance(st.test.func, ast.Name) and st.test.func.id == "any" and isinstance(st.test.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = st.test.args[0]
                if len(g.generators) == 1:
                    c = g.generators[0]
                    t = g.elt if not c.ifs else ast.BoolOp(ast.And(), c.ifs + [g.elt])
                    b[i] = ast.For(c.target, c.iter, [ast.If(t, st.body, [])], [])
                    did = True
    return did


def consts(fn, rnd):
    """Numbers and strings used in the body become module constants (returned as extra statements)."""
    out = []
    skip = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.JoinedStr):
            skip |= {id(q) for q in ast.walk(x)}
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            skip.add(id(x.value))
        if isinstance(x, (ast.arguments,)):
            skip |= {id(q) for q in ast.walk(x)}
    skip |= {id(q) for d in fn.decorator_list for q in ast.walk(d)}
    if fn.returns is not None:
        skip |= {id(q) for q in ast.walk(fn.returns)}
    for x in ast.walk(fn):
        if isinstance(x, ast.AnnAssign):
            skip |= {id(q) for q in ast.walk(x.annotation)}

    class T(ast.NodeTransformer):
        def visit_Constant(self, n):
            if id(n) in skip or isinstance(n.value, bool) or n.value is None or n.value is Ellipsis:
                return n
            if len(out) < 3 and (isinstance(n.value, (int, float)) and n.value not in (0, 1, -1, 2) or isinstance(n.value, str) and len(n.value) > 3):
                nm = f"_{fn.name.upper().strip('_')}_CONST_{len(out)}"
                out.append(ast.Assign([name(nm, ast.Store())], ast.Constant(n.value)))
                return name(nm)
            return n
    fn.body = [T().visit(s) for s in fn.body]
    return out or False


def kwcalls(fn, rnd, sig=None):
    """Positional arguments of package calls become keywords."""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and x.args and not any(isinstance(a, ast.Starred) for a in x.args) and sig:
            names = sig(x)
            if names and len(names) >= len(x.args):
                k = rnd.randrange(len(x.args))
                x.keywords = [ast.keyword(n, a) for n, a in zip(names[k:], x.args[k:])] + x.keywords
                x.args = x.args[:k]
                did = True
    return did


def chaincmp(fn, rnd):
    did = False

    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            nonlocal did
            self.generic_visit(n)
            if len(n.ops) == 2:
                did = True
                return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]),
                                              ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
            return n
    T().visit(fn)
    return did


def tuplejoin(fn, rnd):
    """a = x; b = y  ->  a, b = x, y  (independent)"""
    did = False
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in (p, q)) and \
                    p.targets[0].id not in loads(q) and p.targets[0].id != q.targets[0].id:
                b[i:i + 2] = [ast.Assign([ast.Tuple([p.targets[0], q.targets[0]], ast.Store())], ast.Tuple([p.value, q.value], ast.Load()))]
                did = True
            i += 1
    return did


def splitchain(fn, rnd):
    """x = f(g(a)) -> inner = g(a); x = f(inner) for nested first arguments and method chains"""
    did = 0
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, (ast.Call, ast.Subscript, ast.BinOp)):
                n = f"inner_{did}"
                v = st.value.func.value
                st.value.func.value = name(n)
                b.insert(i, ast.Assign([name(n, ast.Store())], v))
                did += 1
                i += 1
            i += 1
    return bool(did)


def litcalls(fn, rnd):
    """[] -> list(), {} -> dict(), dict(a=1) -> {'a': 1}"""
    did = False

    class T(ast.NodeTransformer):
        def visit_List(self, n):
            nonlocal did
            self.generic_visit(n)
            if not n.elts and isinstance(n.ctx, ast.Load):
                did = True
                return ast.Call(name("list"), [], [])
            return n

        def visit_Dict(self, n):
            nonlocal did
            self.generic_visit(n)
            if not n.keys:
                did = True
                return ast.Call(name("dict"), [], [])
            if all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
                did = True
                return ast.Call(name("dict"), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
            return n
    T().visit(fn)
    return did


def isinst(fn, rnd):
    did = False

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal did
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
                did = True
                return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), t], []) for t in n.args[1].elts])
            return n
    T().visit(fn)
    return did


def membership(fn, rnd):
    """x == a or x == b <-> x in (a, b); x in [a, b] -> x in (a, b)"""
    did = False

    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            nonlocal did
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and isinstance(n.left, (ast.Name, ast.Attribute)) and 1 <= len(n.comparators[0].elts) <= 4 and all(isinstance(q, ast.Constant) for q in n.comparators[0].elts):
                did = True
                inn = isinstance(n.ops[0], ast.In)
                vs = [ast.Compare(copy.deepcopy(n.left), [ast.Eq() if inn else ast.NotEq()], [q]) for q in n.comparators[0].elts]
                return vs[0] if len(vs) == 1 else ast.BoolOp(ast.Or() if inn else ast.And(), vs)
            return n
    T().visit(fn)
    return did


def appendextend(fn, rnd):
    """for x in xs: l.append(e) -> l.extend(e for x in xs)"""
    did = False
    for x, fld, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.For) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Expr) and isinstance(st.body[0].value, ast.Call):
                c = st.body[0].value
                if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id not in loads(c.args[0]):
                    b[i] = ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", ast.Load()), [ast.GeneratorExp(c.args[0], [ast.comprehension(st.target, st.iter, [], 0)])], []))
                    did = True
    return did


def noop(fn, rnd):
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(i, rnd.choice([ast.Pass(), ast.Expr(ast.Constant("note")), ast.Assign([name("_unused", ast.Store())], ast.Constant(None)),
                                  ast.Expr(ast.Constant(0)), ast.If(ast.Constant(False), [ast.Pass()], []), ast.Assert(ast.Constant(True), None)]))
    return True


def selflocal(fn, rnd):
    """self.x read more than once, never stored here -> local at the top is not safe in general; only for __init__-set scalars.
    Here: for reads in one statement."""
    did = 0
    if not fn.args.args or fn.args.args[0].arg != "self" or fn.name == "__init__":
        return False
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and st.value is not None and did < 3:
                at = [q for q in ast.walk(st.value) if isinstance(q, ast.Call) for a in q.args if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self" and isinstance(a.ctx, ast.Load)]
                if at and not any(isinstance(q, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.IfExp, ast.BoolOp)) for q in ast.walk(st.value)):
                    call = at[0]
                    for j, a in enumerate(call.args):
                        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self":
                            n = f"own_{did}"
                            call.args[j] = name(n)
                            b.insert(i, ast.Assign([name(n, ast.Store())], a))
                            did += 1
                            i += 1
                            break
            i += 1
    return bool(did)


def lambdadef(fn, rnd):
    did = 0
    for x, fld, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and isinstance(st.value, ast.Call):
                for k in st.value.keywords:
                    if isinstance(k.value, ast.Lambda) and k.arg:
                        n = f"_inner_{did}"
                        b.insert(i, ast.FunctionDef(n, k.value.args, [ast.Return(k.value.body)], [], lineno=1, type_params=[]))
                        k.value = name(n)
                        did += 1
                        i += 1
            i += 1
    return bool(did)


def mergeif(fn, rnd):
    """nested ifs -> and"""
    did = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            y = x.body[0]
            x.test = ast.BoolOp(ast.And(), [x.test, y.test])
            x.body = y.body
            did = True
    return did


def doc(fn, rnd):
    """new docstring, annotations dropped from locals, comments"""
    if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant):
        fn.body[0] = ast.Expr(ast.Constant("Rewritten description."))
        return True
    return False


def ifdict(fn, rnd):
    """elif chain of returns -> separate ifs"""
    did = False
    for x, fld, b in blocks(fn):
        for i, st in enumerate(b):
            if isinstance(st, ast.If) and len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If) and ends(st.body):
                o = list(st.orelse)
                st.orelse = []
                b[i + 1:i + 1] = o
                did = True
                break
    return did


KINDS = [ifexp2if, if2ret, addelse, fstr2format, format2fstr, demorgan, guard, inlinemsg, inlinetemp, splitor, enum, anyloop,
         consts, kwcalls, chaincmp, tuplejoin, splitchain, litcalls, isinst, membership, appendextend, noop, selflocal, lambdadef,
         mergeif, doc, ifdict]
