"""Syntactic mutants and behaviour-preserving rewrites of single functions, used
to test the checkers both ways (never part of a check)."""
import ast
import copy


def fn_of(tree, clsname, name):
    body = tree.body
    if clsname:
        for s in tree.body:
            if isinstance(s, ast.ClassDef) and s.name == clsname:
                body = s.body
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
            return s
    return None


def in_raise_ids(fn):
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Raise) or (
            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "warn"
        ):
            out |= {id(y) for y in ast.walk(x)}
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in ("msg", "message", "warning_msg", "err_msg"):
            out |= {id(y) for y in ast.walk(x)}
    for x in ast.walk(fn):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            if x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant):
                out |= {id(y) for y in ast.walk(x.body[0])}
            for a in ast.walk(x.args) if hasattr(x, "args") else []:
                if isinstance(a, ast.arg) and a.annotation is not None:
                    out |= {id(y) for y in ast.walk(a.annotation)}
            if getattr(x, "returns", None) is not None:
                out |= {id(y) for y in ast.walk(x.returns)}
        if isinstance(x, ast.AnnAssign):
            out |= {id(y) for y in ast.walk(x.annotation)}
    return out


CMPS = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BINS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def mutants(fn):
    """Yield (kind, mutated FunctionDef)."""
    skip = in_raise_ids(fn)
    nodes = [x for x in ast.walk(fn)]
    for i, x in enumerate(nodes):
        if id(x) in skip:
            continue
        def mk(edit):
            f2 = copy.deepcopy(fn)
            y = [z for z in ast.walk(f2)][i]
            edit(y)
            return ast.fix_missing_locations(f2)
        if isinstance(x, ast.Compare) and type(x.ops[0]) in CMPS:
            yield "cmp", x.lineno, mk(lambda y: y.ops.__setitem__(0, CMPS[type(y.ops[0])]()))
        if isinstance(x, ast.BoolOp):
            yield "andor", x.lineno, mk(lambda y: setattr(y, "op", ast.Or() if isinstance(y.op, ast.And) else ast.And()))
            if len(x.values) > 2:
                yield "dropterm", x.lineno, mk(lambda y: y.values.pop())
        if isinstance(x, ast.BinOp) and type(x.op) in BINS:
            if not (isinstance(x.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(x.left, "value", None), str)):
                yield "arith", x.lineno, mk(lambda y: setattr(y, "op", BINS[type(y.op)]()))
        if isinstance(x, ast.Constant):
            if isinstance(x.value, bool):
                yield "bool", x.lineno, mk(lambda y: setattr(y, "value", not y.value))
            elif isinstance(x.value, (int, float)):
                yield "num", x.lineno, mk(lambda y: setattr(y, "value", y.value + 1))
            elif isinstance(x.value, str):
                yield "str", x.lineno, mk(lambda y: setattr(y, "value", y.value + "_x"))
        if isinstance(x, ast.If):
            yield "negif", x.lineno, mk(lambda y: setattr(y, "test", ast.UnaryOp(ast.Not(), y.test)))
            if len(x.body) >= 1 and isinstance(x.body[-1], ast.Raise):
                yield "dropcheck", x.lineno, mk(lambda y: setattr(y, "test", ast.Constant(False)))
        if isinstance(x, ast.Call) and len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args) and ast.dump(x.args[0]) != ast.dump(x.args[1]):
            if not (isinstance(x.func, ast.Name) and x.func.id in ("isinstance",)):
                yield "swapargs", x.lineno, mk(lambda y: y.args.__setitem__(slice(0, 2), [y.args[1], y.args[0]]))
        if isinstance(x, ast.Call) and x.keywords:
            yield "dropkw", x.lineno, mk(lambda y: y.keywords.pop())
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(x, fld, None)
            if isinstance(blk, list):
                for j, st in enumerate(blk):
                    if not isinstance(st, ast.stmt) or id(st) in skip:
                        continue
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and not (
                        isinstance(st.value.func, ast.Attribute) and st.value.func.attr == "warn") and not (
                            isinstance(st.value.func, ast.Name) and st.value.func.id == "print"):
                        yield "dropcall", st.lineno, mk(lambda y: getattr(y, fld).__setitem__(j, ast.Pass()))
                    if isinstance(st, (ast.Assign, ast.AugAssign)):
                        t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                        if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(st, ast.AugAssign):
                            yield "dropstore", st.lineno, mk(lambda y: getattr(y, fld).__setitem__(j, ast.Pass()))
        if isinstance(x, ast.Attribute) and x.attr in ("min", "max", "mean", "sum"):
            alt = {"min": "max", "max": "min", "mean": "sum", "sum": "mean"}[x.attr]
            yield "func", x.lineno, mk(lambda y: setattr(y, "attr", alt))


# ---------------------------------------------------------------- refactorings
def names_loaded(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def names_stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def refactors(fn, is_method):
    """Yield (kind, line, FunctionDef, helpers[list of FunctionDef], where)."""
    nodes = [x for x in ast.walk(fn)]
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg: params.add(fn.args.vararg.arg)
    if fn.args.kwarg: params.add(fn.args.kwarg.arg)
    localn = names_stored(fn) - params
    limports = {(a.asname or a.name.split(".")[0]) for z in nodes if isinstance(z, (ast.Import, ast.ImportFrom)) for a in z.names}

    # rename locals
    nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in nodes[1:])
    glob = any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in nodes)
    excn = {x.name for x in nodes if isinstance(x, ast.ExceptHandler) and x.name}
    if localn and not nested and not glob:
        f2 = copy.deepcopy(fn)
        for x in ast.walk(f2):
            if isinstance(x, ast.Name) and x.id in localn - excn:
                x.id = "r_" + x.id
        yield "rename", fn.lineno, f2, [], None

    for i, x in enumerate(nodes):
        def mk(edit):
            f2 = copy.deepcopy(fn)
            y = [z for z in ast.walk(f2)][i]
            edit(y)
            return ast.fix_missing_locations(f2)
        if isinstance(x, ast.If) and x.orelse:
            def e(y):
                y.test = ast.UnaryOp(ast.Not(), y.test)
                y.body, y.orelse = y.orelse, y.body
            yield "invert", x.lineno, mk(e), [], None
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            def e(y):
                vs = y.test.values
                y.test = vs[0]
                rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
                y.body = [ast.If(rest, y.body, [])]
            yield "nestif", x.lineno, mk(e), [], None
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
            fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            def e(y):
                y.left, y.comparators[0] = y.comparators[0], y.left
                y.ops[0] = fl[type(y.ops[0])]()
            yield "flipcmp", x.lineno, mk(e), [], None
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(x, fld, None)
            if not (isinstance(blk, list) and blk and isinstance(blk[0], ast.stmt)):
                continue
            if isinstance(x, ast.ClassDef):
                continue
            for j, st in enumerate(blk):
                # temp variable for return value / call args
                if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
                    def e(y):
                        b = getattr(y, fld)
                        b[j:j + 1] = [ast.Assign([ast.Name("tmp_result", ast.Store())], b[j].value, lineno=1), ast.Return(ast.Name("tmp_result", ast.Load()))]
                    yield "tmpret", st.lineno, mk(e), [], None
                if isinstance(st, (ast.Assign, ast.Expr)) and isinstance(st.value, ast.Call) and st.value.args and not isinstance(st.value.args[0], (ast.Starred, ast.Name, ast.Constant, ast.GeneratorExp)):
                    fu = st.value.func
                    simple = isinstance(fu, ast.Name) or (isinstance(fu, ast.Attribute) and isinstance(fu.value, ast.Name))
                    if simple:
                        def e(y):
                            b = getattr(y, fld)
                            a = b[j].value.args[0]
                            b[j].value.args[0] = ast.Name("tmp_arg", ast.Load())
                            b.insert(j, ast.Assign([ast.Name("tmp_arg", ast.Store())], a, lineno=1))
                        yield "tmparg", st.lineno, mk(e), [], None
                # if test temp
                if isinstance(st, ast.If):
                    def e(y):
                        b = getattr(y, fld)
                        t = b[j].test
                        b[j].test = ast.Name("tmp_cond", ast.Load())
                        b.insert(j, ast.Assign([ast.Name("tmp_cond", ast.Store())], t, lineno=1))
                    yield "tmpcond", st.lineno, mk(e), [], None
                    if st.orelse and isinstance(st.body[-1], ast.Return) :
                        def e(y):
                            b = getattr(y, fld)
                            o = b[j].orelse
                            b[j].orelse = []
                            b[j + 1:j + 1] = o
                        yield "noelse", st.lineno, mk(e), [], None
                    if len(st.body) == 1 and len(st.orelse) == 1 and isinstance(st.body[0], ast.Assign) and isinstance(st.orelse[0], ast.Assign) and ast.dump(st.body[0].targets[0]) == ast.dump(st.orelse[0].targets[0]) and isinstance(st.body[0].targets[0], (ast.Name, ast.Attribute)) and len(st.body[0].targets) == 1:
                        def e(y):
                            b = getattr(y, fld)
                            s = b[j]
                            b[j] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=1)
                        yield "ternary", st.lineno, mk(e), [], None
                # swap adjacent independent simple statements
                if j + 1 < len(blk):
                    a, b_ = blk[j], blk[j + 1]
                    if isinstance(a, ast.Assign) and isinstance(b_, ast.Assign) and all(isinstance(t, ast.Name) for t in a.targets + b_.targets):
                        if not has(a, ast.Yield, ast.Await) and not (names_stored(a) & (names_loaded(b_) | names_stored(b_))) and not (names_stored(b_) & names_loaded(a)):
                            if pure(a.value) and pure(b_.value):
                                def e(y):
                                    b = getattr(y, fld)
                                    b[j], b[j + 1] = b[j + 1], b[j]
                                yield "swap", st.lineno, mk(e), [], None
                    if isinstance(a, ast.If) and isinstance(b_, ast.If) and all(len(q.body) <= 2 and isinstance(q.body[-1], ast.Raise) and not q.orelse for q in (a, b_)):
                        def e(y):
                            b = getattr(y, fld)
                            b[j], b[j + 1] = b[j + 1], b[j]
                        yield "swapraise", st.lineno, mk(e), [], None
                # append loop -> comprehension
                if j > 0 and isinstance(st, ast.For) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Expr) and isinstance(st.body[0].value, ast.Call):
                    c = st.body[0].value
                    p = blk[j - 1]
                    if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and isinstance(p, ast.Assign) and isinstance(p.value, ast.List) and not p.value.elts and isinstance(p.targets[0], ast.Name) and p.targets[0].id == c.func.value.id:
                        def e(y):
                            b = getattr(y, fld)
                            s = b[j]
                            b[j - 1:j + 1] = [ast.Assign(b[j - 1].targets, ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)]), lineno=1)]
                        yield "loop2comp", st.lineno, mk(e), [], None
                if isinstance(st, ast.Assign) and isinstance(st.value, ast.ListComp) and len(st.value.generators) == 1 and isinstance(st.targets[0], ast.Name):
                    lc = st.value
                    tn = names_stored(lc.generators[0].target)
                    if not (tn & (localn - tn | params)) and st.targets[0].id not in names_loaded(lc):
                        def e(y):
                            b = getattr(y, fld)
                            s = b[j]
                            g = s.value.generators[0]
                            app = ast.Expr(ast.Call(ast.Attribute(ast.Name(s.targets[0].id, ast.Load()), "append", ast.Load()), [s.value.elt], []))
                            bd = [app]
                            for c in reversed(g.ifs):
                                bd = [ast.If(c, bd, [])]
                            b[j:j + 1] = [ast.Assign([ast.Name(s.targets[0].id, ast.Store())], ast.List([], ast.Load()), lineno=1), ast.For(g.target, g.iter, bd, [], lineno=1)]
                        yield "comp2loop", st.lineno, mk(e), [], None
                if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Name):
                    def e(y):
                        b = getattr(y, fld)
                        s = b[j]
                        s.body.insert(0, ast.Assign([ast.Name(s.target.id, ast.Store())], ast.Subscript(ast.Name(s.iter.id, ast.Load()), ast.Name("idx_", ast.Load()), ast.Load()), lineno=1))
                        s.target = ast.Name("idx_", ast.Store())
                        s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name(s.iter.id, ast.Load())], [])], [])
                    yield "rangelen", st.lineno, mk(e), [], None
                # helper extraction of an expression statement's value
                if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and st.value is not None and not isinstance(st.value, (ast.Constant, ast.Name)) and not has(st, ast.Yield, ast.YieldFrom, ast.Lambda, ast.NamedExpr, ast.Await) and not uses_super(st):
                    free = sorted(names_loaded(st.value) & (localn | params))
                    inner_def = {n for z in nodes[1:] if isinstance(z, ast.FunctionDef) for n in [z.name]}
                    comp = {n for z in ast.walk(st.value) if isinstance(z, ast.comprehension) for n in names_stored(z.target)}
                    free = [f for f in free if f not in comp]
                    if not (set(free) & inner_def) and not (names_loaded(st.value) & (inner_def | limports)):
                        selfn = fn.args.args[0].arg if is_method and fn.args.args else None
                        fr = [f for f in free if f != selfn]
                        usem = selfn in free
                        def e(y):
                            b = getattr(y, fld)
                            s = b[j]
                            tgt = ast.Attribute(ast.Name(selfn, ast.Load()), "_hlp", ast.Load()) if usem else ast.Name("_hlp", ast.Load())
                            s.value = ast.Call(tgt, [ast.Name(f, ast.Load()) for f in fr], [])
                        h = ast.FunctionDef(name="_hlp", args=ast.arguments(posonlyargs=[], args=([ast.arg(selfn)] if usem else []) + [ast.arg(f) for f in fr], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(copy.deepcopy(st.value))], decorator_list=[], lineno=1, type_params=[])
                        yield "exthelper", st.lineno, mk(e), [h], "method" if usem else "module"
                # helper extraction of a whole if/for block w/o control flow out and with <=1 output
                if isinstance(st, (ast.If, ast.For)) and not has(st, ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.NamedExpr, ast.Global) and not uses_super(st):
                    if isinstance(x, (ast.For, ast.While)) and has_free_loopctl(st):
                        continue
                    if has_free_loopctl(st):
                        continue
                    inner_def = {z.name for z in nodes[1:] if isinstance(z, ast.FunctionDef)}
                    if names_loaded(st) & (inner_def | limports):
                        continue
                    outs = sorted(names_stored(st) & localn)
                    selfn = fn.args.args[0].arg if is_method and fn.args.args else None
                    rest_loaded = set()
                    seen_after = False
                    for z in nodes:
                        pass
                    # names needed later: any load outside this statement
                    inside = {id(q) for q in ast.walk(st)}
                    later = {q.id for q in nodes if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load) and id(q) not in inside}
                    outs = [o for o in outs if o in later]
                    pstore = names_stored(st) & params
                    if pstore or len(outs) > 1:
                        continue
                    comp = {n for z in ast.walk(st) if isinstance(z, ast.comprehension) for n in names_stored(z.target)}
                    before = set(params)
                    for z in nodes:
                        if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store) and (z.lineno, z.col_offset) < (st.lineno, st.col_offset):
                            before.add(z.id)
                    need = (names_loaded(st) | set(outs)) & before - comp
                    if outs and (outs[0] not in before or isinstance(blk, list) and fld == 'orelse') and isinstance(st, ast.If):
                        continue
                    fr = sorted(n for n in need if n != selfn)
                    usem = selfn is not None and selfn in names_loaded(st)
                    def e(y):
                        b = getattr(y, fld)
                        tgt = ast.Attribute(ast.Name(selfn, ast.Load()), "_hlp", ast.Load()) if usem else ast.Name("_hlp", ast.Load())
                        call = ast.Call(tgt, [ast.Name(f, ast.Load()) for f in fr], [])
                        b[j] = ast.Assign([ast.Name(outs[0], ast.Store())], call, lineno=1) if outs else ast.Expr(call)
                    hb = [copy.deepcopy(st)] + ([ast.Return(ast.Name(outs[0], ast.Load()))] if outs else [])
                    h = ast.FunctionDef(name="_hlp", args=ast.arguments(posonlyargs=[], args=([ast.arg(selfn)] if usem else []) + [ast.arg(f) for f in fr], kwonlyargs=[], kw_defaults=[], defaults=[]), body=hb, decorator_list=[], lineno=1, type_params=[])
                    yield "extblock", st.lineno, mk(e), [h], "method" if usem else "module"


def uses_super(n):
    return any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(n))


def has_free_loopctl(st):
    def go(n, inloop):
        if isinstance(n, (ast.Break, ast.Continue)) and not inloop:
            return True
        il = inloop or isinstance(n, (ast.For, ast.While))
        return any(go(c, il) for c in ast.iter_child_nodes(n))
    return go(st, False)


PUREM = {"coord", "name", "copy", "shape", "coords", "extract", "coord_dims", "astype", "get", "ndim", "reshape"}


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Attribute) and (f.attr in PUREM or (isinstance(f.value, ast.Name) and f.value.id == "np")):
                continue
            if isinstance(f, ast.Name) and f.id in ("len", "float", "int", "str", "list", "tuple", "set", "min", "max", "isinstance", "sorted"):
                continue
            return False
        if isinstance(x, (ast.Yield, ast.NamedExpr, ast.Lambda)):
            return False
    return True
