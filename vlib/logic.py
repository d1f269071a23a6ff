"""Propositional equivalence of two guarded values by a truth table over their
atomic conditions (at most MAXATOMS), with x==const1 / x==const2 exclusivity."""
from itertools import product

from .nodes import C, DEAD, FALSE, NONE, TRUE, Node, excl_eq, isboolish, lits, not_, rebuild, ite, show

MAXATOMS = 9
MAXSIZE = 6000


def atoms(n, out, depth=0, top=True):
    """Atomic conditions on the ite/boolean spine of n."""
    if len(out) > MAXATOMS or depth > 40:
        return
    if n.op == "ite":
        atoms(n.args[0], out, depth + 1)
        atoms(n.args[1], out, depth + 1)
        atoms(n.args[2], out, depth + 1)
    elif n.op in ("and", "or", "not"):
        for a in n.args:
            atoms(a, out, depth + 1)
    elif n.op == "const":
        return
    elif isboolish(n):
        out[n.dig] = n
    elif depth and n.op in ("param", "selfattr", "each"):
        out[n.dig] = n


def condatoms(n, out, seen, depth=0):
    """Atoms occurring as conditions anywhere in n (bounded)."""
    if n.dig in seen or len(out) > MAXATOMS or depth > 60:
        return
    seen.add(n.dig)
    if n.op == "ite":
        split(n.args[0], out)
    elif n.op in ("item", "upd", "ef", "up", "st") and len(n.args) == 2:
        for l in lits(n.args[1]):
            if l.op != "each" and not varies(l):
                split(l, out)
    for a in n.args:
        if isinstance(a, Node):
            condatoms(a, out, seen, depth + 1)


def varies(n, memo=None):
    """n depends on the element of some iteration."""
    memo = {} if memo is None else memo
    if n.dig not in memo:
        memo[n.dig] = n.op in ("elem", "pos", "each", "carry", "bound") or any(isinstance(a, Node) and varies(a, memo) for a in n.args)
    return memo[n.dig]


def tests(n, out=None, seen=None):
    """Digests of everything tested anywhere in n."""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    todo = [n]
    while todo:
        x = todo.pop()
        if x.dig in seen:
            continue
        seen.add(x.dig)
        if x.op == "ite":
            split(x.args[0], out)
        elif x.op in ("item", "upd", "up", "ef", "st") and len(x.args) == 2 and isinstance(x.args[1], Node):
            split(x.args[1], out)
        elif x.op in ("raiseif", "and", "or"):
            for a in x.args:
                split(a, out)
        todo += [a for a in x.args if isinstance(a, Node)]
    return {d for d, a in out.items() if a.op not in ("exc", "each", "unbroken")}


def split(c, out):
    if c.op in ("and", "or", "not"):
        for a in c.args:
            split(a, out)
    elif c.op == "ite" :
        for a in c.args:
            split(a, out)
    elif c.op != "const":
        out[c.dig] = c


def restrict(n, asg, memo):
    """n with every atom in asg replaced by its truth value."""
    if n.dig in asg and (isboolish(n) or True):
        return None
    k = n.dig
    if k in memo:
        return memo[k]
    memo[k] = n
    if n.op == "ite":
        c = cond(n.args[0], asg, memo)
        if c is TRUE:
            r = go(n.args[1], asg, memo)
        elif c is FALSE:
            r = go(n.args[2], asg, memo)
        else:
            r = ite(c, go(n.args[1], asg, memo), go(n.args[2], asg, memo))
    elif not any(isinstance(a, Node) for a in n.args):
        r = n
    elif n.op in ("item", "upd", "up", "ef", "st") and len(n.args) == 2:
        r = rebuild(n.op, (go(n.args[0], asg, memo), cond(n.args[1], asg, memo)))
    else:
        new = tuple(go(a, asg, memo) if isinstance(a, Node) else a for a in n.args)
        r = n if all(x is y for x, y in zip(new, n.args)) else rebuild(n.op, new)
        if r.dig in asg and isboolish(r):
            r = C(asg[r.dig])
    memo[k] = r
    return r


def go(n, asg, memo):
    if n.dig in asg and isboolish(n):
        return C(asg[n.dig])
    if n.dig in asg:
        return n
    return restrict(n, asg, memo)


def cond(c, asg, memo):
    if c.dig in asg:
        return C(asg[c.dig])
    if c.op in ("and", "or", "not"):
        return rebuild(c.op, tuple(cond(a, asg, memo) for a in c.args))
    if c.op == "ite":
        a = cond(c.args[0], asg, memo)
        if a is TRUE:
            return cond(c.args[1], asg, memo)
        if a is FALSE:
            return cond(c.args[2], asg, memo)
    x = go(c, asg, memo)
    return C(asg[x.dig]) if x.dig in asg else x


def hasite(n, memo):
    if n.dig not in memo:
        memo[n.dig] = n.op == "ite" or any(isinstance(a, Node) and hasite(a, memo) for a in n.args)
    return memo[n.dig]


def spread(at):
    """Replace each condition that has a choice inside it (f(x if c else y)) by the inner
    conditions and by what it becomes under each of them (f(x), f(y))."""
    memo = {}
    for d in [d for d in at if hasite(at[d], memo)]:
        inner = {}
        condatoms(at[d], inner, set())
        if any(hasite(a, memo) for a in inner.values()):
            more = {k: a for k, a in inner.items()}
            spread(more)
            inner = more
        if not inner or len(inner) > 5:
            continue
        n = at.pop(d)
        at.update(inner)
        for vals in product((True, False), repeat=len(inner)):
            x = go(n, dict(zip(inner, vals)), {})
            if not hasite(x, memo):
                split(x, at)
    return at


def equivalent(r, c, boolean=False, dead=()):
    """dead: conditions under which neither value matters."""
    if r is c:
        return True
    if r.size > MAXSIZE or c.size > MAXSIZE:
        return False
    at = {}
    for n in (r, c):
        if boolean:
            split(n, at)
        else:
            condatoms(n, at, set())
            if n.op in ("and", "or", "not"):
                split(n, at)
    spread(at)
    if not at or len(at) > MAXATOMS:
        return False
    gone = []
    for d in dead:
        more = {}
        split(d, more)
        spread(more)
        if more and any(k in at for k in more) and len(set(at) | set(more)) <= MAXATOMS:
            at.update(more)
            gone.append(d)
    ks = sorted(at)
    eqs = never_both(ks, at)
    f = cond if boolean else go
    for vals in product((True, False), repeat=len(ks)):
        asg = dict(zip(ks, vals))
        if any(asg[a] and asg[b] for a, b in eqs):
            continue
        if any(at[k].op == "each" and not v for k, v in asg.items()):
            continue
        known = {}
        for k, v in asg.items():        # where x is None, x and None are the same
            if v and at[k].op == "is" and NONE in at[k].args:
                known.update((a.dig, NONE) for a in at[k].args if a is not NONE)
        if any(cond(d, asg, {}) is TRUE for d in gone):
            continue
        x, y = f(r, asg, dict(known)), f(c, asg, dict(known))
        if x is DEAD or y is DEAD:
            continue
        if x is not y:
            return False
    return True


def never_both(ks, at):
    """Pairs of conditions that cannot both be true."""
    out = [(a, b) for i, a in enumerate(ks) for b in ks[i + 1:] if excl_eq(at[a], at[b])]
    for k in ks:
        if at[k].op == "is" and NONE in at[k].args:
            out += [(k, a.dig) for a in at[k].args if a.dig in at]
    return out


def cases(r, c):
    """[(conditions, r, c)] under each way of settling the conditions of two values."""
    if r.size > 1500 or c.size > 1500 or r.op != c.op and "ite" not in (r.op, c.op):
        return []
    at = {}
    for n in (r, c):
        condatoms(n, at, set())
    spread(at)
    if not 1 < len(at) <= 6:
        return []
    ks = sorted(at)
    eqs = never_both(ks, at)
    out = []
    for vals in product((True, False), repeat=len(ks)):
        asg = dict(zip(ks, vals))
        if any(asg[a] and asg[b] for a, b in eqs) or any(at[k].op == "each" and not v for k, v in asg.items()):
            continue
        known = {}
        for k, v in asg.items():
            if v and at[k].op == "is" and NONE in at[k].args:
                known.update((a.dig, NONE) for a in at[k].args if a is not NONE)
        x, y = go(r, asg, dict(known)), go(c, asg, dict(known))
        if x is not DEAD and y is not DEAD:
            out.append((" and ".join(show(at[k] if v else not_(at[k]), 4)[:80] for k, v in asg.items() if v or len(ks) < 4)[:240], x, y))
    return out
