"""Membership formulas of the sets built by the code: x in set  as a propositional formula over atomic tests."""
from .base import *

ELT = mk("elt")
SUBCLASS = {"TrainableScalar": ("Symbol",), "ScalarSymbol": ("Symbol",), "FunctionSymbol": ("Symbol",)}


def cname(t):
    return t.args[0].split(".")[-1] if t.op == "global" else None


def atom(*a):
    return mk("holds", *a)


def in_nodes(src, x=ELT):
    return atom("node", src, x)


def is_a(name, x=ELT):
    return atom("isa", string(name), x)


def member(t, x=ELT):
    """formula of  x in t"""
    o = t.op
    if o == "phi":
        return or_(and_(t.args[0], member(t.args[1], x)), and_(not_(t.args[0]), member(t.args[2], x)))
    if o == "coll":
        return or_(*[part(p, x) for p in t.args[1]]) if t.args[1] else FALSE
    if o == "setdiff":
        return and_(member(t.args[0], x), not_(member(t.args[1], x)))
    if o == "bitand":
        return and_(member(t.args[0], x), member(t.args[1], x))
    if o == "bitor":
        return or_(*[member(a, x) for a in t.args])
    if o == "bitxor":
        a, b = [member(y, x) for y in t.args]
        return or_(and_(a, not_(b)), and_(b, not_(a)))
    if o == "poly":
        d = t.args if False else None
        p = to_poly(t)
        pos = [k for k, c in p.items() if c == 1]
        neg_ = [k for k, c in p.items() if c == -1]
        if len(pos) == 1 and len(neg_) == len(p) - 1:
            ms = [mono_atom(k) for k in pos + neg_]
            if None not in ms:
                return and_(member(ms[0], x), *[not_(member(m, x)) for m in ms[1:]])
    if o == "star" and t.args[0].op == "coll":
        return or_(*[part(y, x) for y in spread(t.args[0].args[1])])
    if o == "fold":
        # union, or selection, accumulated over a loop
        ix, cc, init, body = t.args
        f = member(body, x)
        c = atom("in", x, cc)
        at = []
        prop_atoms(f, at)
        if not any(has_term(a, cc) for a in at if a is not c):
            with_, without = psub(f, c, TRUE), psub(f, c, FALSE)
            if with_ is TRUE:
                return or_(member(init, x), exists(ix, without))
            if without is FALSE:
                return and_(member(init, x), not_(exists(ix, not_(with_))))
    if o == "lastof":
        return atom("last", t.args[0], member(t.args[1], x))
    if o == "sortedT" or o == "reversedT":
        return member(t.args[0], x)
    if o == "mutated":
        base, m = member(t.args[0], x), t.args[1]
        args = t.args[2] if len(t.args) > 2 else ()
        ms = [member(a, x) for a in args] if m.endswith("update") else []
        if m == "difference_update":
            return and_(base, *[not_(y) for y in ms])
        if m == "update":
            return or_(base, *ms)
        if m == "intersection_update":
            return and_(base, *ms)
        if m in ("discard", "remove"):
            return and_(base, not_(eq_(x, args[0])))
        if m == "add":
            return or_(base, eq_(x, args[0]))
        if m == "clear":
            return FALSE
    if o == "call":
        f = t.args[0]
        if f.op == "attr":
            n, r, a = f.args[1], f.args[0], t.args[1]
            if n == "union" and r.op == "global" and r.args[0].endswith(("builtins.set", "builtins.frozenset")) and a:
                return or_(*[member(y, x) for y in a])
            if n == "union":
                return or_(member(r, x), *[member(y, x) for y in a])
            if any(y.op in ("star", "splat") for y in a):
                return atom("in", x, t)
            if n == "difference":
                return and_(member(r, x), *[not_(member(y, x)) for y in a])
            if n == "intersection":
                return and_(member(r, x), *[member(y, x) for y in a])
            if n == "symmetric_difference" and len(a) == 1:
                p, q = member(r, x), member(a[0], x)
                return or_(and_(p, not_(q)), and_(q, not_(p)))
            if n == "copy" and not a:
                return member(r, x)
            if n == "atoms" and len(a) == 1 and cname(a[0]):
                return and_(in_nodes(r, x), is_a(cname(a[0]), x))
            if n == "filter" and False:
                return None
        if f.op == "global" and f.args[0].endswith(("set.union", "frozenset.union")) and t.args[1]:
            return or_(*[member(y, x) for y in t.args[1]])
        if gcall(t, "set", "frozenset", "list", "tuple", "sorted") and len(t.args[1]) == 1:
            return member(t.args[1][0], x)
    if o == "attr" and t.args[1] == "free_symbols":
        return and_(in_nodes(t.args[0], x), is_a("Symbol", x))
    return atom("in", x, t)


def mono_atom(k):
    """the single atom of a monomial key"""
    c, nc = k
    if not nc and len(c) == 1 and c[0][1] == 1:
        return c[0][0]
    if not c and len(nc) == 1:
        y = nc[0]
        return y if isinstance(y, T) else (y[0] if y[1] == 1 else None)
    return None


def psub(f, a, v):
    if f is a:
        return v
    if f.op in ("and", "or", "not"):
        return {"and": and_, "or": or_, "not": not_}[f.op](*[psub(x, a, v) for x in f.args])
    if f.op == "phi":
        return phi(*[psub(x, a, v) for x in f.args])
    return f


def exists(ix, f):
    """exists ix: f  — distributed over the parts of f that do not depend on the index when exact"""
    at = []
    prop_atoms(f, at)
    dep = [a for a in at if free_in(a, ix)]
    if not dep:
        return f
    if len(dep) == 1:
        t, e = psub(f, dep[0], TRUE), psub(f, dep[0], FALSE)
        some = atom("exists", ix, dep[0])
        if e is FALSE:
            return and_(some, t)
    return atom("exists", ix, f)


def spread(parts):
    """parts of a collection of sets -> parts of their union"""
    out = []
    for p in parts:
        if p.op in ("for", "when"):
            out.append(mk(p.op, p.args[0], tuple(spread(p.args[1]))))
        else:
            out.append(mk("splat", p))
    return out


def from_exists(t, x):
    """exists(i, guards and x == F(i))  ->  membership of the collection F(i) when guards"""
    def parts(y):
        if y.op == "exists":
            inner = parts(y.args[1])
            return None if inner is None else mk("for", y.args[0], (inner,))
        cs = list(y.args) if y.op == "and" else [y]
        eqs = [c for c in cs if c.op == "eq" and x in c.args]
        if len(eqs) == 1:
            leaf = eqs[0].args[0] if eqs[0].args[1] is x else eqs[0].args[1]
            rest = [c for c in cs if c is not eqs[0]]
            return mk("when", and_(*rest), (leaf,)) if rest else leaf
        exs = [c for c in cs if c.op == "exists"]
        if len(exs) == 1:
            inner = parts(exs[0])
            rest = [c for c in cs if c is not exs[0]]
            return None if inner is None else (mk("when", and_(*rest), (inner,)) if rest else inner)
        return None
    p = parts(t)
    return None if p is None else part(p, x)


def part(p, x):
    if p.op == "splat":
        return member(p.args[0], x)
    if p.op == "star" and p.args[0].op == "coll":
        return or_(*[part(y, x) for y in spread(p.args[0].args[1])])
    if p.op == "when":
        return and_(p.args[0], or_(*[part(q, x) for q in p.args[1]]))
    if p.op == "for":
        ix, ps = p.args
        out = []
        for q in ps:
            out.append(elements(ix, q, x))
        return or_(*out)
    if p.op == "kv":
        return eq_(x, p.args[0])
    return eq_(x, p)


def elements(ix, q, x):
    """exists ix: x in part q ; parts of the form Y[ix] (with a guard) give membership of Y and the guard on x"""
    guards, leaf = [], q
    while leaf.op == "when" and len(leaf.args[1]) == 1:
        guards.append(leaf.args[0])
        leaf = leaf.args[1][0]
    if leaf.op == "sub" and leaf.args[1] is ix and not free_in(leaf.args[0], ix):
        g = and_(*guards) if guards else TRUE
        g = norm_guard(subst(g, {leaf: x}), x)
        if not free_in(g, ix):
            return and_(member(leaf.args[0], x), g)
    if leaf.op == "for" and not guards:
        ix2, ps2 = leaf.args
        if len(ps2) == 1:
            inner = elements(ix2, ps2[0], x)
            return exists(ix, inner)
    return exists(ix, and_(*guards, part(leaf, x)) if guards else part(leaf, x))


def norm_guard(g, x):
    """membership tests of the element inside a guard become membership formulas"""
    if g.op in ("and", "or", "not"):
        f = {"and": and_, "or": or_, "not": not_}[g.op]
        return f(*[norm_guard(a, x) for a in g.args])
    if g.op == "exists":
        r = from_exists(g, x)
        return g if r is None else r
    if g.op == "in" and g.args[0] is x:
        return member(g.args[1], x)
    if g.op == "isinstance" and g.args[0] is x and cname(g.args[1]):
        return is_a(cname(g.args[1]), x)
    return g


def canon(f):
    """one name for quantified atoms that only differ by their bound index"""
    at = []
    prop_atoms(f, at)
    m = {}
    for a in at:
        if a.op == "holds" and a.args[0] == "exists":
            m[a] = a
    return f


def class_axioms(f):
    """subclass facts between the class tests of a formula"""
    at = []
    prop_atoms(f, at)
    ax = []
    for a in at:
        if a.op == "holds" and a.args[0] == "isa":
            n, x = a.args[1].args[0], a.args[2]
            for sup in SUBCLASS.get(n, ()):
                ax.append(or_(not_(a), is_a(sup, x)))
    return ax


def set_equal(f, g, axioms=(), limit=12):
    """equivalence of two membership formulas under axioms (None: too many tests)"""
    import itertools
    ax = list(axioms) + class_axioms(f) + class_axioms(g)
    at = []
    for y in [f, g] + ax:
        prop_atoms(y, at)
    if len(at) > limit:
        return None
    for vals in itertools.product((True, False), repeat=len(at)):
        env = dict(zip(at, vals))
        if all(prop_eval(a, env) for a in ax) and prop_eval(f, env) != prop_eval(g, env):
            return False
    return True
