"""C09: operations on equations act on both sides; the expression tools enumerate all and only the elements."""
from .base import *
from .labels import compatible
from .setalg import member, set_equal, atom, in_nodes, is_a, ELT, cname, part, spread


def is_class(f, me):
    return f is mk("attr", me, "__class__") or f is mk("typeof", me) or (f.op == "global" and f.args[0].split(".")[-1] == "Eq")


def side(x, k):
    return sub_(mk("attr", x, "args"), num(k))


def build(v, me):
    """the two sides of an equation built by the class of the equation"""
    if v.op == "call" and is_class(v.args[0], me) and not v.args[2]:
        a = v.args[1]
        if len(a) == 2 and all(x.op != "star" for x in a):
            return a
        if len(a) == 1 and a[0].op == "star":
            y = a[0].args[0]
            if y.op == "coll" and len(y.args[1]) == 2 and all(p.op not in ("for", "when", "splat", "app") for p in y.args[1]):
                return y.args[1]
            return (sub_(y, num(0)), sub_(y, num(1)))


def scaled_sides(v, me, f):
    """(c * equation).args[k]  ->  c * equation.args[k]   for the parameters of the operation"""
    eqs = {mk("param", a.arg) for a in f.node.args.args[1:]} | {me}

    def g(x):
        if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "args" and x.args[0].args[0].op == "poly":
            p = to_poly(x.args[0].args[0])
            out = num(0)
            for (c, nc), k in p.items():
                if nc or len(c) != 1 or c[0][1] != 1 or c[0][0] not in eqs:
                    return x
                out = add(out, mul(mk("num", k), sub_(mk("attr", c[0][0], "args"), x.args[1])))
            return out
        return x
    return rewrite(v, g)


def operator(ctx, rep, name, expect, cases=(None,)):
    """name: method; expect(me, other, k): value of side k"""
    f = ctx.method("Eq", name)
    I, v, s = ctx.run_method("Eq", name)
    me = mk("self", ctx.cls("Eq").qual)
    v = scaled_sides(eq_sides(v), me, f)
    ps = [a.arg for a in f.node.args.args][1:]
    other = mk("param", ps[0]) if ps else None
    tests = {x for y in [v] for x in walk(y) if x.op == "isinstance" and x.args[0] is other}
    for label, val in cases:
        F = set()
        for t in tests:
            n = cname(t.args[1])
            F.add(t if (val and n in ("Eq", "Equality", "Relational")) else not_(t))
        c = N.specialise(v, F)
        b = build(c, me)
        ok = None
        if b is not None:
            want = [expect[label](me, other, k) for k in (0, 1)]
            ok = tuple(b) == tuple(want)
            if not ok and not all(understood(x) for x in b):
                ok = None
        elif c.op in ("tuple", "coll", "poly", "num", "py", "param", "self") or gcall(c, "Add", "Mul"):
            ok = False
        rep.check("both-sides", f"{name}{'-' + label if label else ''}", f.where, ok, short(c))


def run(ctx, rep, tier):
    rep.rule("both-sides", "the operation is applied to each side, sides are not exchanged and the result is an equation", 7)
    rep.rule("inherited", "substitution, evaluation and expansion act as for sympy equations, with all their options, and give an equation", 3)
    rep.rule("isolate", "isolating solves the equation for the term", 1)
    rep.rule("enumerate", "the tool enumerates all and only the elements of its argument", 6)
    rep.rule("compare", "common and specific terms are set intersection and differences of the terms", 5)
    rep.rule("evaluated", "every substitution left unevaluated is replaced by its expression at its own point", 1)
    rep.rule("vector", "gradient and divergence differentiate along every coordinate, in order", 30)
    me = mk("self", ctx.cls("Eq").qual)
    A = lambda m, k: side(m, k)
    operator(ctx, rep, "__add__", {"": lambda m, o, k: add(A(m, k), A(o, k))}, [("", True)])
    operator(ctx, rep, "__sub__", {"": lambda m, o, k: nsub(A(m, k), A(o, k))}, [("", True)])
    operator(ctx, rep, "__neg__", {"": lambda m, o, k: neg(A(m, k))}, [("", True)])
    operator(ctx, rep, "__mul__", {"factor": lambda m, o, k: mul(o, A(m, k))}, [("factor", False)])
    operator(ctx, rep, "__imul__", {"factor": lambda m, o, k: mul(o, A(m, k)), "equation": lambda m, o, k: mul(A(m, k), A(o, k))},
             [("factor", False), ("equation", True)])
    for m in ("subs", "doit", "expand"):
        inherited(ctx, rep, m)
    if any(i["rule"] == "both-sides" for i in rep.items):
        c = ctx.cls("Eq")
        bases = [b.split(".")[-1] for b in ctx.pkg.ext_bases(c)]
        rep.check("both-sides", "is-a-sympy-equation", c.module.rel, any(b in ("Eq", "Equality") for b in bases), str(bases))
    f = ctx.method("Eq", "isolate")
    I, v, s = ctx.run_method("Eq", "isolate")
    v = eq_sides(v)
    ex = mk("param", f.node.args.args[1].arg)
    b = build(v, me)
    ok = None
    if b is not None:
        ok = b[0] is ex and solution(b[1], me, ex)
        if b[0] is not ex and understood(b[0], ("solve",)):
            ok = False
    rep.check("isolate", "Eq.isolate", f.where, ok, short(v))

    evaluated(ctx, rep)
    enumerations(ctx, rep)
    compare_rules(ctx, rep)
    vectors(ctx, rep)
    if any(i["verdict"] == "violated" for i in rep.items):
        rep.floors = {}


def evaluated(ctx, rep):
    """expr in which each Subs(e, variables, point) is e at this point"""
    f = ctx.func("remove_eval_derivative")
    I, v, s = ctx.run(f)
    v = N.specialise(I.fz(v, s), ())
    par = mk("param", f.node.args.args[0].arg)
    voc = ("subs", "xreplace", "doit", "atoms", "Subs", "zip", "replace")
    while mcall(v, "doit", "simplify", "expand"):
        v = v.args[0].args[0]
    if v is par:
        return rep.bad("evaluated", f.name, f.where, "the substitutions stay unevaluated")
    if not (mcall(v, "subs", "xreplace") and v.args[0].args[0] is par and len(v.args[1]) == 1 and v.args[1][0].op == "coll"):
        return rep.unsure("evaluated", f.name, f.where, short(v))
    lv = list(parts_flat(v.args[1][0].args[1]))
    if len(lv) != 1 or lv[0][0].op != "kv" or len(lv[0][2]) != 1:
        return rep.unsure("evaluated", f.name, f.where, short(v))
    (k, val), gs, (ix,) = lv[0][0].args, lv[0][1], lv[0][2]
    S = k.args[0] if k.op == "sub" and k.args[1] is ix else None
    if S is None or not (mcall(S, "atoms") and S.args[0].args[0] is par and len(S.args[1]) == 1 and cname(S.args[1][0]) == "Subs"):
        return rep.unsure("evaluated", f.name, f.where, short(k))
    if gs:
        return rep.check("evaluated", f.name, f.where, False if all(understood(g, voc) for g in gs) else None,
                         f"only the substitutions with {[short(g) for g in gs]}")
    names = {"expr": 0, "variables": 1, "point": 2}
    val = rewrite(val, lambda x: sub_(mk("attr", k, "args"), num(names[x.args[1]]))
                  if x.op == "attr" and x.args[0] is k and x.args[1] in names else x)
    part = lambda n: sub_(mk("attr", k, "args"), num(n))
    while mcall(val, "doit", "simplify", "expand"):
        val = val.args[0].args[0]
    if val is k:
        return rep.ok("evaluated", f.name, f.where, "evaluated by sympy")
    ok = None
    if mcall(val, "subs", "xreplace") and len(val.args[1]) == 1 and val.args[1][0].op == "coll":
        qs = list(parts_flat(val.args[1][0].args[1]))
        if len(qs) == 1 and len(qs[0][2]) == 1:
            p, g2, (j,) = qs[0]
            ab = tuple(p.args) if p.op == "kv" else tuple(p.args[1]) if p.op == "coll" and len(p.args[1]) == 2 else None
            if ab is not None:
                ok = val.args[0].args[0] is part(0) and ab == (sub_(part(1), j), sub_(part(2), j)) and not g2
    elif mcall(val, "subs", "xreplace") and len(val.args[1]) == 2 and val.args[0].args[0] is part(0):
        ok = False if has_term(val.args[1][0], part(1)) and has_term(val.args[1][1], part(2)) else None
    if not ok and not understood(val, voc):
        ok = None
    rep.check("evaluated", f.name, f.where, ok, short(val))


def solution(x, me, ex):
    """is x a solution of the equation for ex"""
    if x.op == "sub" and numval(x.args[1]) is not None and gcall(x.args[0], "solve", "solveset"):
        a = x.args[0].args[1]
        if len(a) >= 2:
            whole = a[0] in (me, nsub(side(me, 0), side(me, 1)), nsub(side(me, 1), side(me, 0)))
            if whole and a[1] is ex:
                return True
            if understood(a[0], ()) and understood(a[1], ()):
                return False
        return None
    if understood(x, ("solve",)):
        return False
    return None


def inherited(ctx, rep, name):
    c = ctx.cls("Eq")
    f = ctx.pkg.find_method(c, name)
    if f is None:
        rep.ok("inherited", name, c.module.rel, "inherited from sympy")
        return
    I, v, s = ctx.run_method("Eq", name)
    me = mk("self", c.qual)
    sup = {x for x in walk(v) if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[0].op == "superobj"}
    ok, why = None, short(v)
    if len(sup) == 1:
        S = list(sup)[0]
        good = S.args[0].args[1] == name
        pos, kw = S.args[1], S.args[2]
        va, vk = f.node.args.vararg, f.node.args.kwarg
        params = [a.arg for a in f.node.args.args][1:] + [a.arg for a in f.node.args.kwonlyargs]
        used = {x.args[0] for y in pos for x in walk(y) if x.op == "param"} | {
            x.args[0] for k, y in kw for x in walk(y) if x.op == "param"}
        need = set(params) | ({"*" + va.arg} if va else set()) | ({"**" + vk.arg} if vk else set())
        passed = need <= used
        isEq = {t for t in walk(v) if t.op == "isinstance" and t.args[0] is S}
        yes = N.specialise(v, set(isEq))
        no = N.specialise(v, {not_(t) for t in isEq}) if isEq else None
        b = build(yes, me)
        sides = b is not None and tuple(b) in ((side(S, 0), side(S, 1)),
                                               (mk("attr", S, "lhs"), mk("attr", S, "rhs")))
        if yes is S:
            sides = True       # sympy keeps the class of the equation
        ok = good and passed and sides and (no is None or no is S)
        if not isEq and b is not None:
            ok = False         # an equation that becomes true or false has no sides
            why = "the sides are taken without checking that the result is an equation: " + why
    elif not sup and understood(v, ("doit", "subs", "expand", "func", "__class__")):
        ok = None
    rep.check("inherited", name, f.where, ok if ok is not False or understood_super(v) else None, why)


def understood_super(v):
    return all(x.op not in ("unknown", "undef", "nondet", "mutated", "opaqueconst") for x in walk(v))


def triangle(v, M, shape):
    """is v the list of the elements (i, j), j >= i, row by row"""
    if v.op != "coll":
        return None
    lv = list(parts_flat(v.args[1]))
    if len(lv) != 1:
        return None
    x, g, ixs = lv[0]
    if x.op != "sub" or x.args[0] is not M or len(ixs) != 2:
        return None
    key = x.args[1]
    if key.op == "coll":
        key = key.args[1]
    elif key.op == "tuple":
        key = key.args
    else:
        return None
    if len(key) != 2:
        return None
    i, j = ixs
    a, b = key
    n0, n1 = sub_(shape, num(0)), sub_(shape, num(1))
    if i.args[0] is not n0:
        return False if understood(i.args[0]) else None
    if not g:
        return a is i and b is add(i, j) and j.args[0] is nsub(n1, i)
    if len(g) == 1 and j.args[0] is n1:
        return a is i and b is j and (g[0] in (N.compare("GtE", j, i), N.compare("LtE", i, j)))
    return False if all(understood(y) for y in g) else None


def enumerations(ctx, rep):
    # upper triangle
    for cname_, mname in ((None, "upper_triangle"), ("Matrix", "upper_triangle")):
        if cname_:
            f = ctx.method(cname_, mname)
            I, v, s = ctx.run_method(cname_, mname)
            M = mk("self", ctx.cls(cname_).qual)
        else:
            f = ctx.func(mname)
            I, v, s = ctx.run(f)
            M = mk("param", f.node.args.args[0].arg)
        ok = triangle(v, M, mk("attr", M, "shape"))
        if ok is None and M.op == "self" and v.op == "call" and cname(v.args[0]) == "upper_triangle":
            ok = v.args[1] == (M,)
        rep.check("enumerate", f"{cname_ or 'function'}-upper-triangle", f.where, ok, short(v))
    # trend of an equation
    f = ctx.func("get_trend")
    I, v, s = ctx.run(f)
    v = eq_sides(v)
    e = mk("param", f.node.args.args[0].arg)
    leaves = list(phi_leaves(v))
    want = and_(in_nodes(e), is_a("Derivative"), mk("trend"))

    def trend_formula(t):
        fm = member(t)
        at = []
        prop_atoms(fm, at)
        args = mk("attr", ELT, "args")
        from .c10 import psub_all
        for a in at:
            if a.op == "eq" and sub_(args, num(1)) in a.args and any(y.op == "sym" for y in walk(a)):
                o = a.args[0] if a.args[1] is sub_(args, num(1)) else a.args[1]
                items = o.args[1] if o.op == "coll" else (o.args if o.op == "tuple" else ())
                if len(items) == 2 and items[0].op == "sym" and numval(items[1]) == 1:
                    fm = psub_all(fm, a, mk("trend"))
            elif a.op == "eq" and mk("attr", ELT, "variables") in a.args:
                fm = psub_all(fm, a, mk("trend"))
        return fm
    sets = []
    for t, g in leaves:
        if t.op == "coll" and t.args[0] == "set" or t.op == "mutated":
            sets.append(t)
    res = [set_equal(trend_formula(t), want) for t in sets]
    for t in sets:
        at = []
        prop_atoms(trend_formula(t), at)
        if any(a.op not in ("holds", "trend", "eq", "in") for a in at):
            res = [None]
    ok = None if not res or None in res else all(res)
    rep.check("enumerate", "trends", f.where, ok, short(v))
    one = [(t, g) for t, g in leaves if t not in sets]
    ok = None
    if sets and len(one) == 1:
        t, g = one[0]
        src = {y for y in walk(t) if y in sets or y.op == "coll" and y.args[1] and set_equal(trend_formula(y), want) is True}
        sel = (t.op == "popped" or (t.op == "sub" and numval(t.args[1]) in (0, -1)) or t.op in ("coll1", "elementof"))
        guard = any(N.compare("Eq", num(1), len_(y)) in g for y in list(sets) + list(src))
        ok = bool(src) and sel and guard
        if not ok and not understood(t) and not (src and sel and not guard and all(len(y.args) < 3 for y in walk(t) if y.op == "mutated")):
            ok = None
    elif sets and not one and len(leaves) == len(sets):
        ok = False
    rep.check("enumerate", "single-trend", f.where, ok, f"when there is one trend, it is given itself: {short(v)}")
    # orders of a derivative
    f = ctx.func("get_derivative_partial_orders")
    I, v, s = ctx.run(f)
    d = mk("param", f.node.args.args[0].arg)
    args = mk("attr", d, "args")
    nv = norm_orders(N.specialise(v, {not_(t) for t in walk(v) if t.op == "isinstance"}), d)
    ok = orders_dict(nv, args, d)
    rep.check("enumerate", "partial-orders", f.where, ok, short(nv))
    f = ctx.func("get_total_order")
    I, v, s = ctx.run(f)
    d = mk("param", f.node.args.args[0].arg)
    args = mk("attr", d, "args")
    nv = N.specialise(v, {not_(t) for t in walk(v) if t.op == "isinstance"})
    nv = rewrite(nv, lambda x: num(0) if x.op == "sumof" and x.args[0].op == "coll" and not x.args[0].args[1] else x)
    nv = rewrite(nv, lambda x: by_key(x, args, d))
    ok = total(nv, args, d)
    rep.check("enumerate", "total-order", f.where, ok, short(nv))


def by_key(x, args, d):
    """values of a dictionary read through its own keys, in turn"""
    if x.op == "sub" and x.args[1].op == "sub" and x.args[0] is x.args[1].args[0] and x.args[1].args[1].op == "ix":
        D, i = x.args[0], x.args[1].args[1]
        if D in (mk("attr", d, "variable_count"), sub_(args, N.slice_(num(1), NONE, NONE))):
            return sub_(sub_(D, i), num(1))
    if x.op == "sub" and x.args[0].op == "coll" and x.args[0].args[0] == "dict":
        lv = list(parts_flat(x.args[0].args[1]))
        if len(lv) == 1 and lv[0][0].op == "kv" and not lv[0][1] and len(lv[0][2]) == 1:
            kv, j = lv[0][0], lv[0][2][0]
            k = x.args[1]
            k = by_key_index(k, x.args[0], kv.args[0], j)
            if k is not None:
                return rewrite(kv.args[1], lambda y: k if y is j else y)
    return x


def by_key_index(k, D, key, j):
    if k.op == "sub" and k.args[0] is D and k.args[1].op == "ix":
        return k.args[1]
    for i in {y for y in TT.walk(k) if y.op == "ix"}:
        if i.args[0] is j.args[0] and rewrite(key, lambda y: i if y is j else y) is k:
            return i
    return None


def norm_orders(v, d):
    return v


def each_pair(ix, args, d):
    """the pair number ix of a derivative"""
    return [sub_(args, add(num(1), ix)), sub_(mk("attr", d, "variable_count"), ix)]


def good_len(n, args, d):
    return n in (add(num(-1), len_(args)), len_(mk("attr", d, "variable_count")))


def orders_dict(v, args, d):
    if v.op != "coll" or v.args[0] != "dict":
        if v.op == "call" and cname(v.args[0]) == "dict" and len(v.args[1]) == 1:
            a = v.args[1][0]
            return True if a in (sub_(args, N.slice_(num(1), NONE, NONE)), mk("attr", d, "variable_count")) else None
        return None
    lv = list(parts_flat(v.args[1]))
    if len(lv) != 1:
        return False if lv and all(not y[2] and not y[1] and understood(y[0]) for y in lv) else None
    x, g, ixs = lv[0]
    if x.op == "splat":
        a = x.args[0]
        a = a.args[0] if a.op in ("dictof",) else a
        return True if a in (sub_(args, N.slice_(num(1), NONE, NONE)), mk("attr", d, "variable_count")) else None
    if x.op != "kv" or len(ixs) != 1 or g:
        return False if g and understood(v) else None
    if not good_len(ixs[0].args[0], args, d):
        return False if understood(ixs[0].args[0]) else None
    for p in each_pair(ixs[0], args, d):
        if x.args[0] is sub_(p, num(0)) and x.args[1] is sub_(p, num(1)):
            return True
    return False if understood(x) else None


def total(v, args, d):
    if v is mk("attr", d, "derivative_count"):
        return True
    if v.op == "sumof" and v.args[0].op == "coll":
        if v.args[0].args[0] == "set":
            return False
        lv = list(parts_flat(v.args[0].args[1]))
        if len(lv) == 1 and len(lv[0][2]) == 1:
            x, g, (i,) = lv[0]
            r = not g and good_len(i.args[0], args, d) and any(x is sub_(p, num(1)) for p in each_pair(i, args, d))
            return r or (False if understood(x) else None)
    z = [x for x in v.args if not (x.op == "num" or gcall(x, "Integer", "S", "Rational"))] if v.op == "add" and all(isinstance(x, T) for x in v.args) else []
    if len(z) == 1:
        v = z[0]
    if v.op == "sumover":
        i, x = v.args[0], v.args[1]
        x = x.args[0] if isinstance(x, tuple) else x
        r = good_len(i.args[0], args, d) and any(x is sub_(p, num(1)) for p in each_pair(i, args, d))
        return r or (False if understood(x) else None)
    if understood(v):
        return False
    return None


def compare_rules(ctx, rep):
    ce = ctx.cls("CompareExpression")
    me = mk("self", ce.qual)
    f = ctx.method("CompareExpression", "__init__")
    I, v, s = ctx.run_method("CompareExpression", "__init__")
    ps = [mk("param", a.arg) for a in f.node.args.args[1:]]
    x = s.attrs.get((me, "expressions"))
    ok = None
    if x is not None:
        x = I.fz(x, s)
        want = [N.call(mk("attr", p, "expand"), (), ()) for p in ps]
        if x.op == "coll" and len(x.args[1]) == 2:
            ok = list(x.args[1]) == want or (False if understood(x, ("expand", "doit", "simplify")) else None)
    rep.check("compare", "expanded", f.where, ok, short(x) if x is not None else "no expressions")
    # sets of terms
    f = ctx.method("CompareExpression", "sets")
    I, v, s = ctx.run_method("CompareExpression", "sets")
    memo = {t for t in walk(v) if t.op == "is" and NONE in t.args}
    v0 = N.specialise(v, memo)
    E = mk("attr", me, "expressions")
    ok = None
    if v0.op == "coll":
        i = mk("ix", len_(E), 0)
        lv = list(parts_flat(v0.args[1]))
        if len(lv) == 1 and len(lv[0][2]) == 1 and lv[0][2][0].args[0] is len_(E):
            x, g, (i,) = lv[0]
            e = sub_(E, i)
            got = member(x)
            ok = False if understood(x, ("set", "frozenset", "make_args")) else None
            at = []
            prop_atoms(got, at)
            tests = [t for t in at if t.op not in ("holds", "eq") or (t.op == "eq" and ELT not in t.args)]
            if len(tests) == 1:
                t = tests[0]
                add_test = (t.op == "isinstance" and t.args[0] is e and cname(t.args[1]) == "Add") or \
                    t in (N.truthy(mk("attr", e, "is_Add")), mk("attr", e, "is_Add")) or \
                    (t.op in ("eq", "is") and {mk("attr", e, "func"), mk("typeof", e)} & set(t.args) and
                     any(cname(y) == "Add" for y in t.args))
                a = atom("in", ELT, mk("attr", e, "args"))
                if add_test:
                    ok = set_equal(got, or_(and_(t, a), and_(not_(t), eq_(ELT, e))))
            elif not tests and got.op == "holds" and got.args[0] == "in" and mcall(got.args[2], "make_args") or \
                    got.op == "holds" and got.args[0] == "in" and gcall(got.args[2], "make_args"):
                ok = got.args[2].args[1] == (e,)
    rep.check("compare", "terms", f.where, ok, short(v0))
    ctx2 = dict(opaque={"sets"})
    S = mk("attr", me, "sets")
    s0, s1 = [atom("in", ELT, sub_(S, num(k))) for k in (0, 1)]
    f = ctx.method("CompareExpression", "common")
    I, v, s = ctx.run_method("CompareExpression", "common", opaque={"sets"})
    got = member(v)
    ok = set_equal(got, and_(s0, s1))
    rep.check("compare", "common", f.where, ok if ok or understood(v, VOC) else None, short(v))
    f = ctx.method("CompareExpression", "specific")
    I, v, s = ctx.run_method("CompareExpression", "specific", opaque={"sets"})
    ok = None
    if v.op == "coll":
        lv = list(parts_flat(v.args[1]))
        if len(lv) == 1 and len(lv[0][2]) == 1:
            x, g, (i,) = lv[0]
            si = atom("in", ELT, sub_(S, i))
            ok = set_equal(member(x), and_(si, not_(and_(s0, s1)))) and i.args[0] is len_(S) and not g
        elif len(lv) == 2 and not lv[0][2] and not lv[1][2]:
            ok = set_equal(member(lv[0][0]), and_(s0, not_(s1))) and set_equal(member(lv[1][0]), and_(s1, not_(s0)))
        if not ok and not understood(v, VOC):
            ok = None
    rep.check("compare", "specific", f.where, ok, short(v))
    q = ctx.cls("CompareEquation")
    f = ctx.method("CompareEquation", "__init__")
    I, v, s = ctx.run_method("CompareEquation", "__init__", opaque={"CompareExpression"})
    me = mk("self", q.qual)
    ps = [mk("param", a.arg) for a in f.node.args.args[1:]]
    for k, n in enumerate(("lhs", "rhs")):
        x = s.attrs.get((me, n))
        ok = None
        if x is not None:
            x = eq_sides(I.fz(x, s))
            if x.op in ("call", "obj"):
                a = x.args[1]
                ok = tuple(a) == tuple(side(p, k) for p in ps) or (False if all(understood(y) for y in a) else None)
        rep.check("compare", f"equation-{n}", f.where, ok, short(x) if x is not None else "absent")


VOC = ("difference", "intersection", "union", "symmetric_difference", "set", "sets")


def vectors(ctx, rep):
    c = ctx.cls("CoordinateSystem")
    me = mk("self", c.qual)
    X = mk("attr", me, "_coords")
    f0 = ctx.method("CoordinateSystem", "__init__")
    I, v, s = ctx.run_method("CoordinateSystem", "__init__")
    stored = [k[1] for k, t in s.attrs.items() if k[0] is me and I.fz(t, s) is mk("param", f0.node.args.args[1].arg)]
    if stored:
        X = mk("attr", me, stored[0])
    f = ctx.method("CoordinateSystem", "gradient")
    I, v, s = ctx.run_method("CoordinateSystem", "gradient")
    fld = mk("param", f.node.args.args[1].arg)
    ok = None
    if v.op == "call" and cname(v.args[0]) == "Matrix" and len(v.args[1]) == 1 and v.args[1][0].op == "coll":
        lv = list(parts_flat(v.args[1][0].args[1]))
        if len(lv) == 1 and len(lv[0][2]) == 1:
            x, g, (i,) = lv[0]
            ok = deriv_of(x) == (fld, sub_(X, i)) and i.args[0] is len_(X) and not g
            if not ok and not understood(x, ("Derivative", "diff")):
                ok = None
        elif len(lv) == 1 and not lv[0][2] and lv[0][0].op == "coll" and len(lv[0][0].args[1]) == 1 and \
                understood(lv[0][0], ("Derivative", "diff")) and not lv[0][1]:
            ok = False      # one row: the components of a gradient are the rows of a column
    rep.check("vector", "gradient", f.where, ok, short(v))
    f = ctx.method("CoordinateSystem", "div")
    I, v, s = ctx.run_method("CoordinateSystem", "div")
    vec = mk("param", f.node.args.args[1].arg)
    ok = None
    z = [x for x in v.args if not (x.op == "num" or gcall(x, "Integer", "S", "Rational"))] if v.op == "add" and all(isinstance(x, T) for x in v.args) else []
    if len(z) == 1:
        v = z[0]
    if v.op == "sumover":
        i, x = v.args[0], v.args[1]
        if isinstance(x, tuple) and len(x) == 1:
            x = x[0]
        if isinstance(x, T):
            ok = deriv_of(x) == (sub_(vec, i), sub_(X, i)) or (False if understood(x, ("Derivative", "diff")) else None)
    elif v.op == "sumof" and v.args[0].op == "coll":
        lv = list(parts_flat(v.args[0].args[1]))
        if len(lv) == 1 and len(lv[0][2]) == 1:
            x, g, (i,) = lv[0]
            ok = not g and (deriv_of(x) == (sub_(vec, i), sub_(X, i))) or (False if understood(x, ("Derivative", "diff")) else None)
        elif len(lv) == 1 and not lv[0][1] and deriv_of(lv[0][0]) is not None and set(lv[0][2]) == \
                {y.args[1] for y in deriv_of(lv[0][0]) if isinstance(y, T) and y.op == "sub"}:
            ok = False      # every component along every coordinate
    rep.check("vector", "divergence", f.where, ok, short(v))
    compatible(ctx, rep, "vector")


def deriv_of(x):
    """(function, variable) of a derivative of order one"""
    if gcall(x, "Derivative", "diff") and len(x.args[1]) == 2:
        return (x.args[1][0], x.args[1][1])
    if mcall(x, "diff") and len(x.args[1]) == 1:
        return (x.args[0].args[0], x.args[1][0])
    return None
