"""C14: each representation holds one equation per unknown, closed by the external closure and cleaned of the
expectations of the prognostic functions."""
from .base import *
from .repres import *
from engine.norm import eq_, lt_, in_, truthy


def source_of(b, me):
    """(system, index term) when b is an equation of one of the derived systems"""
    if b.op == "sub" and b.args[0].op == "attr" and b.args[0].args[0] is me and b.args[0].args[1] in SYSTEMS:
        return b.args[0].args[1], b.args[1]
    return None, None


def steps_of(steps, me):
    """[kind set or None] of the substitutions of a chain, in order, and their faults"""
    out, faults = [], []
    for name, args, kw in steps:
        if name in STAYS:
            continue
        if len(args) == 1:
            k, f = classify(args[0], me)
            faults += f
            out.append(k)
        elif len(args) == 2:
            k, f = classify(coll("dict", mk("kv", *args)), me)
            out.append(k)
        else:
            out.append(None)
    return out, faults


def order_ok(kinds, first, then):
    a = [i for i, k in enumerate(kinds) if k and first in k]
    b = [i for i, k in enumerate(kinds) if k and then in k]
    return not a or not b or min(a) <= max(b)


def parts(ctx, rep, name, closed, cross, floor=None):
    me, f, _, v, I, s = representation(ctx, name, closed, cross)
    label = f"{name}{'+closure' if closed else ''}{'' if cross else ':univariate'}"
    if v.op != "coll" or v.args[0] not in ("list", "tuple"):
        rep.unsure("systems", label, f.where, short(v))
        return
    wanted = [n for n in SYSTEMS if (n != "metric_system" or name == "in_metric") and (cross or n != "cross_covariance_system")]
    found = {n: [] for n in SYSTEMS}
    tensors, other = [], []
    for p, gs, ixs in split(parts_flat(v.args[1])):
        b, steps = chain(p)
        n, i = source_of(b, me)
        if n is not None:
            found[n].append((b, i, steps, gs, ixs))
        elif gcall(b, "Eq", "Equation") and len(b.args[1]) == 2:
            tensors.append((b, steps, gs, ixs))
        else:
            other.append(b)
    for n in SYSTEMS:
        S = mk("attr", me, n)
        inst = f"{label}:{n}"
        if n not in wanted:
            if found[n] and n != "cross_covariance_system":
                rep.bad("systems", inst, f.where, f"the equations of {n} are in the system {name}")
            continue
        if len(found[n]) == 2 and len(found[n][0][3]) == 1 and len(found[n][1][3]) == 1 and \
                not_(found[n][0][3][0]) is found[n][1][3][0]:
            # two ways of treating the same equations
            for b, i, steps, gs, ixs in found[n]:
                ok = len(ixs) == 1 and ixs[0] is i and i.args[0] is len_(S)
                rep.check("systems", inst, f.where, True if ok else None, f"{short(b)} under {[short(g) for g in gs]}")
                if any(has_term(g, mk("attr", me, "_closure")) or has_term(g, mk("attr", me, "closure")) or
                       not understood(g, OPQ + ("atoms", "has", "free_symbols", "Expectation")) for g in gs):
                    rep.unsure("closure", inst, f.where, f"treatment under {[short(g) for g in gs]}")
                else:
                    treat(rep, inst, f.where, steps, me, closed, name)
            continue
        if len(found[n]) != 1:
            rep.check("systems", inst, f.where, None if other else False, f"the equations of {n} occur {len(found[n])} times in {name}")
            continue
        b, i, steps, gs, ixs = found[n][0]
        gs = [g for g in gs if not several(g, me)]
        ok = not gs and len(ixs) == 1 and ixs[0] is i and i.args[0] is len_(S)
        rep.check("systems", inst, f.where, True if ok else (False if all(understood(x, OPQ) for x in list(gs) + [b]) else None),
                  f"{short(b)} for {[short(q.args[0]) for q in ixs]} values under {[short(g) for g in gs]}")
        treat(rep, inst, f.where, steps, me, closed, name)
    for b, steps, gs, ixs in tensors:
        lhs = b.args[1][0]
        X = TENSOR[name]
        c = component_trend(lhs, me)
        inst = f"{label}:{X}"
        if c is None:
            rep.check("systems", inst, f.where, None, f"equation of {short(lhs)}")
            continue
        fld, tensor, comp = c
        ok = tensor == X
        rep.check("systems", inst + ":unknown", f.where, ok, f"equation of {tensor} in {name}")
        cov = covers(comp, fld, tensor, gs, ixs, me, lhs)
        rep.check("systems", inst + ":components", f.where, cov,
                  f"components {short(lhs)} for {[short(q.args[0], 200) for q in ixs]} under {[short(g) for g in gs]}")
        b2, st2 = chain(b.args[1][1])
        treat(rep, inst, f.where, st2 + steps, me, closed, name, tensor=True)
    if name != "in_metric":
        rep.check("systems", f"{label}:{TENSOR[name]}:once", f.where, True if len(tensors) == 1 else (None if other else False),
                  f"{len(tensors)} groups of equations of the tensor")
    elif tensors:
        rep.unsure("systems", f"{label}:tensor", f.where, "equations built in place")
    rep.check("systems", f"{label}:nothing else", f.where, True if not other else None, "; ".join(short(o, 100) for o in other[:3]))


def split(parts):
    """an element which is one of two expressions, as two elements under opposite conditions"""
    for p, gs, ixs in parts:
        b, _ = chain(p)
        if b.op == "phi" and len(b.args) == 3:
            c = b.args[0]
            for x, g in ((b.args[1], c), (b.args[2], not_(c))):
                yield from split([(x if p is b else rewrite(p, lambda q: x if q is b else q), list(gs) + [g], ixs)])
        else:
            yield p, gs, ixs


def several(g, me):
    """is the condition 'there are several fields' or 'the system of cross covariances exists'"""
    F = len_(mk("attr", me, "fields"))
    return g in (lt_(num(1), F), not_(eq_(F, num(1))), not_(lt_(F, num(2))), N.truthy(mk("attr", me, "cross_covariance_system")))


def component_trend(t, me):
    """(field, tensor, index) when t is the trend of a component of a tensor"""
    if t.op == "sub" and gcall(t.args[0], "upper_triangle"):
        m = t.args[0].args[1][0]
        x = untrend(m, me)
        if x is not None and x.op == "attr" and x.args[1] in ("metric", "diffusion", "aspect"):
            return x.args[0], x.args[1], ("ut", t.args[1])
        return None
    if t.op == "sub":
        x = untrend(t.args[0], me)
        if x is not None and x.op == "attr" and x.args[1] in ("metric", "diffusion", "aspect"):
            return x.args[0], x.args[1], t.args[1].args[1] if t.args[1].op == "coll" else None
    x = untrend(t, me)
    return component(x) if x is not None else None


def untrend(t, me):
    while t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in STAYS:
        t = t.args[0].args[0]
    if gcall(t, "Derivative", "diff") and len(t.args[1]) == 2 and is_time(t.args[1][1], me):
        return t.args[1][0]
    if mcall(t, "diff") and len(t.args[1]) == 1 and is_time(t.args[1][0], me):
        return t.args[0].args[0]
    return None


def is_time(t, me):
    return t is mk("sym", "t") or repr(t) == "sym(t)" or t.op == "attr" and t.args[1] in ("time_coordinate", "time_symbol")


def covers(comp, fld, tensor, gs, ixs, me, lhs):
    """do the loops enumerate every independent component of the tensor of every field?"""
    i = field_of(fld, me)
    if i is None or i not in ixs or not all_fields(i, me):
        return False if i is not None and i.op in ("ix", "num", "poly") else None
    rest = [q for q in ixs if q is not i]
    if comp is None:
        return None
    if comp[0] == "ut":
        if len(rest) != 1 or comp[1] is not rest[0]:
            return False if understood(comp[1], ()) else None
        if gs:
            return False if all(understood(g, OPQ) for g in gs) else None
        ls = rest[0].args[0]
        ls = ls.args if ls.op == "min" else (ls,)
        return True if all(l.op == "len" and gcall(l.args[0], "upper_triangle") and same_shape(l.args[0].args[1][0], me)
                           for l in ls) else None
    if len(comp) == 2 and len(rest) == 2:
        a, b = comp
        return covers_pairs(a, b, rest, gs, fld)
    return None


def covers_pairs(a, b, rest, gs, fld):
    """components (a, b) enumerated by two loops: every i <= j exactly once"""
    ns = {len_(mk("attr", fld, "spatial_coordinates"))}
    for m in ("metric", "diffusion", "aspect"):
        sh = mk("attr", mk("attr", fld, m), "shape")
        ns |= {sub_(sh, num(0)), sub_(sh, num(1))}
        ns |= {mk("attr", mk("attr", fld, m), "rows"), mk("attr", mk("attr", fld, m), "cols")}
    x, y = rest
    if x.args[0] in ns and y.args[0] in ns and {a, b} == {x, y}:
        return (set(gs) in ({not_(lt_(y, x))}, {not_(lt_(x, y))})) or (False if all(understood(g, ()) for g in gs) else None)
    if not gs:
        for p, q in ((x, y), (y, x)):
            if p.args[0] in ns and any(q.args[0] is nsub(n, p) for n in ns) and {a, b} == {p, add(p, q)}:
                return True
            if p.args[0] in ns and q.args[0] is add(p, num(1)) and {a, b} == {p, q}:
                return True
    return False if all(understood(t, ()) for t in (a, b)) and x.args[0] in ns else None


def same_shape(m, me):
    """a matrix expression made of the tensors of a field"""
    return is_matrix(m) or m.op == "poly" and any(x[1] for x in m.args[0])


def treat(rep, inst, where, steps, me, closed, name, tensor=False):
    kinds, faults = steps_of(steps, me)
    unknown = None in kinds
    allk = set().union(*[k for k in kinds if k]) if kinds else set()
    rep.check("clean", inst, where, False if faults else (True if "clean" in allk else (None if unknown else False)),
              "; ".join(faults) or f"steps {[sorted(k) if k else k for k in kinds]}: the expectations of the prognostic "
                                   f"functions must be replaced by the functions")
    if not closed:
        return
    if tensor and "closure" not in allk:
        # the closure is applied in the trends of the metric
        inside = []
        for n, args, kw in steps:
            if n in STAYS or len(args) != 1:
                continue
            k, _ = classify(args[0], me)
            if k and "trend" in k:
                for key, val, gs, ixs in dict_parts(args[0])[0]:
                    e = side(val, 1)
                    b, st = chain(e) if e is not None else (val, [])
                    b2, st2 = chain(val)
                    ks, _ = steps_of(st + st2, me)
                    inside.append(set().union(*[q for q in ks if q]) if all(q is not None for q in ks) else None)
        ok = bool(inside) and all(k is not None and "closure" in k for k in inside)
        und = unknown or any(k is None for k in inside)
        rep.check("closure", inst, where, True if ok else (None if und else False),
                  "the external closure is applied to the trends of the metric used for the tensor")
        return
    has = "closure" in allk
    rep.check("closure", inst, where, True if has and order_ok(kinds, "closure", "migrate") and order_ok(kinds, "closure", "clean")
              else (None if unknown and not has else False),
              f"steps {[sorted(k) if k else k for k in kinds]}: the external closure must be applied, before the changes of variable")


def counted(g, n, k):
    """truth of a condition on the number n of fields when it is k, None when it is on something else"""
    if g.op == "not":
        r = counted(g.args[0], n, k)
        return None if r is None else not r
    if g.op in ("and", "or"):
        rs = [counted(a, n, k) for a in g.args]
        if None in rs:
            return None
        return all(rs) if g.op == "and" else any(rs)
    if g.op in ("lt", "eq", "le") and len(g.args) == 2:
        a, b = (k if x is n else numval(x) for x in g.args)
        if a is None or b is None:
            return None
        return {"lt": a < b, "eq": a == b, "le": a <= b}[g.op]
    return None


def unknowns(ctx, rep):
    """the derived systems: one equation per mean, per variance, per component of the metric, per pair of fields"""
    c = ctx.cls("SymbolicPKF")
    me = mk("self", c.qual)
    F = mk("attr", me, "fields")
    deps = SYSTEMS + ("first_order_reynolds_system", "second_order_reynolds_system", "tl_expectation_system", "error_system",
                      "epsilon_system", "internal_closure", "_apply_internal_closure", "metric_func", "multivariate_couples",
                      "get_covariance", "upper_triangle")
    several_ = [not_(eq_(len_(F), num(1)))]
    for n, over in (("expectation_system", "second_order_reynolds_system"), ("tl_expectation_system", "first_order_reynolds_system"),
                    ("error_system", "first_order_reynolds_system"), ("variance_system", None), ("epsilon_system", None),
                    ("cross_covariance_system", "multivariate_couples"), ("metric_system", "components")):
        f, _, v, I, s = system(ctx, n, none_of(me, "_" + n) + several_ + ([lt_(num(1), len_(F)), not_(lt_(len_(F), num(2)))] if n == "cross_covariance_system" else []),
                               set(deps) - {n})
        if v.op == "phi":
            none = [(k, g) for k in (1, 2, 3) if k > 1 or n != "cross_covariance_system"
                    for t, g in phi_leaves(v) if t is NONE or t.op == "coll" and not t.args[1]
                    if all(counted(q, len_(F), k) is True for q in g)]
            if none:
                rep.bad("unknowns", n, f.where, f"no equation for {none[0][0]} fields, under {[short(g) for g in none[0][1]]}")
                continue
        if v.op != "coll":
            rep.unsure("unknowns", n, f.where, short(v))
            continue
        fl = list(parts_flat(v.args[1]))
        if len(fl) != 1:
            rep.check("unknowns", n, f.where, False if len(fl) != 1 and all(gcall(p, "Eq") for p, _, _ in fl) else None,
                      f"{len(fl)} groups of equations")
            continue
        p, gs, ixs = fl[0]
        if over == "components":
            lhs = chain(p)[0]
            lhs = lhs.args[1][0] if gcall(lhs, "Eq", "Equation") else lhs
            t = component_trend(lhs, me)
            if t is None or t[1] != "metric":
                rep.check("unknowns", n, f.where, False if t is not None else None, short(lhs))
                continue
            rep.check("unknowns", n, f.where, covers(t[2], t[0], "metric", gs, ixs, me, lhs),
                      f"{short(lhs)} for {[short(q.args[0]) for q in ixs]} under {[short(g) for g in gs]}")
            continue
        target = mk("attr", me, over) if over else F
        lens = ixs[0].args[0] if len(ixs) == 1 else None
        ls = (lens.args if lens.op == "min" else (lens,)) if lens is not None else ()
        ok = not gs and len(ixs) == 1 and len_(target) in ls and all(
            l is len_(target) or l.op == "len" and l.args[0].op == "attr" and l.args[0].args[0] is me for l in ls)
        if over:
            ok = ok and has_term(p, sub_(target, ixs[0]))
        else:
            ok = ok and any(field_of(x, me) is ixs[0] for x in walk(p))
        und = all(understood(g, ("metric_func",)) for g in gs) and len(ixs) == 1 and all(understood(l, OPQ) for l in ls)
        rep.check("unknowns", n, f.where, True if ok else (False if und else None),
                  f"one equation for each of {[short(q.args[0]) for q in ixs]} under {[short(g) for g in gs]}")
    # pairs of fields
    f, _, v, I, s = system(ctx, "multivariate_couples", [], ())
    fl = list(parts_flat(v.args[1])) if v.op == "coll" else []
    if len(fl) == 1 and fl[0][0].op == "coll" and len(fl[0][0].args[1]) == 2:
        p, gs, ixs = fl[0]
        ks = [q.args[1] if q.op == "sub" and q.args[0] is F else None for q in p.args[1]]
        n = len_(F)
        ok = None
        if None not in ks and len(ixs) == 2:
            x, y = ixs
            ok = False if all(understood(g, ()) for g in gs) else None
            if x.args[0] is n and y.args[0] is n and set(ks) == {x, y} and set(gs) in ({lt_(x, y)}, {lt_(y, x)}):
                ok = True
            if not gs and x.args[0] is n and set(ks) == {x, add(add(x, y), num(1))} and y.args[0] is nsub(nsub(n, x), num(1)):
                ok = True
            if not gs and x.args[0] is n and set(ks) == {x, y} and y.args[0] is x:
                ok = True
        rep.check("unknowns", "couples", f.where, ok, f"{short(p)} under {[short(g) for g in gs]}")
    else:
        cb = [x for x in walk(v) if gcall(x, "combinations")]
        ok = len(cb) == 1 and cb[0].args[1][1] is num(2) and (cb[0].args[1][0] is F or fields_list(cb[0].args[1][0], F))
        rep.check("unknowns", "couples", f.where, True if ok else (False if cb and len(cb[0].args[1]) == 2 and
                                                                   cb[0].args[1][1] is not num(2) else None), short(v))


def fields_list(t, F):
    fl = list(parts_flat(t.args[1])) if t.op == "coll" else []
    return len(fl) == 1 and (fl[0][0].op == "splat" and fl[0][0].args[0] is F or len(fl[0][2]) == 1 and
                             fl[0][0] is sub_(F, fl[0][2][0]) and fl[0][2][0].args[0] is len_(F) and not fl[0][1])


def swap(t, a, b):
    z = mk("param", "__swap__")
    return subst(subst(subst(t, {a: z}), {b: a}), {z: b})


def symmetric(v, a, b, order_terms=()):
    """is v the same when a and b are exchanged (a and b different)?  True / False / None"""
    w = swap(v, a, b)
    d = (not_(eq_(a, b)), not_(eq_(b, a)), not_(N.is_(a, b)), not_(N.is_(b, a)))

    def unordered(x):
        if x.op == "call" and gcall(x, "sorted") or x.op == "sortedT":
            c = x.args[0] if x.op == "sortedT" else (x.args[1][0] if x.args[1] else None)
            if c is not None and c.op == "coll" and all(p.op not in ("for", "when", "splat") for p in c.args[1]):
                cc = mk("coll", c.args[0], tuple(sorted(c.args[1], key=lambda q: q.n)))
                return subst(x, {c: cc})
        if x.op == "in" and x.args[1].op == "coll":
            c = x.args[1]
            if all(p.op not in ("for", "when", "splat") for p in c.args[1]):
                return or_(*[eq_(x.args[0], p) for p in sorted(c.args[1], key=lambda q: q.n)])
        if x.op in ("min", "max"):
            return mk(x.op, *sorted(x.args, key=lambda q: q.n))
        if x.op == "coll" and x.args[0] == "set" and all(p.op not in ("for", "when", "splat") for p in x.args[1]):
            return mk("coll", "set", tuple(sorted(x.args[1], key=lambda q: q.n)))
        return x
    v, w = rewrite(N.specialise(v, d), unordered), rewrite(N.specialise(w, d), unordered)
    if v is w:
        return True
    # comparisons of a with b: one of the two orders
    tests = {x for t in (v, w) for x in walk(t) if x.op == "lt"}
    pairs = {frozenset(x.args) for x in tests if swap(x.args[0], a, b) is x.args[1]}
    for p in pairs:
        x, y = tuple(p)
        same = True
        for lo, hi in ((x, y), (y, x)):
            facts = (mk("lt", lo, hi), not_(mk("lt", hi, lo)))
            if N.specialise(v, facts) is not N.specialise(w, facts):
                same = False
        if same:
            return True
    return False


def covariance(ctx, rep):
    c = ctx.cls("SymbolicPKF")
    me = mk("self", c.qual)
    f = ctx.method("SymbolicPKF", "get_covariance")
    F = mk("attr", me, "fields")
    f1, f2 = [mk("param", a) for a in [x.arg for x in f.node.args.args][1:3]]
    I = ctx.interp()
    st = State({}).assume(in_(f1, F)).assume(in_(f2, F))
    v, s = I.run_function(f, self_obj=me, st=st)
    v = I.fz(v, s)
    ctx.visited |= I.visited
    # the fields of a pair have the same coordinates (checked by the function)
    def coords(x):
        if x.op == "attr" and x.args[1] == "coordinates":
            return mk("attr", me, "coordinates of the pair")
        return x
    v = rewrite(v, coords)
    r = symmetric(v, f1, f2)
    rep.check("label", "covariance:symmetric", f.where, True if r else (False if understood(v, ("Function", "star", "sorted", "index"))
                                                                        or has_term(v, f1) and not any(x.op == "phi" for x in walk(v)) else None),
              f"label {short(v, 600)}")
    rep.check("label", "covariance:pair", f.where, True if has_term(v, f1) and has_term(v, f2) else False,
              "the label contains both fields")


def unclosed(ctx, rep):
    c = ctx.cls("SymbolicPKF")
    me = mk("self", c.qual)
    f, _, v, I, s = system(ctx, "unclosed_terms", [], OPQ + ("in_metric",))
    S = mk("attr", me, "in_metric")
    src = [x for x in walk(v) if x.op == "coll" and x.args[0] == "set"]
    found = None
    for x in src:
        fl = list(parts_flat(x.args[1]))
        for p, gs, ixs in fl:
            if p.op == "splat" and mcall(p.args[0], "atoms") and len(ixs) == 1:
                t = p.args[0].args[0].args[0]
                e = side(t, 1) or t
                ok = e is sub_(S, ixs[0]) and ixs[0].args[0] is len_(S) and not gs and len(fl) == 1 and \
                    len(p.args[0].args[1]) == 1 and p.args[0].args[1][0].op == "global" and \
                    p.args[0].args[1][0].args[0].endswith("Expectation")
                found = ok if found is None else found
    rep.check("unclosed", "searched", f.where, True if found else (False if found is False else None), short(v, 300))
    rem = [x for x in walk(v) if x.op == "mutated" and x.args[1] in ("discard", "remove")] + \
        [x for x in walk(v) if x.op == "setdiff"]
    keys = []
    for x in rem:
        keys += list(x.args[2]) if x.op == "mutated" else ([p for p, _, _ in parts_flat(x.args[1].args[1])] if x.args[1].op == "coll" else [None])
    good = all(k is not None and gcall(k, "Expectation") and k.args[1][0].op == "attr" and k.args[1][0].args[1] in ("random", "value") and
               field_of(k.args[1][0].args[0], me) is not None for k in keys)
    bad = any(k is not None and understood(k, ("Expectation", "Derivative")) for k in keys) and not good
    rep.check("unclosed", "removed", f.where, True if good else (False if bad else None),
              f"only the means of the fields are left out: {[short(k, 100) if k is not None else '?' for k in keys]}")


def run(ctx, rep, tier):
    rep.rule("systems", "each representation is made of the equations of the means, variances, cross covariances and of its "
                        "tensor, all of them, once", 30)
    rep.rule("closure", "the external closure is applied to every equation, before the changes of variable", 11)
    rep.rule("clean", "expectations of the prognostic functions are replaced by the functions, in every equation", 30)
    rep.rule("unknowns", "the systems of means, variances, metric, cross covariances have one equation per unknown", 8)
    rep.rule("label", "the label of a cross covariance does not depend on the order of the pair", 2)
    rep.rule("unclosed", "the unclosed terms are the expectations of the system, means of the fields excluded", 2)
    for name in CACHE:
        for closed in (True, False):
            parts(ctx, rep, name, closed, True)
        parts(ctx, rep, name, True, False)
    unknowns(ctx, rep)
    covariance(ctx, rep)
    unclosed(ctx, rep)
