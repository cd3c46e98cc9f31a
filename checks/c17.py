"""C17: the statistics' trends are derived by the right pipeline: decomposition, order, expectation, substitutions, closure."""
import ast
from fractions import Fraction
from .base import *
from .repres import *
from .c14 import is_time, covers_pairs
from engine.norm import eq_, lt_, in_

LIB = ("first_order_reynolds_system", "second_order_reynolds_system", "expectation_system", "tl_expectation_system",
       "error_system", "variance_system", "epsilon_system", "metric_system", "cross_covariance_system")
OPQ17 = LIB + ("internal_closure", "_apply_internal_closure", "metric_func", "get_covariance", "check_univariate")
ALGEBRA = ("expand", "simplify", "factor", "cancel", "together", "collect", "ratsimp", "powsimp")
PER_FIELD = ("fields", "first_order_reynolds_system", "second_order_reynolds_system", "expectation_system", "tl_expectation_system",
             "error_system", "variance_system", "epsilon_system")          # one element for each prognostic field
PER_EQUATION = ("equations", "prognostic_functions")
HALF = Fraction(1, 2)


def subterms(t):
    return list(TT.walk(t))


def lparts(p):
    return list(parts_flat(p))


# ------------------------------------------------------------------ equations as pairs of sides
def source(t, me):
    """(system, index) of S[i], S a system of the workflow or the equations of the original system"""
    if t.op != "sub" or t.args[0].op != "attr":
        return None
    S = t.args[0]
    if S.args[0] is me and S.args[1] in LIB:
        return S.args[1], t.args[1]
    if S.args[1] == "equations" and S.args[0] is mk("attr", me, "pde_system") or S is mk("attr", me, "pde_system"):
        return "equations", t.args[1]
    return None


def sides(t, me, depth=0):
    """(left, right) when the term is an equation"""
    if depth > 40:
        return None
    if gcall(t, "Eq", "Equation") and len(t.args[1]) == 2:
        return resolve(t.args[1][0], me, depth + 1), resolve(t.args[1][1], me, depth + 1)
    if gcall(t, "Eq", "Equation") and len(t.args[1]) == 1 and t.args[1][0].op == "star":
        s = two_sides(t.args[1][0].args[0], me, depth)
        if s is not None:
            return tuple(resolve(x, me, depth + 1) for x in s)
    if source(t, me) is not None:
        a = mk("attr", t, "args")
        return sub_(a, num(0)), sub_(a, num(1))
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[0] is not me and t.args[0].op == "attr":
        s = sides(t.args[0].args[0], me, depth + 1)
        if s is not None:
            m = t.args[0].args[1]
            return tuple(mk("call", mk("attr", x, m), t.args[1], t.args[2]) for x in s)
        return None
    if gcall(t, "Expectation", "expand", "simplify") and t.args[1]:
        s = sides(t.args[1][0], me, depth + 1)
        if s is not None:
            return tuple(mk("call", t.args[0], (x,) + t.args[1][1:], t.args[2]) for x in s)
        return None
    if mcall(t, "_apply_internal_closure") and t.args[0].args[0] is me and len(t.args[1]) == 1:
        s = sides(t.args[1][0], me, depth + 1)
        if s is not None:
            return tuple(mk("call", t.args[0], (x,), ()) for x in s)
        return None
    if t.op == "poly":
        L, R = [], []
        for (mono, k) in TT.to_poly(t).items():
            if mono[1] or len(mono[0]) != 1 or mono[0][0][1] != 1:
                return None
            s = sides(mono[0][0][0], me, depth + 1)
            if s is None:
                return None
            L.append(mul(num(k), s[0]))
            R.append(mul(num(k), s[1]))
        return add(*L), add(*R)
    return None


def two_sides(t, me, depth):
    """elements of a list made side by side from equations: <f(lhs_i, rhs_i) for i in the sides>"""
    if t.op == "coll" and t.args[0] in ("list", "tuple", "gen") and len(t.args[1]) == 1 and t.args[1][0].op == "for":
        ix, body = t.args[1][0].args
        n = ix.args[0]
        lens = n.args if n.op == "min" else (n,)
        of = [x.args[0] for x in lens if x.op == "len"]
        if len(body) == 1 and len(of) == len(lens) and all(
                x.op == "attr" and x.args[1] == "args" and
                (source(x.args[0], me) is not None or sides(x.args[0], me, depth + 1)) for x in of):
            return tuple(subst(body[0], {ix: num(k)}) for k in (0, 1))
    if t.op == "coll" and t.args[0] in ("list", "tuple") and len(t.args[1]) == 2 and all(x.op not in ("splat", "each", "when") for x in t.args[1]):
        return t.args[1]
    return None


def resolve(t, me, depth=0):
    """sides of equations built in place are these sides"""
    def f(x):
        for k in (0, 1):
            e = side(x, k)
            if e is not None and source(e, me) is None:
                s = sides(e, me, depth + 1)
                if s is not None:
                    return s[k]
        return x
    for _ in range(12):
        u = rewrite(t, f)
        if u is t:
            return t
        t = u
    return t


class Step:
    def __init__(self, kind, data=None, faults=(), raw=None):
        self.kind, self.data, self.faults, self.raw = kind, data, list(faults), raw

    def __repr__(self):
        return f"{self.kind}{':' + '+'.join(sorted(map(str, self.data))) if isinstance(self.data, (set, frozenset)) else ''}"


def fieldish(t, me):
    """field of a (field).attribute term"""
    if t.op == "attr":
        i = field_of(t.args[0], me)
        if i is not None:
            return t.args[0], i, t.args[1]
    return None


def amount(t, fld):
    """{attribute: exponent} of a product of attributes of a field, and its coefficient"""
    p = TT.to_poly(t)
    if len(p) != 1:
        return None
    (mono, k), = p.items()
    if mono[1]:
        return None
    out = {}
    for b, e in mono[0]:
        if b.op == "attr" and b.args[0] is fld:
            out[b.args[1]] = out.get(b.args[1], 0) + e
        else:
            return None
    return k, {a: Fraction(e) for a, e in out.items()}


def reynolds_value(v, key, fld):
    """None when unknown; faults of the decomposition of a field"""
    p = TT.to_poly(v)
    mean, err, eps, bad = None, None, None, []
    for (mono, k) in p.items():
        if mono[1]:
            return None, None
        at = [(b, e) for b, e in mono[0]]
        if len(at) == 1 and gcall(at[0][0], "Expectation") and at[0][1] == 1:
            x = at[0][0].args[1][0]
            if x is mk("attr", fld, "random") and k == 1:
                mean = x
            else:
                bad.append(f"mean part {short(at[0][0])} times {k}")
        else:
            es = [b for b, e in at if b.op == "attr" and b.args[0] is fld]
            rest = [(b, e) for b, e in at if b not in es]
            if len(es) == 1 and es[0].args[1] in ("error", "epsilon", "random", "value") and len(rest) <= 1:
                if es[0].args[1] != "error":
                    bad.append(f"perturbation {short(es[0])}")
                if k != 1 or any(e != 1 for b, e in at):
                    bad.append(f"perturbation with coefficient {k} and exponents {[str(e) for b, e in at]}")
                err = es[0]
                eps = rest[0][0] if rest else None
                if eps is None:
                    bad.append("the perturbation is not scaled by the expansion parameter")
            else:
                return None, None
    if mean is None and not bad:
        bad.append("no mean part")
    if err is None:
        bad.append("no perturbation")
    return bad, eps


def dictionary(d, me):
    """(kinds, faults, covered): what a substitution dictionary replaces"""
    d = N.specialise(d, ())
    while d.op == "call" and d.args[0].op == "attr" and d.args[0].args[1] in ("copy", "items") and not d.args[1]:
        d = d.args[0].args[0]
    if gcall(d, "dict", "OrderedDict", "list") and len(d.args[1]) == 1:
        d = d.args[1][0]
    if d is mk("attr", me, "internal_closure"):
        return {"closure"}, [], {}
    if d is mk("attr", me, "_closure"):
        return {"external"}, [], {}
    kinds, faults, info = set(), [], {}
    kvs, others = dict_parts(d)
    for o in others:
        k, f, i = (None, [], {}) if o is d else dictionary(o, me)
        if k is None:
            return None, [], {}
        kinds |= k
        faults += f
        info.update(i)
    for k, v, gs, ixs in kvs:
        k, v = resolve(k, me), resolve(v, me)
        fa = fieldish(k, me)
        part = None
        if fa is not None and fa[2] == "error":
            part = "error"
            a = amount(v, fa[0])
            if a is None:
                other = amount(v, None)
                fs = {b.args[0] for b in subterms(v) if b.op == "attr" and field_of(b.args[0], me) is not None}
                if fs and fs != {fa[0]}:
                    faults.append(f"the error of a field is replaced by {short(v)}, of another field")
                else:
                    return None, [], {}
            elif a != (1, {"epsilon": Fraction(1), "variance": HALF}) and a != (1, {"epsilon": Fraction(1), "std": Fraction(1)}):
                faults.append(f"the error is replaced by {short(v)}, not the normalised error times the square root of the "
                              f"variance")
            elif "std" in a[1]:
                faults.append(f"the error is replaced by {short(v)}: an unknown (standard deviation) the equations do not "
                              f"follow")
        elif fa is not None and fa[2] == "variance":
            part = "std"
            a = amount(v, fa[0])
            if a is None:
                return None, [], {}
            if a != (1, {"std": Fraction(2)}):
                faults.append(f"the variance is replaced by {short(v)}, not the square of the standard deviation")
        elif k.op == "sub" and k.args[0] is mk("attr", me, "fields") or fa is not None and fa[2] == "value":
            part = "reynolds"
            fld = fa[0] if fa is not None else sub_(mk("attr", me, "fields"), k)
            bad, eps = reynolds_value(v, k, fld)
            if bad is None:
                return None, [], {}
            faults += bad
            info["parameter"] = eps
        else:
            e = side(k, 0)
            src = source(e, me) if e is not None else None
            if src is None:
                return None, [], {}
            part = "trend:" + src[0]
            w, wst = one(v, me)
            e2 = side(w, 1)
            if e2 is not e or any(q.kind not in ("doit", "algebra") for q in wst):
                return (None, [], {}) if e2 is None or e2 is e else ({part}, [f"trend {short(k)} replaced by {short(v)}"], {})
            S = mk("attr", me, src[0])
            if gs or len(ixs) != 1 or not (ixs[0] is src[1] and ixs[0].op == "ix" and ixs[0].args[0] is len_(S)):
                if gs or src[1].op != "ix":
                    faults.append(f"not the trends of all the equations of {src[0]}: {[short(g) for g in gs]} {short(src[1])}")
                else:
                    return None, [], {}
            kinds.add(part)
            continue
        kinds.add(part)
        ix = fa[1] if fa is not None else k.args[1]
        if gs or len(ixs) != 1 or ixs[0] is not ix or not all_fields(ix, me):
            if gs or not ixs and fa is not None or not any(all_fields(i, me) for i in ixs) and ix.op == "num":
                faults.append(f"not for all the fields: {[short(g) for g in gs]} {short(ix)}")
            else:
                return None, [], {}
    return kinds, faults, info


def one(t, me, depth=0):
    """(base, [Step]) of a one-sided expression, steps in the order they are applied"""
    st = []
    t = resolve(t, me)
    while True:
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[0] is not me:
            m, a, kw = t.args[0].args[1], t.args[1], dict(t.args[2]) if t.args[2] else {}
            x = t.args[0].args[0]
            if m in ("subs", "xreplace", "replace") and len(a) == 1 and m != "replace":
                k, f, i = dictionary(a[0], me)
                st.append(Step("subs" if k is not None else "unknown", k, f, (a[0], i)))
                t = x
                continue
            if m in ("subs", "replace") and len(a) == 2:
                st.append(Step("swap", (a[0], a[1])))
                t = x
                continue
            if m in ALGEBRA:
                st.append(Step("algebra"))
                t = x
                continue
            if m == "doit" and not a:
                st.append(Step("doit"))
                t = x
                continue
            if m == "series":
                b = dict(zip(("x", "x0", "n"), a))
                b.update(kw)
                st.append(Step("series", b))
                t = x
                continue
            if m == "removeO":
                st.append(Step("removeO"))
                t = x
                continue
            if m == "isolate" and len(a) == 1:
                st.append(Step("isolate", a[0]))
                t = x
                continue
        if mcall(t, "_apply_internal_closure") and t.args[0].args[0] is me and len(t.args[1]) == 1:
            st.append(Step("subs", {"closure", "tree"}, (), (t, {})))
            t = t.args[1][0]
            continue
        if gcall(t, "expand", "simplify") and len(t.args[1]) == 1:
            st.append(Step("algebra"))
            t = t.args[1][0]
            continue
        if gcall(t, "series") and len(t.args[1]) >= 2:
            b = dict(zip(("x", "x0", "n"), t.args[1][1:]))
            b.update(dict(t.args[2]))
            st.append(Step("series", b))
            t = t.args[1][0]
            continue
        if gcall(t, "Expectation") and len(t.args[1]) == 1:
            ev = dict(t.args[2]).get("evaluate", TRUE)
            st.append(Step("E", ev))
            t = t.args[1][0]
            continue
        if t.op == "attr" and t.args[1] == "doit":
            break
        break
    return t, list(reversed(st))


def alternatives(t, me, conds=()):
    """(conditions, base, steps) for each of the expressions that a one-sided expression can be"""
    b, st = one(t, me)
    if b.op == "phi" and len(b.args) == 3 and len(conds) < 4:
        for x, g in ((b.args[1], b.args[0]), (b.args[2], not_(b.args[0]))):
            for c, bb, s2 in alternatives(x, me, conds + (g,)):
                yield c, bb, s2 + st
    else:
        yield conds, b, st


DEGREE = ("has", "degree", "Poly", "poly", "as_poly", "free_symbols", "atoms", "coeff", "as_coefficients_dict", "diff", "getO", "order",
          "has_free", "xreplace", "subs", "is_constant", "depends", "total_degree", "leadterm", "as_independent", "has_xfree")


def tells_degree(conds):
    """could one of the conditions tell that the expression has no terms of high order in the parameter?"""
    for c in conds:
        top = [c]
        while top:
            x = top.pop()
            if x.op == "call" and x.args[0].op == "attr":
                if x.args[0].args[1] in DEGREE:
                    return True
                top.extend(x.args[1])
                continue            # not the expression on which a method is called
            if x.op == "attr" and x.args[1] in DEGREE:
                return True
            if x.op == "global" and x.args[0].split(".")[-1] in DEGREE:
                return True
            top.extend(TT.children(x))
    return False


def seq(steps):
    return [s for s in steps if s.kind != "algebra"]


def pos(steps, kind, sub=None):
    return [i for i, s in enumerate(steps) if s.kind == kind and (sub is None or isinstance(s.data, set) and sub in s.data)]


def system_of(ctx, name):
    """[(equation, guards, loops)]"""
    me = mk("self", ctx.cls("SymbolicPKF").qual)
    F = len_(mk("attr", me, "fields"))
    many = [not_(eq_(F, num(1)))] + ([lt_(num(1), F), not_(lt_(F, num(2)))] if name == "cross_covariance_system" else [])
    f, me, v, I, s = system(ctx, name, none_of(me, "_" + name) + many, OPQ17)
    parts = lparts(v.args[1]) if v.op == "coll" and v.args[0] == "list" else None
    return f, me, v, parts


def faults_of(rep, rule, inst, where, steps):
    ok = True
    for s in steps:
        if s.kind == "unknown":
            if rep is not None:
                rep.unsure(rule, inst + "-substitution", where, f"substitution not recognised: {short(s.raw[0])}")
            ok = False
        for q in s.faults:
            rep.bad(rule, inst + "-substitution", where, q)
            ok = False
    return ok


def need(rep, inst, where, steps, order, doits=()):
    """every kind of `order` is there, in this order (last occurrence of the former before last occurrence of the latter);
    doits: (a, b): the derivatives are evaluated between a and b"""
    last = -1
    for k in order:
        p = pos(steps, "E") if k == "E" else pos(steps, "subs", k)
        if not p:
            if any(s.kind == "unknown" for s in steps):
                return None
            rep.bad("pipeline", inst, where, f"the step {k!r} is missing: {steps}")
            return False
        if p[-1] < last:
            rep.bad("pipeline", inst, where, f"the step {k!r} comes before {order[order.index(k) - 1]!r}: {steps}")
            return False
        last = p[-1]
    for a, b in doits:
        pa = pos(steps, "subs", a)[-1]
        pb = pos(steps, "subs", b)[-1]
        if not any(steps[i].kind == "doit" for i in range(pa, pb)) and pa != pb:
            rep.bad("pipeline", inst, where,
                    f"after the substitution of {a!r} the derivatives are not evaluated before {b!r} applies: {steps}")
            return False
    return True


def foreign(rep, inst, where, steps, allowed):
    """substitutions that do not belong to the pipeline of this quantity"""
    ok = True
    for s in steps:
        if s.kind == "subs":
            more = s.data - set(allowed)
            if more:
                rep.bad("pipeline", inst + "-foreign", where, f"unexpected substitution {sorted(more)}")
                ok = False
        elif s.kind in ("swap", "series", "isolate"):
            rep.unsure("pipeline", inst + "-foreign", where, f"unexpected step {s}")
            ok = False
    return ok


def quantified(rep, inst, where, gs, ixs, index, S, what):
    """one equation for each of the elements of S"""
    me = next(x for x in subterms(S) if x.op == "self")
    per = {len_(mk("attr", me, n)) for n in PER_FIELD} | {len_(mk("attr", mk("attr", me, "pde_system"), n)) for n in PER_EQUATION} \
        | {len_(mk("attr", me, "pde_system"))}
    if not gs and len(ixs) == 1 and ixs[0] is index and index.op == "ix" and set(mins(index.args[0])) <= per:
        rep.ok("complete", inst, where, f"one equation for each {what}")
        return True
    if gs or index.op in ("num", "poly") or len(ixs) == 1 and ixs[0] is index:
        rep.bad("complete", inst, where, f"not one equation for each {what}: index {short(index)} {[short(g) for g in gs]} "
                                         f"{[short(i.args[0]) for i in ixs]}")
    else:
        rep.unsure("complete", inst, where, f"loops {[short(i.args[0]) for i in ixs]} index {short(index)}")
    return False


# ------------------------------------------------------------------ Reynolds decomposition
def expansion(rep, name, order, where, me, gs, ixs, bl, sl, br, sr, conds):
    el, er = side(bl, 0), side(br, 1)
    if el is None or el is not er or source(el, me) is None or source(el, me)[0] != "equations":
        rep.unsure("order", name, where, f"sides of {short(bl)} / {short(br)}")
        return False
    quantified(rep, name, where, gs, ixs, source(el, me)[1], mk("attr", mk("attr", me, "pde_system"), "equations"),
               "equation of the system")
    if not faults_of(rep, "decomposition", name, where, sr) or not faults_of(rep, "decomposition", name, where, sl):
        return False
    eps = None
    keeps = {}
    ok = True
    for sn, st in (("lhs", sl), ("rhs", sr)):
        kept, removed, par, closed, swapped, tmp, inO = None, True, None, False, False, None, False
        for q in st:
            if q.kind == "subs":
                if q.data == {"reynolds"}:
                    par = q.raw[1].get("parameter")
                    eps = par
                else:
                    rep.bad("order", f"{name}-{sn}", where, f"unexpected substitution {q}")
                    ok = False
            elif q.kind == "swap":
                a, b = q.data
                if a.op == "global" and a.args[0].split(".")[-1] == "Expectation":
                    swapped, tmp = True, b
                elif b.op == "global" and b.args[0].split(".")[-1] == "Expectation":
                    if a is not tmp:
                        rep.bad("order", f"{name}-{sn}", where, f"the expectation hidden as {short(tmp) if tmp else None} "
                                                                f"is restored from {short(a)}")
                        ok = False
                    swapped = False
                elif par is not None and numval(b) is not None:
                    e = TT.to_poly(a)
                    (mono, k), = e.items() if len(e) == 1 else ((((), ()), 0),)
                    if len(mono[0]) == 1 and mono[0][0][0] is par and k == 1:
                        n = mono[0][0][1]
                        if closed:
                            continue            # the parameter is gone: nothing is replaced
                        if numval(b) == 0 and n >= 1:
                            kept = n - 1 if kept is None else min(kept, n - 1)
                            if sn == "rhs" and inO is False and keeps.get("series") is None:
                                keeps["nonpoly"] = True
                        elif numval(b) == 1 and n == 1:
                            closed = True
                        else:
                            rep.bad("order", f"{name}-{sn}", where, f"the expansion parameter is replaced: {short(a)} by {short(b)}")
                            ok = False
                    else:
                        rep.unsure("order", f"{name}-{sn}", where, f"substitution of {short(a)}")
                        ok = False
                else:
                    rep.unsure("order", f"{name}-{sn}", where, f"substitution of {short(a)} by {short(b)}")
                    ok = False
            elif q.kind == "series":
                if q.data.get("x") is not par or par is None:
                    rep.bad("order", f"{name}-{sn}", where, f"expansion in {short(q.data.get('x', NONE))}, not in the parameter "
                                                            f"of the decomposition")
                    ok = False
                    continue
                x0, n = q.data.get("x0", num(0)), q.data.get("n", num(6))
                if numval(x0) != 0:
                    rep.bad("order", f"{name}-{sn}", where, f"expansion about {short(x0)}, not about the mean state")
                    ok = False
                if numval(n) is None:
                    rep.unsure("order", f"{name}-{sn}", where, f"order {short(n)}")
                    ok = False
                    continue
                keeps["series"] = True
                kept = numval(n) - 1 if kept is None else min(kept, numval(n) - 1)
                removed = False
            elif q.kind == "removeO":
                removed = True
            elif q.kind in ("E", "isolate"):
                rep.unsure("order", f"{name}-{sn}", where, f"step {q}")
                ok = False
        if not ok:
            continue
        if swapped:
            rep.bad("order", f"{name}-{sn}", where, "the expectations are left replaced by a place holder")
            ok = False
        if par is None:
            rep.bad("decomposition", f"{name}-{sn}", where, "the fields are not decomposed into mean and perturbation")
            ok = False
        if not closed and par is not None:
            rep.bad("order", f"{name}-{sn}", where, "the expansion parameter stays in the equation")
            ok = False
        if not removed:
            rep.bad("order", f"{name}-{sn}", where, "the remainder of the expansion is not removed")
            ok = False
        if sn == "rhs":
            if (kept is None or kept != order or keeps.get("series") is None) and tells_degree(conds):
                rep.unsure("order", f"{name}-{sn}", where, f"expansion under a condition: {short(conds[0])}")
                ok = False
            elif kept is None or keeps.get("series") is None:
                rep.bad("order", f"{name}-{sn}", where, "the right hand side is not expanded about the mean state")
                ok = False
            elif kept != order:
                rep.bad("order", f"{name}-{sn}", where, f"the terms of the equation are kept up to the order {kept}, not {order}")
                ok = False
        elif kept is not None and kept < 1:
            rep.bad("order", f"{name}-{sn}", where, "the trend of the perturbation is removed from the left hand side")
            ok = False
    return ok


def reynolds(ctx, rep):
    me = mk("self", ctx.cls("SymbolicPKF").qual)
    for order, name in ((1, "first_order_reynolds_system"), (2, "second_order_reynolds_system")):
        f, me, v, I, s = system(ctx, name, none_of(me, "_" + name), tuple(set(OPQ17) - {name}))
        where = f.where
        parts = lparts(v.args[1]) if v.op == "coll" and v.args[0] == "list" else None
        if parts is None or len(parts) != 1:
            rep.unsure("order", name, where, short(v))
            continue
        p, gs, ixs = parts[0]
        sd = sides(p, me)
        if sd is None:
            rep.unsure("order", name, where, f"not an equation: {short(p)}")
            continue
        good = True
        for cl, bl, sl in alternatives(sd[0], me):
            for cr, br, sr in alternatives(sd[1], me):
                if any(not_(c) in cr for c in cl):
                    continue
                good = expansion(rep, name, order, where, me, gs, ixs, bl, sl, br, sr, cl + cr) and good
        if good:
            rep.ok("order", name, where, f"every field is its mean plus a scaled perturbation; terms kept up to the order {order}")
            rep.ok("decomposition", name, where, "every field: E[random] + parameter * error")


# ------------------------------------------------------------------ systems derived equation by equation
def mean_systems(ctx, rep):
    for name, base, order, doits, allowed in (
            ("expectation_system", "second_order_reynolds_system", ["E", "error", "tree"], [("error", "closure")],
             ("error", "closure", "tree")),
            ("tl_expectation_system", "first_order_reynolds_system", ["E", "closure"], [], ("closure", "tree", "error"))):
        f, me, v, parts = system_of(ctx, name)
        where = f.where
        if parts is None or len(parts) != 1:
            rep.unsure("pipeline", name, where, short(v))
            continue
        p, gs, ixs = parts[0]
        sd = sides(p, me)
        if sd is None:
            rep.unsure("pipeline", name, where, f"not an equation: {short(p)}")
            continue
        (bl, sl), (br, sr) = one(sd[0], me), one(sd[1], me)
        el, er = side(bl, 0), side(br, 1)
        if el is None or el is not er or source(el, me) is None:
            rep.unsure("pipeline", name, where, f"sides of {short(bl)} / {short(br)}")
            continue
        src, idx = source(el, me)
        if src != base:
            rep.bad("pipeline", name, where, f"derived from {src}, not from {base}")
            continue
        quantified(rep, name, where, gs, ixs, idx, mk("attr", me, base), "equation")
        sl, sr = seq(sl), seq(sr)
        if not faults_of(rep, "pipeline", name, where, sr) or not foreign(rep, name, where, sr, allowed):
            continue
        if need(rep, name, where, sr, order, doits) and left_side(rep, name, where, sl):
            rep.ok("pipeline", name, where, f"{base}: {sr}")


def left_side(rep, name, where, sl):
    """E[D_t (mean + error)] is the trend of the mean once E[error] is closed"""
    if not pos(sl, "E") or not pos(sl, "subs", "closure") or pos(sl, "subs", "closure")[-1] < pos(sl, "E")[-1]:
        rep.bad("pipeline", name + "-lhs", where, f"the left hand side is not the closed expectation of the trend: {sl}")
        return False
    if not faults_of(rep, "pipeline", name + "-lhs", where, sl):
        return False
    return True


def error(ctx, rep):
    f, me, v, parts = system_of(ctx, "error_system")
    where = f.where
    name = "error_system"
    if parts is None or len(parts) != 1:
        return rep.unsure("pipeline", name, where, short(v))
    p, gs, ixs = parts[0]
    sd = sides(p, me)
    if sd is None:
        return rep.unsure("pipeline", name, where, f"not an equation: {short(p)}")
    idx = None
    for k, x in enumerate(sd):
        b, st = one(x, me)
        if any(q.kind not in ("algebra", "doit") for q in st):
            return rep.unsure("pipeline", name, where, f"steps {st}")
        out = {}
        for (mono, c) in TT.to_poly(b).items():
            q = mono[0][0][0] if len(mono[0]) == 1 and mono[0][0][1] == 1 and not mono[1] else None
            q = one(q, me)[0] if q is not None and not [z for z in one(q, me)[1] if z.kind not in ("algebra", "doit")] else None
            e = side(q, k) if q is not None else None
            src = source(e, me) if e is not None else None
            if src is None:
                return rep.unsure("pipeline", name, where, f"{short(b)}")
            out[src] = out.get(src, 0) + c
        names = {n: c for (n, i), c in out.items()}
        idxs = {i for (n, i) in out}
        if names != {"first_order_reynolds_system": 1, "tl_expectation_system": -1}:
            return rep.bad("pipeline", name, where, f"the error equations are {({n: str(c) for n, c in names.items()})}, not the first order "
                                                    f"equations minus their expectations")
        if len(idxs) != 1:
            return rep.bad("pipeline", name, where, f"the equations of different fields are subtracted: {[short(i) for i in idxs]}")
        idx, = idxs
    F = [mk("attr", me, n) for n in ("first_order_reynolds_system", "tl_expectation_system")]
    if not gs and len(ixs) == 1 and ixs[0] is idx and idx.op == "ix" and (
            idx.args[0] in [len_(x) for x in F] or all(x.op == "call" or x in F for x in [idx.args[0]]) or
            set(mins(idx.args[0])) <= {len_(x) for x in F}):
        rep.ok("complete", name, where, "one equation for each field")
    else:
        rep.bad("complete", name, where, f"loops {[short(i.args[0]) for i in ixs]} {[short(g) for g in gs]} {short(idx)}") \
            if gs or idx.op in ("num", "poly") else \
            rep.unsure("complete", name, where, f"loops {[short(i.args[0]) for i in ixs]} {short(idx)}")
    rep.ok("pipeline", name, where, "first order equation minus its expectation, side by side")


def mins(t):
    if gcall(t, "min"):
        return [y for x in t.args[1] for y in mins(x)]
    if t.op == "min":
        return [y for x in t.args for y in mins(x)]
    return [t]


# ------------------------------------------------------------------ trends of statistics from their definition
def derivative(t, me):
    """(argument, [variables]) of nested derivatives"""
    if gcall(t, "Derivative", "diff") and len(t.args[1]) >= 2:
        a, vs = t.args[1][0], list(t.args[1][1:])
    elif mcall(t, "diff") and t.args[1]:
        a, vs = t.args[0].args[0], list(t.args[1])
    else:
        return None
    return a, vs


def peel_doit(t):
    n = 0
    while mcall(t, "doit", *ALGEBRA):
        n += t.args[0].args[1] == "doit"
        t = t.args[0].args[0]
    return t, n


def lhs_of(t, me):
    """argument of D_t[..]"""
    t, _ = peel_doit(resolve(t, me))
    d = derivative(t, me)
    if d is None or len(d[1]) != 1 or not is_time(d[1][0], me):
        return None
    return d[0]


def product(t, me):
    """sorted list of (field term, attribute, exponent, derivation variables)"""
    p = TT.to_poly(t)
    if len(p) != 1:
        return None
    (mono, k), = p.items()
    if mono[1] or k != 1:
        return None
    out = []
    for b, e in mono[0]:
        vs = ()
        x, _ = peel_doit(b)
        d = derivative(x, me)
        if d is not None:
            x, vs = d[0], tuple(d[1])
            x, _ = peel_doit(x)
        fa = fieldish(x, me)
        if fa is None:
            return None
        out.append((fa[0], fa[2], Fraction(e), vs))
    return sorted(out, key=lambda q: (q[0].n, q[1], [z.n for z in q[3]]))


def trend_systems(ctx, rep):
    F = None
    spec = {
        "variance_system": (["trend:error_system", "error", "tree"], [("error", "closure")], ("trend:error_system", "error", "closure", "tree")),
        "epsilon_system": (["trend:error_system", "error"], [], ("trend:error_system", "trend:variance_system", "error")),
        "metric_system": (["trend:epsilon_system", "tree"], [("trend:epsilon_system", "closure")], ("trend:epsilon_system", "closure", "tree")),
        "cross_covariance_system": (["trend:error_system", "error", "tree"], [("error", "closure")],
                                    ("trend:error_system", "error", "closure", "tree")),
    }
    for name, (order, doits, allowed) in spec.items():
        f, me, v, parts = system_of(ctx, name)
        where = f.where
        if parts is None or len(parts) != 1:
            rep.unsure("pipeline", name, where, short(v))
            continue
        p, gs, ixs = parts[0]
        b0, st0 = one(p, me) if sides(p, me) is None else (p, [])
        sd = sides(p, me)
        if sd is None:
            rep.unsure("pipeline", name, where, f"not an equation: {short(p)}")
            continue
        left = lhs_of(one_if_algebra(sd[0], me), me)
        if left is None:
            rep.unsure("definition", name, where, f"left hand side {short(sd[0])}")
            continue
        b, st = one(sd[1], me)
        st = seq(st)
        if not faults_of(rep, "pipeline", name, where, st) or not foreign(rep, name, where, st, allowed):
            continue
        # the derivative in time of the definition, evaluated before its trend terms are replaced
        base, n = peel_doit(b)
        arg, evaluated, pulled = statistic(base, st, me)
        if arg is None:
            arg = integrated(base, me)
            evaluated, pulled = True, False
            if arg is False:
                rep.bad("definition", name, where, f"the trend is no derivative of a product: {short(b)}")
                continue
        if arg is None:
            rep.unsure("definition", name, where, f"right hand side from {short(b)}")
            continue
        if not definition(rep, name, where, me, left, arg, gs, ixs, pos(st, "E")):
            continue
        if pulled:
            rep.bad("pipeline", name, where, "the expectation is taken before the derivative is expanded: the trend of the statistic "
                                             "is expressed by itself")
            continue
        tr = [i for i, s in enumerate(st) if s.kind == "subs" and any(k.startswith("trend") for k in s.data)]
        if tr and not evaluated and not any(s.kind == "doit" for s in st[:tr[0]]) and n == 0:
            rep.bad("pipeline", name, where, "the derivative of the definition is not evaluated before the trends are substituted")
            continue
        od = list(order)
        if name == "epsilon_system":
            va = pos(st, "subs", "trend:variance_system")
            if not va:
                rep.bad("pipeline", name, where, f"the trend of the variance is not substituted: {st}")
                continue
            if va[-1] > pos(st, "subs", "error")[-1] if pos(st, "subs", "error") else False:
                pass
        elif not pos(st, "E"):
            rep.bad("pipeline", name, where, f"no expectation in the trend of the statistic: {st}")
            continue
        if name != "epsilon_system" and pos(st, "E")[-1] > pos(st, "subs", "closure")[-1] if pos(st, "subs", "closure") else False:
            rep.bad("pipeline", name, where, f"the closure applies before the expectation: {st}")
            continue
        if need(rep, name, where, st, od, doits):
            rep.ok("pipeline", name, where, f"{st}")


def one_if_algebra(t, me):
    b, st = one(t, me)
    return b if all(s.kind in ("algebra", "doit") for s in st) else t


def statistic(base, st, me):
    """(argument of D_t, derivative evaluated by construction?, expectation taken of an unevaluated derivative?)"""
    d = derivative(base, me)
    if d is None or len(d[1]) != 1 or not is_time(d[1][0], me):
        return None, False, False
    ev = gcall(base, "diff") or mcall(base, "diff")
    pulled = False
    if not ev:
        for s in st:
            if s.kind == "doit":
                break
            if s.kind == "E":
                pulled = s.data is not FALSE
                if pulled:
                    break
    return peel_doit(d[0])[0], bool(ev), pulled


def integrated(t, me):
    """product whose derivative in time is the sum t, written out by the product rule; False when t is the derivative of none"""
    p = TT.to_poly(t)
    dt, cand = {}, None
    for (mono, k) in p.items():
        if mono[1] or not mono[0]:
            return None
        ds, rest = [], []
        for b, e in mono[0]:
            d = derivative(peel_doit(b)[0], me)
            if d is not None and len(d[1]) == 1 and is_time(d[1][0], me) and e == 1 and fieldish(d[0], me) is not None:
                ds.append((d[0], b))
            elif fieldish(b, me) is not None:
                rest.append((b, e))
            else:
                return None
        if len(ds) != 1:
            return None
        x, d = ds[0]
        dt[x] = d
        m = num(Fraction(k)) if Fraction(k) != 1 else num(1)
        for b, e in rest:
            for _ in range(int(e)) if e == int(e) and e > 0 else ():
                m = mul(m, b)
            if e != int(e) or e < 0:
                return None
        n = sum(int(e) for b, e in rest if b is x) + 1
        cand = cand or (mul(m, x), n)
    if cand is None:
        return None
    M = mul(num(Fraction(1, cand[1])), cand[0])
    (mono, k), = TT.to_poly(M).items()
    tot = num(0)
    for b, e in mono[0]:
        if b not in dt:
            return False
        m = num(Fraction(k) * Fraction(e))
        for b2, e2 in mono[0]:
            for _ in range(int(e2) - (b2 is b)):
                m = mul(m, b2)
        tot = add(tot, mul(m, dt[b]))
    return M if tot is t or add(tot, neg(t)) is num(0) else False


def definition(rep, name, where, me, left, arg, gs, ixs, E):
    F = len_(mk("attr", me, "fields"))
    pr = product(arg, me)
    if pr is None:
        rep.unsure("definition", name, where, f"statistic {short(arg)}")
        return False
    if name == "variance_system":
        fa = fieldish(left, me)
        if fa is None:
            rep.unsure("definition", name, where, f"left hand side {short(left)}")
            return False
        good = fa[2] == "variance" and pr == [(fa[0], "error", Fraction(2), ())]
        msg = f"trend of {short(left)} from the statistic {short(arg)}: the variance is the expectation of the squared error"
        index = fa[1]
    elif name == "epsilon_system":
        fa = fieldish(left, me)
        if fa is None:
            rep.unsure("definition", name, where, f"left hand side {short(left)}")
            return False
        good = fa[2] == "epsilon" and pr in ([(fa[0], "error", Fraction(1), ()), (fa[0], "variance", -HALF, ())],)
        msg = f"trend of {short(left)} from {short(arg)}: the normalised error is the error over the square root of the variance"
        index = fa[1]
    elif name == "metric_system":
        c = component(left)
        if c is None or c[1] != "metric" or c[2][0] == "ut" or field_of(c[0], me) is None:
            rep.unsure("definition", name, where, f"left hand side {short(left)}")
            return False
        fld, _, (i, j) = c
        X = mk("attr", fld, "spatial_coordinates")
        want = sorted([(fld, "epsilon", Fraction(1), (sub_(X, i),)), (fld, "epsilon", Fraction(1), (sub_(X, j),))],
                      key=lambda q: (q[0].n, q[1], [z.n for z in q[3]]))
        good = pr == want and i is not j
        msg = f"trend of {short(left)} from {short(arg)}: the metric is the expectation of the product of the derivatives in the same " \
              f"directions"
        index = field_of(fld, me)
        if good:
            rest = [x for x in ixs if x is not index]
            ok = index in ixs and all_fields(index, me) and not [g for g in gs if index in (subterms(g)) and not free_pair(g, i, j)]
            q = pairs(i, j, rest, gs, len_(X), False)
            if ok and q:
                rep.ok("complete", name, where, "one equation for each component of the metric of each field")
            elif q is False or q is True and index.op == "num":
                rep.bad("complete", name, where, f"not one equation for each component: {[short(g) for g in gs]}")
            else:
                rep.unsure("complete", name, where, f"loops {[short(x.args[0]) for x in ixs]} {[short(g) for g in gs]}")
    else:
        errs = [q for q in pr if q[1] == "error" and q[2] == 1 and not q[3]]
        if len(pr) == 2 and len(errs) != 2 or len(pr) != 2:
            rep.bad("definition", name, where, f"trend of {short(left)} from {short(arg)}: not the product of two errors")
            return False
        a, b = errs[0][0], errs[1][0]
        V = left
        good = label_of(V, a, b, me)
        if good is None:
            rep.unsure("definition", name, where, f"left hand side {short(left)}")
            return False
        msg = f"trend of {short(left)} from {short(arg)}: not the label of the covariance of these two errors"
        ia, ib = field_of(a, me), field_of(b, me)
        if good:
            strict = pairs(ia, ib, ixs, gs, F) if ia is not None and ib is not None else None
            if strict is True:
                rep.ok("complete", name, where, "one equation for each couple of different fields")
            elif strict is False:
                rep.bad("complete", name, where, f"not one equation for each couple of fields: {[short(g) for g in gs]}")
            else:
                rep.unsure("complete", name, where, f"loops {[short(x.args[0]) for x in ixs]} {[short(g) for g in gs]}")
        index = None
    if not good:
        rep.bad("definition", name, where, msg)
        return False
    rep.ok("definition", name, where, f"{short(left)}: {short(arg)}")
    if name in ("variance_system", "epsilon_system"):
        quantified(rep, name, where, gs, ixs, index, mk("attr", me, "fields"), "field")
    return True


def free_pair(g, i, j):
    xs = (subterms(g))
    return i in xs or j in xs


def label_of(V, a, b, me):
    if mcall(V, "get_covariance") and V.args[0].args[0] is me and len(V.args[1]) == 2:
        F = mk("attr", me, "fields")
        fs = [x.args[0] if x.op == "attr" and x.args[1] == "value" else sub_(F, x) for x in V.args[1]]
        return set(fs) == {a, b}
    if V.op == "sub" and V.args[0] is mk("attr", me, "internal_closure") or \
            mcall(V, "get") and V.args[0].args[0] is mk("attr", me, "internal_closure") and V.args[1]:
        k = V.args[1] if V.op == "sub" else V.args[1][0]
        if gcall(k, "Expectation") and len(k.args[1]) == 1:
            pr = product(k.args[1][0], me)
            if pr is not None:
                return {(q[0], q[1], q[2], q[3]) for q in pr} == {(a, "error", Fraction(1), ()), (b, "error", Fraction(1), ())}
    if mcall(V, "subs") and len(V.args[1]) == 1 and V.args[1][0] is mk("attr", me, "internal_closure") and \
            gcall(V.args[0].args[0], "Expectation"):
        pr = product(V.args[0].args[0].args[1][0], me)
        if pr is not None:
            return {(q[0], q[1], q[2], q[3]) for q in pr} == {(a, "error", Fraction(1), ()), (b, "error", Fraction(1), ())}
    return None


def pairs(ia, ib, ixs, gs, F, strict=True):
    """the couples are all the pairs of (different) indices, once (small sizes are enumerated)"""
    for n in range(1, 6):
        env = {F: n}
        tu = index_tuples([ia, ib], ixs, gs, env)
        if tu is None:
            return None
        got = [tuple(sorted(x)) for x in tu]
        if sorted(got) != sorted((i, j) for i in range(n) for j in range(i + strict, n)):
            return False
    return True


# ------------------------------------------------------------------ standard deviation
def std(ctx, rep):
    f, me, v, parts = system_of(ctx, "std_system")
    name, where = "std_system", f.where
    if parts is None or len(parts) != 1:
        return rep.unsure("pipeline", name, where, short(v))
    p, gs, ixs = parts[0]
    iso = None
    q = p
    while mcall(q, *ALGEBRA):
        q = q.args[0].args[0]
    if mcall(q, "isolate") and len(q.args[1]) == 1:
        iso, q = q.args[1][0], q.args[0].args[0]
    sd = sides(q, me)
    if sd is None:
        return rep.unsure("pipeline", name, where, f"not an equation: {short(q)}")
    (bl, sl), (br, sr) = one(sd[0], me), one(sd[1], me)
    el, er = side(bl, 0), side(br, 1)
    if el is None or el is not er or source(el, me) is None:
        return rep.unsure("pipeline", name, where, f"sides of {short(bl)} / {short(br)}")
    src, idx = source(el, me)
    if src != "variance_system":
        return rep.bad("pipeline", name, where, f"derived from {src}, not from the variance")
    quantified(rep, name, where, gs, ixs, idx, mk("attr", me, "variance_system"), "equation")
    sl, sr = seq(sl), seq(sr)
    if not faults_of(rep, "pipeline", name, where, sr) or not faults_of(rep, "pipeline", name, where, sl) or \
            not foreign(rep, name, where, sr, ("std",)):
        return
    if not need(rep, name, where, sr, ["std"]) or not need(rep, name + "-lhs", where, sl, ["std"]):
        return
    if not any(s.kind == "doit" for s in sl[pos(sl, "subs", "std")[-1]:]):
        return rep.bad("pipeline", name, where, "the derivative of the squared standard deviation is not evaluated: its trend is not "
                                                "isolated")
    if iso is None:
        return rep.bad("pipeline", name, where, "the trend of the standard deviation is not isolated")
    for leaf, g in phi_leaves(iso):
        at = [x for x in subterms(leaf) if mcall(x, "atoms") and any(gcall_name(y, "Derivative") for y in x.args[1])]
        fa = lhs_of(leaf, me)
        fa = fieldish(fa, me) if fa is not None else None
        if fa is not None and fa[2] == "std":
            continue
        if not at:
            return rep.unsure("pipeline", name, where, f"isolated term {short(leaf)}")
        for x in at:
            L = x.args[0].args[0]
            if L is sd[0] or L is q or resolve(L, me) is sd[0]:
                continue
            if L is sd[1] or resolve(L, me) is sd[1]:
                return rep.bad("pipeline", name, where, "the isolated derivative is taken in the right hand side")
            return rep.unsure("pipeline", name, where, f"isolated term {short(leaf)}")
    rep.ok("pipeline", name, where, f"{sr}, trend isolated")


def gcall_name(y, n):
    return y.op == "global" and y.args[0].split(".")[-1] == n


# ------------------------------------------------------------------ internal closure of an expression
def apply_closure(ctx, rep):
    me = mk("self", ctx.cls("SymbolicPKF").qual)
    f, me, v, I, s = system(ctx, "_apply_internal_closure", [], OPQ17 + ("subs_tree",))
    where, name = f.where, "internal-closure"
    C = mk("attr", me, "internal_closure")
    a = f.node.args
    par = mk("param", [x.arg for x in a.posonlyargs + a.args][1])
    steps = []
    t = v
    while True:
        if mcall(t, "subs", "xreplace") and len(t.args[1]) == 1:
            steps.append(t.args[1][0])
            t = t.args[0].args[0]
        elif mcall(t, "doit", *ALGEBRA):
            t = t.args[0].args[0]
        else:
            break
    if t.op == "phi" and not steps and not has_term(t.args[0], C):
        # the closure may be useless when the expression has no expectation at all
        last = [mcall(x, "subs", "xreplace") and x.args[1] == (C,) for x in t.args[1:]]
        about = any(y.op == "global" and y.args[0].split(".")[-1] == "Expectation" for y in walk(t.args[0]))
        if last.count(True) == 1 and not about and understood(t.args[0], OPQ17):
            return rep.bad("apply", name, where, f"the closure of the statistics is applied only if {short(t.args[0], 300)}: "
                                                 "the other statistics of the expression stay")
    if not steps or steps[0] is not C:
        if t is par or t.op == "fold":
            return rep.bad("apply", name, where, "the closure of the statistics is not the last substitution") \
                if C not in steps else rep.bad("apply", name, where, "the closure applies before the substitution tree")
        return rep.unsure("apply", name, where, short(v))
    if len(steps) > 1 or t.op != "fold":
        return rep.unsure("apply", name, where, f"{[short(x) for x in steps]} {short(t)}") if t is not par else \
            rep.bad("apply", name, where, "the relations between statistics of higher order are not substituted")
    ix, carry, start, nxt = t.args[0], t.args[1], t.args[2], t.args[3]
    if start is not par:
        return rep.unsure("apply", name, where, f"starts with {short(start)}")
    guards = []
    while nxt.op == "phi":
        if nxt.args[2] is carry:
            guards.append(nxt.args[0])
            nxt = nxt.args[1]
        elif nxt.args[1] is carry:
            guards.append(not_(nxt.args[0]))
            nxt = nxt.args[2]
        else:
            break
    while mcall(nxt, "doit", *ALGEBRA):
        nxt = nxt.args[0].args[0]
    if not (mcall(nxt, "subs", "xreplace") and len(nxt.args[1]) == 1 and nxt.args[0].args[0] is carry):
        return rep.unsure("apply", name, where, f"{short(nxt)}")
    d = nxt.args[1][0]
    kvs, others = dict_parts(d)
    trees = set()
    if others and not kvs:
        if len(others) == 1 and mcall(others[0], "subs_tree"):
            return rep.bad("apply", name, where, "the values of the substitution tree are not closed before they are substituted")
    if others or not kvs:
        return rep.unsure("apply", name, where, f"substitution {short(d)}")
    tree = None
    for k, val, gs, ixs in kvs:
        if k.op != "sub" or not (mcall(k.args[0], "subs_tree") or k.args[0].op == "call"):
            return rep.unsure("apply", name, where, f"key {short(k)}")
        tree = k.args[0]
        x, done, closed = val, False, False
        while True:
            if mcall(x, "doit"):
                done = True
                x = x.args[0].args[0]
            elif mcall(x, *ALGEBRA):
                x = x.args[0].args[0]
            elif mcall(x, "subs", "xreplace") and x.args[1] == (C,):
                closed = True
                x = x.args[0].args[0]
            else:
                break
        if x.op != "sub" or x.args[0] is not tree or x.args[1] is not k and x.args[1] is not k.args[1]:
            return rep.unsure("apply", name, where, f"value {short(val)}")
        if not closed:
            return rep.bad("apply", name, where, "the values of the substitution tree are not closed: terms of the tree stay in the "
                                                 "expression")
        if not done:
            return rep.bad("apply", name, where, "the derivatives of the closed values are not evaluated")
        if gs:
            return rep.unsure("apply", name, where, f"restricted to {[short(g) for g in gs]}")
    # owner and degree of the tree
    if not (tree.op == "call" and tree.args[0].op == "attr" and tree.args[0].args[1] == "subs_tree"):
        return rep.unsure("apply", name, where, f"tree {short(tree)}")
    owner = tree.args[0].args[0]
    deg = tree.args[1][0] if len(tree.args[1]) == 1 else dict(tree.args[2]).get("degree", NONE)
    key = None
    fx = field_of(owner, me)
    if fx is not None:
        key = mk("attr", owner, "epsilon")
    elif owner.op == "sub" and owner.args[0].op == "coll":
        kk, oo = dict_parts(owner.args[0])
        key = owner.args[1]
        for a, b, gs, ixs in kk:
            if a is not mk("attr", b, "epsilon"):
                return rep.bad("apply", name, where, f"the tree of {short(b)} is used for {short(a)}") if fieldish(a, me) is not None and \
                    field_of(b, me) is not None else rep.unsure("apply", name, where, f"{short(a)}: {short(b)}")
            if gs or len(ixs) != 1 or not all_fields(ixs[0], me):
                return rep.bad("apply", name, where, f"the trees of a part of the fields: {[short(g) for g in gs]}")
        if oo or not kk:
            return rep.unsure("apply", name, where, f"owner {short(owner)}")
    if key is None:
        return rep.unsure("apply", name, where, f"owner {short(owner)}")
    us = {x for x in subterms(v) if x.op == "call" and x.args[1] == (par,) and
          (x.args[0].args[-1] if isinstance(x.args[0].args[-1], str) else "").split(".")[-1] == "check_univariate"}
    if len(us) != 1:
        return rep.unsure("apply", name, where, f"univariate terms of the expression: {[short(x) for x in us]}")
    U, = us
    rep.ok("apply", "closed-tree", where, "the relations are closed and evaluated, then substituted; the closure is last")
    # degree: at least the highest degree of the terms of this error
    if deg is NONE:
        return rep.bad("apply", "degree", where, "the tree is not asked for the degree of the terms of the expression")
    want = None
    t = deg
    while gcall(t, "int", "Integer") and len(t.args[1]) == 1:
        t = t.args[1][0]
    t = lookups(t)
    more = 0
    if t.op == "poly":
        ms = dict(t.args[0])
        more = ms.pop(((), ()), 0)
        if len(ms) == 1:
            (((at, nc), k),) = ms.items()
            if k == 1 and len(at) == 1 and at[0][1] == 1 and not nc:
                t = lookups(at[0][0])
    inner = degrees(t)
    if inner is None and numval(t) is None and t.op == "len" and understood(t, ("check_univariate",)):
        return rep.bad("apply", "degree", where, f"the tree stops at a number of terms, not at their degree: {short(deg)}")
    if inner is None:
        return rep.unsure("apply", "degree", where, f"degree {short(deg)}")
    how, coll_, elem = inner
    deeper = degrees(elem) if how == "max" else None
    if deeper is not None and deeper[0] == "max" and deeper[2].op == "attr" and deeper[2].args[1] == "degree":
        # highest degree of the terms of all the errors
        e2, i = deeper[2].args[0], lparts(coll_.args[1])[0][2][0]
        if e2.op == "sub" and e2.args[0] is coll_key(U, sub_(U, i)) and i.args[0] is len_(U) and more >= 0:
            elem, how = mk("attr", sub_(coll_key(U, key), e2.args[1]), "degree"), "max"
    src = elem.args[0] if elem.op == "attr" and elem.args[1] == "degree" else None
    if src is None or src.op != "sub" or src.args[0] is not coll_key(U, key):
        if src is not None and src.op == "sub" and src.args[0].op == "sub" and src.args[0].args[0] is U:
            return rep.bad("apply", "degree", where, f"the degree is that of another error: {short(deg)}")
        return rep.unsure("apply", "degree", where, f"degree {short(deg)}")
    if how != "max" or more < 0:
        return rep.bad("apply", "degree", where, f"the tree stops at the {how} of the degrees of the terms: {short(deg)}")
    rep.ok("apply", "degree", where, "the tree goes up to the highest degree of the terms of the same error")
    # every error of a field that has terms
    F = mk("attr", me, "fields")
    dom = ix.args[0]
    inU = in_(key, U)
    if fx is not None:
        left = [g for g in guards if N.decide(g, (inU,)) is not True]
        if dom is len_(F) and not left:
            rep.ok("apply", "errors", where, "every field whose error has terms in the expression")
        elif left:
            rep.bad("apply", "errors", where, f"not every error: {[short(g) for g in left]}") if all(understood(g) for g in left) else \
                rep.unsure("apply", "errors", where, f"{[short(g) for g in left]}")
        else:
            rep.unsure("apply", "errors", where, f"loop over {short(dom)}")
    else:
        known = in_(key, owner.args[0])
        left = [g for g in guards if N.decide(g, (known, inU)) is not True]
        others_out(ctx, rep, f, I, s, U, known, guards, where)
        if left:
            rep.bad("apply", "errors", where, f"not every error: {[short(g) for g in left]}") if all(understood(g) for g in left) else \
                rep.unsure("apply", "errors", where, f"{[short(g) for g in left]}")
        elif key.op == "sub" and key.args[0] is U and key.args[1] is ix or key.op == "sub" and key.args[1] is ix:
            rep.ok("apply", "errors", where, "every error with terms in the expression")
        else:
            rep.unsure("apply", "errors", where, f"loop over {short(dom)}, key {short(key)}")


def lookups(t):
    """a value looked up in a dictionary filled by a loop is the value of this key"""
    def f(x):
        if x.op == "sub" and x.args[0].op == "coll" and x.args[0].args[0] == "dict":
            kk, oo = dict_parts(x.args[0])
            if len(kk) == 1 and not oo:
                k0, v0, g0, i0 = kk[0]
                if len(i0) == 1:
                    w = rewrite(v0, lambda y: x.args[1] if y is k0 else y)
                    if w is v0 or i0[0] not in TT.walk(w) or x.args[1] is k0 or i0[0] in TT.walk(x.args[1]):
                        return w
        return x
    for _ in range(6):
        u = rewrite(t, f)
        if u is t:
            break
        t = u
    return t


def coll_key(U, key):
    return sub_(U, key)


def others_out(ctx, rep, f, I, s, U, known, guards, where):
    """the errors that are not those of the fields are taken out before their trees are looked for"""
    if any(N.decide(known, (g,)) is True for g in guards) or U.op != "call":
        return
    pops = [e for e in I.effects if e.kind in ("mut", "del") and isinstance(e.target, T) and I.fz(e.target, s) is U]
    if not pops:
        return rep.check("apply", "others", where, False if not guards else None,
                         "terms of an error that is not of a field have no tree: they must be left out")
    for e in pops:
        g = enclosing_loop(ctx, e.where)
        if g is not None and any(isinstance(n, (ast.Break, ast.Return)) for n in own_exits(g)):
            return rep.bad("apply", "others", e.where, "the errors that are not those of the fields are not all left out: "
                                                       "the loop is left before the last one")
    rep.ok("apply", "others", where, "errors that are not those of the fields are left out")


def enclosing_loop(ctx, where):
    rel, line = where.rsplit(":", 1)
    best = None
    for m in ctx.pkg.modules.values():
        if m.rel == rel:
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.For, ast.While)) and n.lineno <= int(line) <= (n.end_lineno or n.lineno):
                    if best is None or n.lineno >= best.lineno:
                        best = n
    return best


def own_exits(loop):
    """statements of a loop that can leave it"""
    todo = list(loop.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            todo += [x for x in ast.walk(n) if isinstance(x, ast.Return)]
            continue
        yield n
        todo += [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.stmt)]


def degrees(t):
    """(max|min|.., collection, element) of an extremum over a collection"""
    if t.op in ("maxof", "minof") and t.args[0].op == "coll":
        ps = lparts(t.args[0].args[1])
        if len(ps) == 1 and len(ps[0][2]) == 1 and not ps[0][1]:
            return t.op[:3], t.args[0], ps[0][0]
    if gcall(t, "max", "min") and len(t.args[1]) == 1 and t.args[1][0].op == "coll":
        ps = lparts(t.args[1][0].args[1])
        if len(ps) == 1 and len(ps[0][2]) == 1 and not ps[0][1]:
            return t.args[0].args[0].split(".")[-1], t.args[1][0], ps[0][0]
    if t.op in ("maxover", "minover"):
        return t.op[:3], t, [x for x in t.args if isinstance(x, T) and numval(x) is None][-1]
    if t.op == "attr" and t.args[1] == "degree":
        return "first", None, t
    if t.op in ("sumover",):
        return "sum", t, [x for x in t.args if isinstance(x, T)][-1]
    return None


# ------------------------------------------------------------------ meta-fields
def fields(ctx, rep):
    c = ctx.cls("SymbolicPKF")
    me = mk("self", c.qual)
    I, v, s = ctx.run_method("SymbolicPKF", "__init__", opaque={"PDESystem", "Field"})
    where = ctx.method("SymbolicPKF", "__init__").where
    t = s.attrs.get((me, "fields"))
    t = N.specialise(I.fz(t, s), ()) if t is not None else None
    if t is None:
        return rep.unsure("complete", "fields", where, "no store to fields")
    kvs, others = dict_parts(t)
    if len(kvs) != 1 or others:
        return rep.unsure("complete", "fields", where, short(t))
    k, val, gs, ixs = kvs[0]
    if not (k.op == "sub" and k.args[0].op == "attr" and k.args[0].args[1] == "prognostic_functions"):
        return rep.unsure("complete", "fields", where, short(k))
    isf = val.op in ("obj", "call") and k in (subterms(val))
    if gs or len(ixs) != 1 or ixs[0] is not k.args[1] or ixs[0].args[0] is not len_(k.args[0]):
        return rep.bad("complete", "fields", where, f"not every prognostic field: {[short(g) for g in gs]}") if gs else \
            rep.unsure("complete", "fields", where, short(t))
    if not isf:
        return rep.bad("complete", "fields", where, f"{short(k)}: {short(val)}") if understood(val) else rep.unsure("complete", "fields", where, short(val))
    rep.ok("complete", "fields", where, "every prognostic field has its meta-field")


def run(ctx, rep, tier):
    rep.rule("decomposition", "every field is replaced by its mean plus the scaled error, in every equation", 2)
    rep.rule("order", "the equations are kept up to the order of their name; the parameter is set to one; no place holder is left", 2)
    rep.rule("definition", "the trend of a statistic is derived from the definition of this statistic", 4)
    rep.rule("pipeline", "the steps of a derivation are all there, in an order that lets each one act", 8)
    rep.rule("complete", "one equation for each field, component or couple", 9)
    rep.rule("apply", "the relations between statistics apply to all the terms of an expression, and are themselves closed", 3)
    for g in (reynolds, mean_systems, error, trend_systems, std, apply_closure, fields):
        g(ctx, rep)
