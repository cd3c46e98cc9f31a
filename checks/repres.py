"""The parametric systems in metric, diffusion and aspect as lists of (equation, loops, conditions), and the chain of
substitutions every equation goes through."""
from .base import *
from engine.norm import eq_

SYSTEMS = ("expectation_system", "variance_system", "cross_covariance_system", "metric_system")
STAYS = ("doit", "expand", "simplify")
STEPS = ("subs", "xreplace") + STAYS
TENSOR = {"in_metric": "metric", "in_diffusion": "diffusion", "in_aspect": "aspect"}
CACHE = {"in_metric": "_system_in_metric", "in_diffusion": "_system_in_diffusion", "in_aspect": "_system_in_aspect"}


def is_matrix(t, names=("metric", "diffusion", "aspect")):
    """does the atom denote a matrix? (tensors of a field and what is computed from them)"""
    if t.op == "poly":
        return any(m[1] for m in t.args[0])
    if t.op == "attr":
        if t.args[1] == "T":
            return is_matrix(t.args[0], names)
        return t.args[1] in names
    if t.op == "pow":
        return is_matrix(t.args[0], names)
    if t.op == "call":
        f = t.args[0]
        if f.op == "attr" and f.args[1] in ("doit", "inv", "subs", "simplify", "expand", "transpose", "diff", "applyfunc", "copy"):
            return is_matrix(f.args[0], names)
        if f.op == "global" and f.args[0].split(".")[-1] in ("Derivative", "diff", "simplify", "expand", "Matrix"):
            return bool(t.args[1]) and isinstance(t.args[1][0], T) and is_matrix(t.args[1][0], names)
    return False


TT.NC_HOOK[0] = is_matrix


def system(ctx, name, facts, opaque=()):
    c = ctx.cls("SymbolicPKF")
    me = mk("self", c.qual)
    f = ctx.pkg.find_method(c, name)
    if f is None:
        ctx.method("SymbolicPKF", name)
    I = ctx.interp(opaque=set(opaque) - {name})
    st = State({})
    for q in facts:
        st.assume(q)
    v, s = I.run_function(f, self_obj=me, st=st)
    ctx.visited |= I.visited
    v = N.specialise(I.fz(v, s), tuple(facts))
    return f, me, v, I, s


def none_of(me, *names):
    return [N.is_(mk("attr", me, n), NONE) for n in names]


def chain(t):
    """(start, [steps]) of successive substitutions / normalisations, in the order they are applied;
    an equation rebuilt from the same steps on both sides is the equation with these steps"""
    steps = []
    while True:
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in STEPS:
            steps.append((t.args[0].args[1], t.args[1], t.args[2]))
            t = t.args[0].args[0]
            continue
        if gcall(t, "expand", "simplify") and len(t.args[1]) == 1:
            steps.append((t.args[0].args[0].split(".")[-1], (), ()))
            t = t.args[1][0]
            continue
        if gcall(t, "Eq", "Equation") and len(t.args[1]) == 2:
            a, sa = chain(t.args[1][0])
            b, sb = chain(t.args[1][1])
            e = side(a, 0)
            if e is not None and e is side(b, 1):
                ka = [x for x in sa if x[0] not in STAYS]
                kb = [x for x in sb if x[0] not in STAYS]
                if ka == kb:
                    return e, sb + list(reversed(steps))
        break
    return t, list(reversed(steps))


def side(t, k):
    if t.op == "sub" and numval(t.args[1]) == k and t.args[0].op == "attr" and t.args[0].args[1] == "args":
        return t.args[0].args[0]
    if t.op == "attr" and t.args[1] == ("lhs", "rhs")[k]:
        return t.args[0]
    return None


def dict_parts(d):
    """[(key, value, guards, loops)] and the merged dictionaries of a dictionary term"""
    if d.op == "coll":
        kvs, others = [], []
        for p, gs, ixs in parts_flat(d.args[1]):
            if p.op == "kv":
                kvs.append((p.args[0], p.args[1], gs, ixs))
            elif p.op == "splat":
                k, o = dict_parts(p.args[0])
                if gs or ixs:
                    return [], [d]
                kvs += k
                others += o
            elif p.op == "coll" and p.args[0] == "tuple" and len(p.args[1]) == 2:
                kvs.append((p.args[1][0], p.args[1][1], gs, ixs))
            elif p.op == "attr" and p.args[1] == "args":
                kvs.append((sub_(p, num(0)), sub_(p, num(1)), gs, ixs))
            else:
                return [], [d]
        return kvs, others
    if gcall(d, "dict", "OrderedDict") and len(d.args[1]) == 1 and not d.args[2]:
        return dict_parts(d.args[1][0])
    return [], [d]


def field_of(t, me):
    """index of the field when t is self.fields[key i] or self.fields[self.fields[i]]"""
    F = mk("attr", me, "fields")
    if t.op == "sub" and t.args[0] is F:
        k = t.args[1]
        if k.op == "sub" and k.args[0] is F:
            return k.args[1]
    return None


def all_fields(ix, me):
    F = mk("attr", me, "fields")
    return ix.op == "ix" and ix.args[0] is len_(F)


def classify(d, me):
    """what a substitution dictionary does: {"closure", "clean", "migrate", "trend"}, None when it is not recognised;
    and the faults found in it"""
    out, faults = set(), []
    d = N.specialise(d, ())
    while d.op == "call" and d.args[0].op == "attr" and d.args[0].args[1] in ("copy", "items") and not d.args[1]:
        d = d.args[0].args[0]
    if gcall(d, "dict", "OrderedDict", "list") and len(d.args[1]) == 1:
        d = d.args[1][0]
    if d is mk("attr", me, "_closure"):
        return {"closure"}, faults
    kvs, others = dict_parts(d)
    for o in others:
        if o is mk("attr", me, "_closure"):
            out.add("closure")
        else:
            return None, faults
    for k, v, gs, ixs in kvs:
        f = None
        if gcall(k, "Expectation") and len(k.args[1]) == 1 and k.args[1][0].op == "attr":
            f = field_of(k.args[1][0].args[0], me)
        if f is not None and k.args[1][0].args[1] in ("random", "value"):
            out.add("clean")
            fld = k.args[1][0].args[0]
            if k.args[1][0].args[1] != "random":
                faults.append(f"replaces {short(k)}, not the expectation of the random field")
            if v is not mk("attr", fld, "value"):
                faults.append(f"the expectation of a field is replaced by {short(v)}")
            if gs or len(ixs) != 1 or not all_fields(ixs[0], me):
                faults.append(f"not for all the fields: {[short(g) for g in gs]} {[short(i.args[0]) for i in ixs]}")
            continue
        c = component(k)
        if c is not None and c[1] == "metric" and field_of(c[0], me) is not None:
            out.add("migrate")
            continue
        e, e2 = side(k, 0), side(v, 1)
        if e is not None:
            b, st = chain(e)
            if b.op == "sub" and b.args[0].op == "attr" and b.args[0].args[1] in SYSTEMS:
                out.add("trend")
                continue
        return None, faults
    return out, faults


def component(t):
    """(field, tensor, index) of a term that is a component of a tensor of a field"""
    if t.op == "sub" and gcall(t.args[0], "upper_triangle") and len(t.args[0].args[1]) == 1:
        m = t.args[0].args[1][0]
        if m.op == "attr" and m.args[1] in ("metric", "diffusion", "aspect"):
            return m.args[0], m.args[1], ("ut", t.args[1])
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] in ("metric", "diffusion", "aspect") and \
            t.args[1].op == "coll" and len(t.args[1].args[1]) == 2:
        return t.args[0].args[0], t.args[0].args[1], t.args[1].args[1]
    if mcall(t, "metric_func", "nu_func", "aspect_func") and len(t.args[1]) == 2:
        return t.args[0].args[0], {"metric_func": "metric", "nu_func": "diffusion", "aspect_func": "aspect"}[t.args[0].args[1]], \
            t.args[1]
    return None


OPQ = SYSTEMS + ("upper_triangle", "metric_func", "nu_func", "aspect_func")


def representation(ctx, name, closed, cross=True):
    me = mk("self", ctx.cls("SymbolicPKF").qual)
    cl = N.truthy(mk("attr", me, "_closure"))
    facts = none_of(me, CACHE[name]) + [cl if closed else not_(cl)]
    F = len_(mk("attr", me, "fields"))
    for q, n in zip(none_of(me, *SYSTEMS), SYSTEMS):
        facts.append(q if n == "cross_covariance_system" and not cross else not_(q))
    one = eq_(F, num(1))
    facts.append(not_(one) if cross else one)
    return (me,) + system(ctx, name, facts, OPQ)
