"""Runge-Kutta tableau read off a value-graph term, and its order conditions."""
from fractions import Fraction
from .base import *
from engine.interp import Frame


class NotRK(Exception):
    def __init__(self, msg, sure):
        super().__init__(msg)
        self.sure = sure


def lin(t, state, dt, stages, what):
    """t = state + dt * sum(a_k * stage_k)  ->  {stage: a_k}"""
    out, one = {}, Fraction(0)
    for (comm, nc), c in to_poly(t).items():
        atoms = dict(comm)
        if nc:
            raise NotRK(f"{what}: matrix product", False)
        ks = [a for a in atoms if a in stages]
        other = [a for a in atoms if a is not state and a is not dt and a not in stages]
        if other:
            raise NotRK(f"{what}: unexpected factor {short(other[0])}", all(o.op in ("param", "num", "sub") for o in other))
        if not ks:
            if atoms == {state: 1}:
                one += c
                continue
            raise NotRK(f"{what}: unexpected term in {short(t)}", True)
        if len(ks) > 1 or atoms[ks[0]] != 1 or state in atoms:
            raise NotRK(f"{what}: term not linear in the trends", True)
        if atoms.get(dt, 0) != 1:
            raise NotRK(f"{what}: increment is not proportional to the time step", True)
        out[ks[0]] = out.get(ks[0], 0) + c
    if one != 1:
        raise NotRK(f"{what}: the state enters with factor {one}, not 1", True)
    return out


ARITH = {"add": add, "subtract": nsub, "multiply": mul, "divide": div, "true_divide": div}


def plain(x):
    """numpy functions for the arithmetic of arrays, copies"""
    if x.op != "call" or x.args[2]:
        return None
    f, a = x.args[0], x.args[1]
    n = str(f.args[-1]).split(".")[-1] if f.op in ("global", "attr") else ""
    if f.op == "global" and str(f.args[0]).split(".")[0] in ("np", "numpy"):
        if n in ARITH and len(a) == 2:
            return ARITH[n](*a)
        if n in ("copy", "array", "asarray") and len(a) == 1:
            return a[0]
    if f.op == "global" and f.args[0] == "copy.deepcopy" and len(a) == 1:
        return a[0]
    if f.op == "attr" and n == "copy" and not a:
        return f.args[0]


def tableau(value, trend, t, state, dt):
    value = rewrite(value, lambda x: plain(x) or x)
    ks = [x for x in walk(value) if x.op == "call" and x.args[0] is trend]
    ks = sorted(set(ks), key=lambda x: x.n)
    stages = set(ks)
    A, C = {}, {}
    for k in ks:
        if len(k.args[1]) != 2 or k.args[2]:
            raise NotRK("trend not called as trend(t, state)", True)
        tt, ss = k.args[1]
        d = nsub(tt, t)
        ct = Fraction(0)
        for (comm, nc), c in to_poly(d).items():
            if nc or dict(comm) != {dt: 1}:
                raise NotRK(f"stage time {short(tt)} is not t + c*dt", all(
                    a in (dt, t, state) or a.op in ("floordiv", "mod") and all(y in (dt, t) or y.op == "num" for y in a.args) for a, _ in comm))
            ct += c
        C[k] = ct
        A[k] = lin(ss, state, dt, stages, "stage state")
    b = lin(value, state, dt, stages, "updated state")
    return ks, A, b, C


def achieved_conditions(ks, A, b, C):
    """list of (order, name, lhs, rhs)"""
    F = Fraction
    B = [b.get(k, F(0)) for k in ks]
    c = [C[k] for k in ks]
    a = [[A[k].get(l, F(0)) for l in ks] for k in ks]
    r = [sum(row) for row in a]
    n = range(len(ks))
    S = lambda f: sum((f(i) for i in n), F(0))
    ac = [S(lambda j: a[i][j] * c[j]) for i in n]
    ac2 = [S(lambda j: a[i][j] * c[j] ** 2) for i in n]
    aac = [S(lambda j: a[i][j] * ac[j]) for i in n]
    conds = [(1, "sum b", S(lambda i: B[i]), F(1)),
             (2, "sum b c (time)", S(lambda i: B[i] * c[i]), F(1, 2)),
             (2, "sum b a (state)", S(lambda i: B[i] * r[i]), F(1, 2))]
    conds += [(3, f"stage {i}: c = sum a", c[i], r[i]) for i in n]
    conds += [(3, "sum b c^2", S(lambda i: B[i] * c[i] ** 2), F(1, 3)),
              (3, "sum b a c", S(lambda i: B[i] * ac[i]), F(1, 6)),
              (4, "sum b c^3", S(lambda i: B[i] * c[i] ** 3), F(1, 4)),
              (4, "sum b c a c", S(lambda i: B[i] * c[i] * ac[i]), F(1, 8)),
              (4, "sum b a c^2", S(lambda i: B[i] * ac2[i]), F(1, 12)),
              (4, "sum b a a c", S(lambda i: B[i] * aac[i]), F(1, 24))]
    return conds


def resolve_callable(ctx, v):
    """function info of a registry entry (static method, bound method, function, local function)"""
    if v.op == "global":
        q = v.args[0]
    elif v.op == "bound":
        q = v.args[1]
    else:
        return None
    try:
        return Interp(ctx.pkg).func_by_qual(q)
    except AnalysisBroken:
        return None


def registry(ctx):
    """(interp, state, {name: term}, attribute names) of the scheme registry built by the constructor"""
    I, v, s = ctx.run_method("Model", "__init__")
    cands = []
    for (o, name), val in s.attrs.items():
        if o.op == "self":
            c = I.fz(val, s)
            if c.op == "coll" and c.args[0] == "dict":
                d = {}
                for p in c.args[1]:
                    if p.op == "kv" and p.args[0].op == "str":
                        d[p.args[0].args[0]] = p.args[1]
                if {"euler", "rk4"} & set(d):
                    cands.append((name, d))
    if not cands:
        # class-level registry
        for c in [ctx.cls("Model")]:
            for name in c.attrs:
                val = I.class_value((c, c.attrs[name]))
                if val.op == "coll" and val.args[0] == "dict":
                    d = {p.args[0].args[0]: p.args[1] for p in val.args[1] if p.op == "kv" and p.args[0].op == "str"}
                    if {"euler", "rk4"} & set(d):
                        cands.append((name, d))
    if len(cands) != 1:
        raise AnalysisBroken("registry of time schemes not found in Model.__init__")
    return I, s, cands[0][1], cands[0][0]


def apply(ctx, I, v, args):
    """value of registry entry v applied to terms (I: the interpreter that built the registry)"""
    s = State({"__outer__": None})
    c = ctx.cls("Model")
    I.stack.append(Frame(None, c.qual, c.module, c))
    try:
        r = I.call(v, list(args), {}, s, None)
        r = I.fz(r, s)
    finally:
        I.stack.pop()
    ctx.visited |= I.visited
    return r
