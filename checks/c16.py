"""C16: the relations between statistics of the normalised error are the exact consequences of its unit variance."""
import ast
import itertools
from fractions import Fraction
from .base import *
from .repres import *
from engine.norm import eq_, lt_, in_
from engine.shape import Shape, Sym, Unknown, Raised
from .labels import conversions, equality
from .c14 import covers_pairs, is_time, symmetric

H = Fraction(1, 2)


# ------------------------------------------------------------------ statistics as (fields, multi-indices)
class Algebra:
    """parses E[prod_k D^a_k f_k] and linear combinations of metric terms; a coordinate is a term"""

    def __init__(self, me, coords, metric=None):
        self.me, self.coords, self.metric = me, coords, metric

    def coord(self, t):
        """canonical term of a coordinate"""
        return t

    def index(self, t):
        """coordinate of a tensor index"""
        if mcall(t, "index") and t.args[0].args[0] is self.coords and len(t.args[1]) == 1:
            return t.args[1][0]
        return sub_(self.coords, t) if self.me is not None else t

    def field(self, t):
        if self.me is None:
            return "epsilon" if t.op == "param" and t.args[0] in ("epsilon", "eps", "function") else None
        if t.op == "attr" and t.args[0] is self.me and t.args[1] in ("epsilon", "error"):
            return t.args[1]
        return None

    def deriv(self, t):
        """(field, sorted multi-index)"""
        n = self.field(t)
        if n is not None:
            return n, ()
        args = None
        if gcall(t, "Derivative", "diff"):
            base, args = t.args[1][0], t.args[1][1:]
        elif mcall(t, "diff"):
            base, args = t.args[0].args[0], t.args[1]
        elif mcall(t, *STAYS):
            return self.deriv(t.args[0].args[0])
        if args is None:
            return None
        b = self.deriv(base)
        if b is None:
            return None
        more = []
        for a in args:
            if a.op == "star":
                return None
            if a.op == "coll" and a.args[0] == "tuple" and len(a.args[1]) == 2 and numval(a.args[1][1]) is not None:
                more += [a.args[1][0]] * int(numval(a.args[1][1]))
            else:
                more.append(a)
        return b[0], tuple(sorted(b[1] + tuple(more), key=lambda q: q.n))

    def stat(self, t):
        """(coefficient, ((field, multi-index), ..)) of c E[..]"""
        p = TT.to_poly(t)
        if len(p) != 1:
            return None
        (mono, k), = p.items()
        at = [b for b, e in mono[0] for _ in range(int(e) if e == int(e) and e > 0 else 0)] + list(mono[1])
        if len(at) != 1 or not gcall(at[0], "Expectation") or len(at[0].args[1]) != 1:
            return None
        q = TT.to_poly(at[0].args[1][0])
        if len(q) != 1:
            return None
        (m2, k2), = q.items()
        fs = []
        for b, e in m2[0]:
            d = self.deriv(b)
            if d is None or e != int(e) or e <= 0:
                return None
            fs += [d] * int(e)
        if m2[1]:
            return None
        return k * k2, tuple(sorted(fs, key=lambda d: (d[0], len(d[1]), [q.n for q in d[1]])))

    def g(self, t):
        """pair of coordinates of a metric component"""
        if t.op == "call" and len(t.args[1]) == 2 and (
                self.me is not None and t.args[0].op == "attr" and t.args[0].args[0] is self.me and t.args[0].args[1] == "metric_func" or
                self.me is None and t.args[0] is self.metric):
            a, b = (self.index(x) for x in t.args[1])
            return tuple(sorted((a, b), key=lambda q: q.n))
        if self.me is not None and t.op == "sub" and t.args[0] is mk("attr", self.me, "metric") and t.args[1].op == "coll" \
                and len(t.args[1].args[1]) == 2:
            return tuple(sorted((self.index(x) for x in t.args[1].args[1]), key=lambda q: q.n))
        return None

    def value(self, t):
        """{kind: coefficient}"""
        out = {}
        for (mono, k) in TT.to_poly(t).items():
            at = [(b, e) for b, e in mono[0]]
            if mono[1]:
                return None
            if not at:
                key = ("1",)
            elif len(at) == 1 and at[0][1] == 1:
                x = at[0][0]
                key = None
                if self.me is not None and x is mk("attr", self.me, "variance"):
                    key = ("V",)
                elif self.g(x) is not None:
                    key = ("g",) + self.g(x)
                elif gcall(x, "Derivative", "diff") and len(x.args[1]) == 2 and self.g(x.args[1][0]) is not None:
                    key = ("dg",) + self.g(x.args[1][0]) + (x.args[1][1],)
                elif mcall(x, "diff") and len(x.args[1]) == 1 and self.g(x.args[0].args[0]) is not None:
                    key = ("dg",) + self.g(x.args[0].args[0]) + (x.args[1][0],)
                if key is None:
                    return None
            else:
                return None
            out[key] = out.get(key, 0) + k
        return {a: b for a, b in out.items() if b}


def truth_of(fs):
    """exact value of E[prod], None when it is not a consequence of the unit variance"""
    def g(a, b):
        return ("g",) + tuple(sorted((a, b), key=lambda q: q.n))

    def dg(a, b, c):
        return ("dg",) + tuple(sorted((a, b), key=lambda q: q.n)) + (c,)
    names = {n for n, _ in fs}
    if len(fs) == 1:
        return {}
    if len(fs) != 2 or len(names) != 1:
        return None
    A, B = sorted((m for _, m in fs), key=len)
    if names == {"error"}:
        return {("V",): Fraction(1)} if not A and not B else None
    k = (len(A), len(B))
    if k == (0, 0):
        return {("1",): Fraction(1)}
    if k == (0, 1):
        return {}
    if k == (0, 2):
        return {g(*B): Fraction(-1)}
    if k == (1, 1):
        return {g(A[0], B[0]): Fraction(1)}
    out = {}
    if k == (0, 3):
        i, j, l = B
        terms = [(dg(i, j, l), -H), (dg(j, l, i), -H), (dg(i, l, j), -H)]
    elif k == (1, 2):
        (l,), (i, j) = A, B
        terms = [(dg(l, j, i), H), (dg(i, l, j), H), (dg(i, j, l), -H)]
    else:
        return None
    for t, c in terms:
        out[t] = out.get(t, 0) + c
    return {a: b for a, b in out.items() if b}


KIND = {("error", 0): "mean of the error", ("epsilon", 0): "mean", ("error", 0, 0): "variance of the error", ("epsilon", 0, 0): "unit variance",
        ("epsilon", 0, 1): "flat", ("epsilon", 0, 2): "metric", ("epsilon", 1, 1): "metric'", ("epsilon", 0, 3): "skewness",
        ("epsilon", 1, 2): "gamma"}


def sh(d):
    return {" ".join(str(x) if isinstance(x, str) else short(x, 60) for x in k): str(v) for k, v in d.items()} if d is not None else None


def closure_facts(ctx, rep):
    f = ctx.method("Field", "internal_closure")
    me = mk("self", ctx.cls("Field").qual)
    C = mk("attr", me, "spatial_coordinates")
    memo = mk("attr", me, "_internal_closure")
    I = ctx.interp(opaque={"metric_func", "all_of_degree"})
    v, s = I.run_function(f, self_obj=me)
    v = N.specialise(I.fz(v, s), (N.is_(memo, NONE),))
    ctx.visited |= I.visited
    if v.op != "coll" or v.args[0] != "dict":
        rep.unsure("facts", "closure", f.where, short(v))
        return
    al = Algebra(me, C)
    found = {}
    for p, gs, ixs in parts_flat(v.args[1]):
        if p.op != "kv":
            rep.unsure("facts", "entries", f.where, short(p))
            continue
        k, val = p.args
        st, vl = al.stat(k), al.value(val)
        if st is None or vl is None:
            rep.unsure("facts", "entries", f.where, f"{short(k)}: {short(val)}")
            continue
        c, fs = st
        kind = KIND.get((fs[0][0],) + tuple(sorted(len(m) for _, m in fs)), "?")
        want = truth_of(fs)
        if want is None:
            rep.unsure("facts", f"{kind}", f.where, f"{short(k)}: not a consequence of the unit variance")
            continue
        want = {a: b * c for a, b in want.items() if b * c}
        rep.check("facts", kind, f.where, vl == want, f"{short(k, 200)} replaced by {sh(vl)}; exact value {sh(want)}")
        mi = [q for _, m in fs for q in m]
        found.setdefault(kind, []).append(cover(mi, ixs, gs, C))
    for kind in ("mean of the error", "mean", "variance of the error", "unit variance", "flat", "metric", "skewness"):
        got = found.get(kind, [])
        r = True if True in got else (None if None in got else False)
        rep.check("known", kind, f.where, r, f"{len(got)} entries; all the coordinates: {got}")


def cover(mi, ixs, gs, C):
    n = len_(C)
    if not mi:
        return True if not ixs and not gs else None
    ids = []
    for q in mi:
        if q.op == "sub" and q.args[0] is C:
            ids.append(q.args[1])
    if len(ids) == len(mi):
        return index_cover(ids, ixs, gs, n)
    # elements of an enumeration of the multi-indices
    srcs = {q.args[0] for q in mi if q.op == "sub"}
    if len(srcs) == 1 and len(mi) == len([q for q in mi if q.op == "sub"]):
        s, = srcs
        if sorted(int(numval(q.args[1])) if numval(q.args[1]) is not None else -1 for q in mi) != list(range(len(mi))):
            return None
        if s.op == "attr" and s.args[1] == "as_sequence" and s.args[0].op == "sub":
            e, i = s.args[0].args
            if e.op == "call" and e.args[0].op == "attr" and e.args[0].args[1] == "all_of_degree" and len(e.args[1]) == 2:
                full = len(ixs) == 1 and ixs[0] is i and i.args[0] is len_(e) and not gs
                deg = numval(e.args[1][1])
                if full and e.args[1][0] is C and deg == len(mi):
                    return True
                part = e.args[1][0].op == "sub" and e.args[1][0].args[0] is C
                return False if deg is not None and (deg != len(mi) or part or not full and understood(i.args[0], ())) else None
        if s.op == "sub" and gcall(s.args[0], "combinations_with_replacement", "product"):
            e, i = s.args
            if e.args[1][0] is C and len(ixs) == 1 and ixs[0] is i and not gs:
                return True
    return None


def helpers(ctx, rep):
    """the module level definitions of the third order moments"""
    for d, sb in (("gamma_def", "gamma_subs"), ("skewness_def", "skewness_subs")):
        try:
            fd, fs = ctx.func(d), ctx.func(sb)
        except AnalysisBroken:
            continue
        I = ctx.interp()
        pd = [a.arg for a in fd.node.args.args]
        ps = [a.arg for a in fs.node.args.args]
        co = [mk("param", x) for x in "kij"]
        eps, met = mk("param", "epsilon"), mk("param", "metric")
        vd, s1 = I.run_function(fd, dict(zip(pd, [eps] + co)))
        I2 = ctx.interp()
        vs, s2 = I2.run_function(fs, dict(zip(ps, [met] + co)))
        ctx.visited |= I.visited | I2.visited
        al = Algebra(None, None, met)
        st, vl = al.stat(I.fz(vd, s1)), al.value(I2.fz(vs, s2))
        if st is None or vl is None:
            rep.unsure("facts", d, fs.where, f"{short(vd)}: {short(vs)}")
            continue
        want = truth_of(st[1])
        rep.check("facts", d, fs.where, None if want is None else vl == {a: b * st[0] for a, b in want.items()},
                  f"{short(I.fz(vd, s1))} = {sh(vl)}; exact value {sh(want)}")


# ------------------------------------------------------------------ several fields
def couples(ctx, rep):
    f = ctx.method("SymbolicPKF", "internal_closure")
    me = mk("self", ctx.cls("SymbolicPKF").qual)
    F = mk("attr", me, "fields")
    memo = mk("attr", me, "_internal_closure")
    I = ctx.interp(opaque={"get_covariance"})
    v, s = I.run_function(f, self_obj=me)
    v = N.specialise(I.fz(v, s), (N.is_(memo, NONE),))
    ctx.visited |= I.visited
    uni, got = None, {}
    if v.op != "coll" and any(x.op == "lastof" and any(y.op == "attr" and y.args[1] == "internal_closure" and field_of(y.args[0], me) is x.args[0]
                                                       for y in walk(x)) for x in walk(v)):
        uni = False
        rep.bad("couples", "univariate", f.where, "the relations of the last field only are included")
    for p, gs, ixs in parts_flat(v.args[1]) if v.op == "coll" else ():
        if p.op == "splat" and p.args[0].op == "attr" and p.args[0].args[1] == "internal_closure":
            m = p.args[0].args[0]
            i = field_of(m, me)
            uni = i is not None and len(ixs) == 1 and ixs[0] is i and all_fields(i, me) and not gs
            continue
        if p.op != "kv":
            rep.unsure("couples", "entries", f.where, short(p))
            continue
        k, val = p.args
        if gcall(k, "Expectation"):
            q = TT.to_poly(k.args[1][0])
            if len(q) == 1:
                (mono, c), = q.items()
                sq = [b for b, e in mono[0] if e == 2 and b.op == "attr" and b.args[1] in ("error", "epsilon")]
                if len(sq) == 1 == len(mono[0]) and not mono[1] and field_of(sq[0].args[0], me) is not None:
                    w = num(1) if sq[0].args[1] == "epsilon" else mk("attr", sq[0].args[0], "variance")
                    if add(val, neg(mul(mk("num", c), w))) is not num(0):
                        rep.check("couples", "entries", f.where, False, f"the relation of one field is not its variance: {short(k)}: {short(val)}")
                    continue
                at = [b for b, e in mono[0] if e == 1 and b.op == "attr"]
                if len(at) == 2 == len(mono[0]) and at[0].args[1] == at[1].args[1]:
                    a, b = (x.args[0] for x in at)
                    ia, ib = field_of(a, me), field_of(b, me)
                    if ia is not None and ib is not None:
                        pair_entry(rep, f.where, me, F, at[0].args[1], a, b, ia, ib, val, c, gs, ixs)
                        got[at[0].args[1]] = True
                        continue
        rep.unsure("couples", "entries", f.where, f"{short(k)}: {short(val)}")
    und = v.op == "coll"
    if v.op == "coll" or uni is None:
        rep.check("couples", "univariate", f.where, True if uni else (False if und and uni is None else None if uni is None else False),
                  "the relations of every field are included")
    for n in ("error", "epsilon"):
        if n not in got:
            rep.check("couples", n, f.where, False if und and not any(i["rule"] == "couples" and i["verdict"] == "undecided" for i in rep.items)
                      else None, f"no relation between the {n} of two fields")


def pair_entry(rep, where, me, F, name, a, b, ia, ib, val, c, gs, ixs):
    def cov(t):
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[0] is me and t.args[0].args[1] == "get_covariance" and len(t.args[1]) == 2:
            ks = set()
            for x in t.args[1]:
                if x.op == "sub" and x.args[0] is F:
                    ks.add(x.args[1])
                else:
                    return None
            return ks
        return None
    p = TT.to_poly(val)
    ok = None
    if len(p) == 1:
        (mono, k), = p.items()
        at = {b_: e for b_, e in mono[0]}
        cv = [x for x in at if cov(x) is not None]
        rest = {x: e for x, e in at.items() if x not in cv}
        if len(cv) == 1:
            want = {} if name == "error" else {mk("attr", a, "variance"): -H, mk("attr", b, "variance"): -H}
            alt = {} if name == "error" else {mk("attr", a, "std"): Fraction(-1), mk("attr", b, "std"): Fraction(-1)}
            ok = at[cv[0]] == 1 and cov(cv[0]) == {ia, ib} and rest in (want,) and k == c
            if not ok and rest == alt and rest:
                ok = False      # the std is another unknown
    elif understood(val, ("get_covariance",)):
        ok = False
    rep.check("couples", f"{name}:value", where, ok, f"relation of the two {name}: {short(val)}")
    cov_ = None
    if set(ixs) == {ia, ib} and ia is not ib:
        n = len_(F)
        if all(i.args[0] is n for i in ixs):
            cov_ = len(gs) == 0 or len(gs) == 1 and gs[0] in (lt_(ia, ib), lt_(ib, ia), not_(lt_(ia, ib)), not_(lt_(ib, ia)), not_(eq_(ia, ib)))
            if not cov_ and not all(understood(g, ()) for g in gs):
                cov_ = None
            if cov_ and not gs or cov_ and gs[0].op == "not" and gs[0].args[0].op == "lt":
                # also for the same field: the variance is replaced by a covariance
                cov_ = False
    if cov_ is None and not gs and len(ixs) == 2:
        x, y = ixs
        n = len_(F)
        tri = {(x, y): y.args[0] is x, (y, x): True}
        if x.args[0] is n and y.args[0] is x and {ia, ib} == {x, y}:
            cov_ = True
        elif x.args[0] is n and y.args[0] is nsub(nsub(n, x), num(1)) and {ia, ib} == {x, add(add(x, y), num(1))}:
            cov_ = True
    rep.check("couples", f"{name}:all", where, cov_, f"for {[short(i) for i in ixs]} under {[short(g) for g in gs]}")


def label(ctx, rep):
    """two couples have two labels"""
    me = mk("self", ctx.cls("SymbolicPKF").qual)
    f = ctx.method("SymbolicPKF", "get_covariance")
    F = mk("attr", me, "fields")
    f1, f2 = [mk("param", a) for a in [x.arg for x in f.node.args.args][1:3]]
    I = ctx.interp()
    v, s = I.run_function(f, self_obj=me, st=State({}).assume(in_(f1, F)).assume(in_(f2, F)))
    v = I.fz(v, s)
    ctx.visited |= I.visited
    cats = [x.args[0].args[1][0] for x in walk(v) if x.op == "call" and gcall(x.args[0], "Function") and x.args[0].args[1]]
    bad, unk = [], not cats
    for x in cats:
        parts = list(x.args) if x.op == "cat" else [x]
        var = [i for i, q in enumerate(parts) if q.op != "str" and any(y.op == "attr" and y.args[1] in ("name", "code") or
                                                                      y.op in ("tostr",) for y in walk(q))
               and q is not mk("attr", me, "_label_covariance") and has_any(q, (f1, f2))]
        if len(var) < 2:
            unk = True
        for i, j in zip(var, var[1:]):
            if not any(q.op == "str" and q.args[0] for q in parts[i + 1:j]):
                bad.append((parts[i], parts[j]))
    rep.check("label", "covariance:distinct", f.where, False if bad else (None if unk else True),
              f"the names of the two functions are joined without separator: {[(short(a, 80), short(b, 80)) for a, b in bad[:1]]}"
              if bad else "the names of the two functions are separated in the label")


def has_any(t, xs):
    return any(has_term(t, x) for x in xs)


# ------------------------------------------------------------------ tree of substitutions
def orders_of(t, C, eps):
    """multi-index of Derivative(eps, *m): list of (element, kind) where kind = how much of the element is taken"""
    if t is eps:
        return []
    if gcall(t, "Derivative") and t.args[1]:
        b = orders_of(t.args[1][0], C, eps)
        if b is None:
            return None
        for a in t.args[1][1:]:
            m = multi(a.args[0]) if a.op == "star" else single(a)
            if m is None:
                return None
            b = b + m
        return b
    if mcall(t, "diff"):
        b = orders_of(t.args[0].args[0], C, eps)
        if b is None:
            return None
        for a in t.args[1]:
            m = multi(a.args[0]) if a.op == "star" else single(a)
            if m is None:
                return None
            b = b + m
        return b
    if mcall(t, *STAYS) and not t.args[1]:
        return orders_of(t.args[0].args[0], C, eps)
    return None


def is_el(e):
    """element of the enumeration of the multi-indices of a degree"""
    return e.op == "sub" and e.args[0].op == "call" and e.args[0].args[0].op == "attr" and e.args[0].args[0].args[1] == "all_of_degree"


def multi(t):
    """content of a sequence / list of couples: [(element, 'all' | 'first' | 'rest' | 'last' | 'most')]"""
    if t.op == "attr" and t.args[1] in ("as_couples", "as_sequence"):
        e = t.args[0]
        if is_el(e):
            return [(e, "all")]
        # new multi-index made from a sequence / from couples
        src = None
        if mcall(e, "new") and len(e.args[1]) == 1:
            src = e.args[1][0]
        elif e.op in ("obj", "call") and gcall(e, "PartialOrderDerivative") and len(e.args[1]) == 2:
            src = e.args[1][1]
        if src is not None:
            return multi(src)
        return None
    if t.op == "sub" and t.args[1].op == "slice":
        b = multi(t.args[0])
        if b is not None and len(b) == 1 and b[0][1] == "all" and t.args[0].op == "attr" and t.args[0].args[1] == "as_sequence":
            lo, hi, step = t.args[1].args
            if hi is NONE and step is NONE and numval(lo) == 1:
                return [(b[0][0], "rest")]
            if lo is NONE and step is NONE and numval(hi) == -1:
                return [(b[0][0], "most")]
            return [(b[0][0], f"slice {short(t.args[1])}")]
        return None
    return None


def single(a):
    if a.op == "sub" and a.args[0].op == "attr" and a.args[0].args[1] == "as_sequence" and is_el(a.args[0].args[0]):
        n = numval(a.args[1])
        if n == 0:
            return [(a.args[0].args[0], "first")]
        if n == -1:
            return [(a.args[0].args[0], "last")]
        return [(a.args[0].args[0], f"at {short(a.args[1])}")]
    return None


def collect(m):
    """complete elements out of pieces"""
    m = list(m)
    out = []
    for e in {x for x, _ in m}:
        ks = sorted(k for x, k in m if x is e)
        while "all" in ks:
            ks.remove("all")
            out.append((e, "all"))
        for pair in (("first", "rest"), ("last", "most")):
            while all(q in ks for q in pair):
                for q in pair:
                    ks.remove(q)
                out.append((e, "all"))
        out += [(e, k) for k in ks]
    return sorted(out, key=lambda q: (q[0].n, q[1]))


def expect_pair(t, C, eps):
    """pair of multi-indices of E[D^a eps D^b eps]"""
    if not gcall(t, "Expectation") or len(t.args[1]) != 1:
        return None
    return product_pair(t.args[1][0], C, eps)


def product_pair(t, C, eps):
    p = TT.to_poly(t)
    if len(p) != 1:
        return None
    (mono, k), = p.items()
    fs = []
    for b, e in mono[0]:
        o = orders_of(b, C, eps)
        if o is None or e not in (1, 2):
            return None
        fs += [o] * int(e)
    return fs if k == 1 and len(fs) == 2 and not mono[1] else None


def tree(ctx, rep):
    c = ctx.cls("UnivariateTree")
    me = mk("self", c.qual)
    f = ctx.method("UnivariateTree", "__call__")
    eps, C, TREE, LEV, DEG = (mk("attr", me, n) for n in ("epsilon", "spatial_coordinates", "_tree", "_levels", "_degree"))
    degree = mk("param", "degree")
    given = (not_(N.is_(degree, NONE)),)
    I = ctx.interp(opaque={"all_of_degree", "new"})
    v, s = I.run_function(f, self_obj=me, st=State({}).assume(given[0]))
    ctx.visited |= I.visited
    ss = mk("truth", mk("attr", me, "_self_substitute"))
    init = ctx.method("UnivariateTree", "__init__")
    dflt = {a.arg: d for a, d in zip(init.node.args.args[::-1], init.node.args.defaults[::-1])}
    levels = [e for e in I.effects if e.kind == "sub" and isinstance(e.target, T) and I.fz(e.target, s) is LEV]
    stores = [e for e in I.effects if e.kind == "sub" and isinstance(e.target, T) and I.fz(e.target, s) is TREE]
    where = f.where
    if len(levels) != 1:
        rep.unsure("tree", "level", where, f"{len(levels)} stores of levels")
        return
    e = levels[0]
    where = e.where
    d = N.specialise(I.fz(e.key, s), given)
    content = N.specialise(I.fz(e.value, s), given)
    fl = list(parts_flat(content.args[1])) if content.op == "coll" else []
    if len(fl) != 1 or fl[0][0].op != "kv":
        if not any(mcall(x, "subs", "xreplace") and TREE in x.args[1] for q in stores + levels for x in walk(N.specialise(I.fz(q.value, s), (ss,)))):
            rep.bad("tree", "substituted", where, "the terms of lower degree, that are in the tree, are not replaced in the values")
        rep.unsure("tree", "level", where, short(content))
        return
    (kv, gs, ixs) = fl[0]
    term, value = kv.args
    pair = expect_pair(term, C, eps)
    if pair is None or any(len(collect(m)) != 1 or collect(m)[0][1] != "all" for m in pair):
        rep.unsure("tree", "terms", where, f"term replaced: {short(term)}")
        return
    els = [collect(m)[0][0] for m in pair]
    degs = [x.args[0].args[1][1] for x in els]
    cs = all(x.args[0].args[1][0] is C for x in els)
    rest = [i for i in ixs if not any(x.args[1] is i for x in els)]
    every = cs and all(x.args[1] in ixs and x.args[1].args[0] is len_(x.args[0]) for x in els) and els[0] is not els[1] and not gs
    rep.check("tree", "terms:all", where, True if every else (False if all(understood(g, ()) for g in gs) else None),
              f"every pair of multi-indices of the degrees {[short(q) for q in degs]}" + (f" under {[short(g) for g in gs]}" if gs else ""))
    # |alpha| + |beta| = degree ; 1 <= |alpha| <= degree // 2
    tot = add(degs[0], degs[1])
    rep.check("tree", "terms:degree", where, True if tot is d else (False if understood(tot, ()) and understood(d, ()) else None),
              f"|alpha| + |beta| = {short(tot)} for the level {short(d)}")
    rng = None
    if len(rest) == 1:
        i = rest[0]
        for a, b in ((degs[0], degs[1]), (degs[1], degs[0])):
            lo = numval(nsub(a, i))
            if lo is not None:
                n = i.args[0]
                half = mk("floordiv", d, num(2))
                if lo == 1 and n in (half, d, nsub(d, num(1))):
                    rng = n is half or None
                    small, big = a, b
                    break
                if understood(n, ()):
                    rng = False
                    small, big = a, b
        if rng is None and not any(numval(nsub(q, i)) is not None for q in degs) and \
                any(has_term(q, i) and not has_term(add(q, i), i) and understood(q, ()) for q in degs):
            # the smallest degree decreases: the terms of lower degree come after
            rng = False
        detail = f"{short(degs[0])}, {short(degs[1])} for {short(i.args[0])} values"
    else:
        detail = f"loops {[short(q) for q in rest]}"
    rep.check("tree", "terms:range", where, rng, f"|alpha| from 1 to degree // 2, in increasing order: {detail}")
    # value
    val = N.specialise(value, (ss,))
    steps_done, isolated = [], None
    cur = val
    while True:
        if mcall(cur, "subs") and len(cur.args[1]) == 1:
            steps_done.append(cur.args[1][0])
            cur = cur.args[0].args[0]
        elif mcall(cur, *STAYS) and not cur.args[1]:
            cur = cur.args[0].args[0]
        else:
            break
    sd = side(cur, 1)
    rep.check("tree", "substituted", where, True if TREE in steps_done else (False if not steps_done or all(
        x.op in ("attr", "coll") for x in steps_done) else None),
        f"the terms of the value that are in the tree are replaced: {[short(x, 100) for x in steps_done]}")
    if sd is None:
        rep.unsure("tree", "identity", where, short(cur))
        return
    eqn = sd
    if mcall(eqn, "isolate") and len(eqn.args[1]) == 1:
        isolated = eqn.args[1][0]
        eqn = eqn.args[0].args[0]
    rep.check("tree", "isolated", where, True if isolated is term else (False if isolated is not None else None),
              f"solved for {short(isolated) if isolated is not None else '?'}; key {short(term)}")
    while mcall(eqn, *STAYS) and not eqn.args[1]:
        eqn = eqn.args[0].args[0]
    if not gcall(eqn, "Eq", "Equation") or len(eqn.args[1]) != 2:
        rep.unsure("tree", "identity", where, short(eqn))
        return
    a, b = eqn.args[1]
    ea, eb = (x.args[1][0] if gcall(x, "Expectation") else None for x in (a, b))
    ok = None
    if ea is not None and eb is not None:
        plain = [x for x in (ea, eb) if gcall(x, "Derivative") or mcall(x, "diff")]
        done = [x for x in (ea, eb) if mcall(x, "doit")]
        if len(done) == 1 and done[0].args[0].args[0] in (ea, eb):
            P = done[0].args[0].args[0]
            if gcall(P, "Derivative"):
                body, by = P.args[1][0], P.args[1][1:]
                pr = product_pair(body, C, eps)
                m = [single(q) if q.op != "star" else multi(q.args[0]) for q in by]
                if pr is not None and None not in m:
                    extra = [q for x in m for q in x]
                    got = [collect(x) for x in pr]
                    # the derivative makes one of the two factors complete: D (D^sub eps D^beta eps) contains E[D^alpha D^beta]
                    full = {(e_, "all") for e_ in els}
                    combos = []
                    for q in (0, 1):
                        combos.append([collect(pr[q] + extra), collect(pr[1 - q])])
                    tgt = [[(els[0], "all")], [(els[1], "all")]]
                    hit = [sorted(z, key=repr) == sorted(tgt, key=repr) for z in combos]
                    ok = any(hit) and len(extra) == 1
                    # lowered multi-index must be the one of smallest degree
                    if ok and len(rest) == 1 and rng:
                        lowered = [x for x in got if len(x) == 1 and x[0][1] in ("rest", "most")]
                        if lowered:
                            ok = lowered[0][0][0].args[0].args[1][1] is small
    rep.check("tree", "identity", where, ok, f"E[D_c(D^sub eps D^beta eps)] = E[developed], c and sub being the parts of alpha: {short(a, 200)} = {short(b, 100)}")
    # the value enters the tree itself under the same key
    if stores:
        st = stores[0]
        k2, v2 = (N.specialise(N.specialise(I.fz(x, s), given), (ss,)) for x in (st.key, st.value))
        rep.check("tree", "kept", st.where, True if k2 is term and v2 is N.specialise(value, (ss,)) and not st.pc[len(e.pc):] else
                  (False if k2 is not term else None), f"tree[{short(k2, 100)}]")
    else:
        upd = [x for x in I.effects if x.kind == "mut" and I.fz(x.target, s) is TREE]
        rep.check("tree", "kept", where, None if upd else False, "terms are not added in the tree")


# ------------------------------------------------------------------ multi-indices
def vec(t, I, depth=0):
    """sparse vector {position: value} (0 elsewhere)"""
    if depth > 12:
        return None
    if t.op == "call" and gcall(t, "zeros", "zeros_like"):
        return {}
    if t.op == "coll" and t.args[0] in ("list", "tuple"):
        if len(t.args[1]) == 1 and t.args[1][0].op == "splat":
            return vec(t.args[1][0].args[0], I, depth + 1)
        if len(t.args[1]) == 1 and t.args[1][0].op == "for" and t.args[1][0].args[1] == (num(0),):
            return {}
        if len(t.args[1]) == 1 and t.args[1][0].op == "for" and len(t.args[1][0].args[1]) == 1:
            i, (x,) = t.args[1][0].args
            while x.op == "int":
                x = x.args[0]
            if x.op == "sub" and x.args[1] is i:
                return vec(x.args[0], I, depth + 1)
        return None
    if gcall(t, "asarray", "array", "tuple", "list", "copy") and t.args[1]:
        return vec(t.args[1][0], I, depth + 1)
    if mcall(t, "copy", "astype", "tolist"):
        return vec(t.args[0].args[0], I, depth + 1)
    if t.op == "setitem":
        b = vec(t.args[0], I, depth + 1)
        if b is None or b == "changes":
            return b
        b = dict(b)
        b[t.args[1]] = t.args[2]
        return {k: v for k, v in b.items() if v is not num(0)}
    if t.op == "carry":
        # unchanged by an iteration ?
        nx = I.nexts.get(t)
        i0 = vec(t.args[1], I, depth + 1)
        if nx is None or i0 is None or i0 == "changes":
            return i0
        hold = mk("param", "«vector»")
        n2 = subst(nx, {t: hold})
        w, pos = n2, set()
        sets = []
        while w.op == "setitem" or gcall(w, "asarray", "copy") or w.op == "coll":
            if w.op == "setitem":
                sets.append((w.args[1], w.args[2]))
                w = w.args[0]
            elif w.op == "coll":
                if len(w.args[1]) == 1 and w.args[1][0].op == "splat":
                    w = w.args[1][0].args[0]
                else:
                    return None
            else:
                w = w.args[1][0]
        if w is not hold:
            return None
        final = {}
        for p_, val in sets:      # outermost first
            final.setdefault(p_, val)
        same = all(val is i0.get(p_, num(0)) for p_, val in final.items())
        return i0 if same else "changes"
    return None


def apart(a, b):
    """are the two positions certainly different?"""
    for x, y in ((a, b), (b, a)):
        d = TT.to_poly(nsub(x, y))
        k = d.get(((), ()), 0)
        if k > 0 and all(c > 0 and all(q.op == "ix" for q, e in m[0]) and not m[1] for m, c in d.items() if m != ((), ())):
            return True
    return False


def plain(t):
    while True:
        if gcall(t, "asarray", "array", "list", "tuple", "copy") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "coll" and len(t.args[1]) == 1 and t.args[1][0].op == "splat":
            t = t.args[1][0].args[0]
        elif mcall(t, "copy"):
            t = t.args[0].args[0]
        else:
            return t


def read(t, pos):
    t = plain(t)
    while t.op == "setitem":
        if t.args[1] is pos:
            return t.args[2]
        if not apart(t.args[1], pos):
            return None
        t = plain(t.args[0])
    return sub_(t, pos)


def relative(t, base):
    """{position: change} when the vector is made from base by assignments"""
    t = plain(t)
    if t.op != "setitem":
        return None
    b = relative(t.args[0], base) if plain(t.args[0]).op == "setitem" else ({} if plain(t.args[0]) is base else None)
    if b is None:
        return None

    def f(x):
        if x.op == "sub":
            r = read(x.args[0], x.args[1])
            return x if r is None else r
        return x
    d = nsub(rewrite(t.args[2], f), sub_(base, t.args[1]))
    b = dict(b)
    b[t.args[1]] = d
    return {k: v for k, v in b.items() if v is not num(0)}


ITERTOOLS = {"product": itertools.product, "combinations_with_replacement": itertools.combinations_with_replacement,
             "combinations": itertools.combinations, "permutations": itertools.permutations}


def any_itertools(ctx):
    f = ctx.method("PartialOrderDerivative", "all_of_degree")
    return any(k in ast.dump(f.node) for k in ITERTOOLS)


def enumeration_small(ctx, rep):
    """the enumeration written with itertools, listed for a few numbers of coordinates and degrees (nothing else in it depends on
    these two numbers)"""
    f = ctx.method("PartialOrderDerivative", "all_of_degree")
    ps = [a.arg for a in f.node.args.args]
    co, order = mk("param", "coordinates"), mk("param", "derivative_order")
    I = ctx.interp(opaque={"PartialOrderDerivative", "__init__", "_builder"})
    v, s = I.run_function(f, dict(zip(ps[1:] if f.is_class else ps, (co, order))))
    v = I.fz(v, s)

    def hook(t, env, S):
        if gcall(t, *ITERTOOLS) and t.args[0].args[0].startswith("itertools."):
            nm = t.args[0].args[0]
            kw = {k: int(S.number(x, env)) for k, x in t.args[2]}
            a = [S.val(x, env) for x in t.args[1]]
            return [list(x) for x in ITERTOOLS[nm.split(".")[1]](*[list(x) if isinstance(x, (list, tuple)) else x for x in a], **kw)]
        if mcall(t, "count") and len(t.args[1]) == 1:
            o, x = S.val(t.args[0].args[0], env), S.val(t.args[1][0], env)
            if isinstance(o, list):
                return sum(1 for y in o if S.equal(x, y))
        if t.op == "obj" and str(t.args[0]).endswith("PartialOrderDerivative") or gcall(t, "PartialOrderDerivative"):
            a = t.args[1]
            C = S.val(co, env)
            m = S.val(a[1], env) if len(a) == 2 and a[0] is co else None
            if isinstance(m, list) and len(m) == len(C) and all(isinstance(x, int) for x in m):
                return Sym("multi", tuple(m))
            if isinstance(m, list) and all(x in C for x in m):
                return Sym("multi", tuple(sum(1 for x in m if x is c) for c in C))
            raise Unknown(f"multi-index {m}"[:100])
        return NotImplemented
    out = []
    for n in (1, 2, 3):
        C = [Sym("x", k) for k in range(n)]
        for d in range(5):
            try:
                got = Shape(hook, I.nexts).val(v, {co: C, order: d})
                if not isinstance(got, list) or not all(isinstance(x, Sym) and x.kind == "multi" for x in got):
                    return False
            except Unknown as e:
                return False
            except Raised as e:
                out.append((n, d, f"raises {e}"))
                continue
            got = sorted(x.data[0] for x in got)
            want = sorted(a for a in itertools.product(range(d + 1), repeat=n) if sum(a) == d)
            out.append((n, d, got == want or f"{got} in place of {want}"[:300]))
    for n, d, ok in out:
        rep.check("orders", f"{n} coordinates, degree {d}", f.where, ok is True, "" if ok is True else ok)
    return True


def enumeration(ctx, rep):
    f = ctx.method("PartialOrderDerivative", "all_of_degree")
    ps = [a.arg for a in f.node.args.args]
    co, order = mk("param", "coordinates"), mk("param", "derivative_order")
    I = ctx.interp(opaque={"PartialOrderDerivative", "__init__"})
    args = dict(zip(ps[1:] if f.is_class else ps, (co, order)))
    v, s = I.run_function(f, args)
    v = I.fz(v, s)
    ctx.visited |= I.visited
    where = f.where
    fl = list(parts_flat(v.args[1])) if v.op == "coll" else []
    why = short(v, 300)
    if len(fl) != 1 or len(fl[0][2]) != 2 or fl[0][1]:
        rep.notes.append(f"orders:enumeration not decided: {why}")
        return
    p, _, (g, k) = fl[0]
    if not (p.op in ("call", "obj") and (gcall(p, "PartialOrderDerivative") or p.op == "obj") and len(p.args[1]) == 2 or
            p.op == "call" and len(p.args[1]) == 2):
        rep.notes.append(f"orders:enumeration not decided: {why}")
        return
    m = p.args[1][1]
    # the element of the generation
    src = m
    while True:
        if src.op == "coll" and len(src.args[1]) == 1:
            q = src.args[1][0]
            if q.op == "splat":
                src = q.args[0]
                continue
            if q.op == "for" and len(q.args[1]) == 1:
                x = q.args[1][0]
                while x.op == "int":
                    x = x.args[0]
                if x.op == "sub" and x.args[1] is q.args[0]:
                    src = x.args[0]
                    continue
        break
    if not (src.op == "sub" and src.args[1] is k and src.args[0].op == "carry" and k.args[0] is len_(src.args[0])):
        rep.notes.append(f"orders:enumeration not decided: {why}")
        return
    gen = src.args[0]
    n = g.args[0]
    rep.check("orders", "generations", where, True if n is add(order, num(1)) else (False if understood(n, ()) else None),
              f"{short(n)} generations of multi-indices (0..order units moved from the first coordinate)")
    start = gen.args[1]
    s0 = vec(start.args[1][0], I) if start.op == "coll" and len(start.args[1]) == 1 else None
    rep.check("orders", "first generation", where, True if s0 == {num(0): order} else (False if isinstance(s0, dict) else None),
              f"{ {short(a): short(b) for a, b in s0.items()} if isinstance(s0, dict) else short(start)}")
    nx = I.nexts.get(gen)
    nf = list(parts_flat(nx.args[1])) if nx is not None and nx.op == "coll" else []
    if len(nf) != 1 or len(nf[0][2]) != 2:
        rep.unsure("orders", "next generation", where, short(nx) if nx is not None else "?")
        return
    son, gs, (kk, mv) = nf[0]
    if son.op == "coll" and len(son.args[1]) == 1 and son.args[1][0].op == "splat":
        son = son.args[1][0].args[0]
    father, tot, bad = 0, {}, False
    rel = relative(son, sub_(gen, kk))
    if rel is not None:
        father, tot = 1, rel
    for (mono, c) in TT.to_poly(son).items() if rel is None else ():
        at = [b for b, e in mono[0]]
        if len(at) != 1:
            bad = True
            break
        x = at[0]
        while gcall(x, "asarray", "array") or x.op == "coll" and len(x.args[1]) == 1 and x.args[1][0].op == "splat":
            x = x.args[1][0] if x.op == "call" else x.args[1][0].args[0]
        if x.op == "sub" and x.args[0] is gen and x.args[1] is kk:
            father += c
            continue
        w = vec(x, I)
        if w == "changes":
            tot = "changes"
            break
        if w is None:
            bad = True
            break
        for a, b in w.items():
            tot[a] = add(tot.get(a, num(0)), mul(num(c), b))
    n1 = nsub(len_(co), num(1))
    if bad:
        rep.unsure("orders", "next generation", where, short(son))
    else:
        want = {num(0): num(-1), add(mv, num(1)): num(1)}
        rep.check("orders", "next generation", where, tot == want and father == 1,
                  f"father + { {short(a): short(b) for a, b in tot.items()} if isinstance(tot, dict) else 'a vector that changes from one move to the other'}; "
                  f"one unit goes from the first coordinate to another one")
    allm = mv.args[0] is n1 and kk.args[0] is len_(gen) and not gs
    rep.check("orders", "moves", where, True if allm else (False if understood(mv.args[0], ()) and all(understood(q, ()) for q in gs) else None),
              f"{short(mv.args[0])} moves of each of the {short(kk.args[0], 60)} fathers")


def univariate(ctx, rep):
    """degree of a term E[D^a eps D^b eps]: number of derivatives"""
    f = ctx.method("UnivariateTerm", "is_univariate")
    I = ctx.interp(opaque={"UnivariateTerm"})
    term = mk("param", "term")
    ps = [a.arg for a in f.node.args.args]
    v, s = I.run_function(f, {ps[1] if f.is_class else ps[0]: term})
    v = I.fz(v, s)
    ctx.visited |= I.visited
    init = ctx.method("UnivariateTerm", "__init__")
    names = [a.arg for a in init.node.args.args][1:]
    ds = [x for x in walk(v) if mcall(x, "atoms") and x.args[0].args[0] is term]
    if not ds:
        rep.unsure("degree", "derivatives", f.where, short(v))
        return
    D = ds[0]
    made = [x for x in walk(v) if x.op in ("call", "obj") and (x.op == "obj" and x.args[0].endswith("UnivariateTerm") or
                                                            x.op == "call" and (gcall(x, "UnivariateTerm") or x.args[0].op == "param" and x.args[0].args[0] == "cls"))]
    for x in made:
        dc = dict(zip(names, x.args[1]))
        dc.update(dict(x.args[2]))
        # which one is the first of the derivatives does not matter here
        def same(q):
            """the derivatives, in any order"""
            if q.op == "coll" and len(q.args[1]) == 1 and q.args[1][0].op == "splat" and q.args[1][0].args[0] is D:
                return D
            return q.args[0] if q.op in ("sortedT", "reversedT") and q.args[0] is D else q
        dc = {k: rewrite(y, same) for k, y in dc.items()}
        deg = dc.get("degree")
        a, b = dc.get("alpha"), dc.get("beta")
        if deg is None or a is None or b is None:
            rep.unsure("degree", short(x, 60), f.where, short(x))
            continue

        def cnt(y):
            """number of derivatives of a multi-index taken from a derivative"""
            if numval(y) == 0:
                return num(0)
            if y.op == "sub" and y.args[1].op == "slice" and y.args[0].op == "attr" and y.args[0].args[1] == "args":
                return mk("attr", y.args[0].args[0], "derivative_count")
            return None
        ca, cb = cnt(a), cnt(b)
        inst = "two derivatives" if ca is not cb and numval(ca) != 0 and ca is not None else ("square" if ca is cb else "one derivative")
        if ca is None or cb is None:
            whole = [y for y in (a, b) if y.op == "attr" and y.args[1] == "args"]
            if whole:
                rep.check("degree", inst, f.where, False, f"the differentiated function is taken as a coordinate: {short(x)}")
            else:
                rep.unsure("degree", inst, f.where, short(x))
            continue
        want = add(ca, cb)
        ok = deg is want
        if not ok and deg.op == "sumover" and deg.args[0].args[0] is len_(D) and deg.args[1] is mk("attr", sub_(D, deg.args[0]), "derivative_count"):
            # over all the derivatives: the two of the term
            ok = {ca, cb} == {mk("attr", sub_(D, num(0)), "derivative_count"), mk("attr", sub_(D, num(1)), "derivative_count")}
        rep.check("degree", inst, f.where, True if ok else (False if understood(deg, ("atoms", "pop")) else None),
                  f"degree {short(deg)}, alpha {short(a, 80)}, beta {short(b, 80)}")


def run(ctx, rep, tier):
    rep.rule("facts", "each relation of the closure is the exact consequence of E[eps^2] = 1 and of the definition of the metric", 8)
    rep.rule("known", "every relation is given, for all the coordinates", 7)
    rep.rule("couples", "products of the errors of two functions are replaced by their covariance, scaled for normalised errors", 5)
    rep.rule("label", "two couples of functions have two covariance labels", 1)
    rep.rule("tree", "a term E[D^a eps D^b eps] is replaced using the derivative of E[D^sub eps D^b eps], for every pair of the degree", 7)
    rep.rule("orders", "enumeration of the multi-indices of a degree", 4)
    rep.rule("conversion", "the descriptions of a multi-index (orders, couples, sequence, degree) are those of its label", 100)
    rep.rule("equality", "multi-indices are equal exactly when their coordinates and orders are; a copy or a change of orders keeps the coordinates", 30)
    rep.rule("degree", "degree of a term is its total number of derivatives", 3)
    closure_facts(ctx, rep)
    helpers(ctx, rep)
    couples(ctx, rep)
    label(ctx, rep)
    tree(ctx, rep)
    if not any_itertools(ctx) or not enumeration_small(ctx, rep):
        enumeration(ctx, rep)
    conversions(ctx, rep, "conversion")
    equality(ctx, rep, "equality")
    univariate(ctx, rep)
