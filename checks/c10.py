"""C10: the classes of symbols and functions of a system of equations (set algebra over membership formulas)."""
from .base import *
from .setalg import member, set_equal, atom, in_nodes, is_a, exists, ELT, cname

ATTRS = ("functions", "prognostic_functions", "constant_functions", "exogenous_functions", "coordinates",
         "spatial_coordinates", "time_coordinate", "trainable_scalars", "constants", "spatial_derivatives",
         "derivative_max_order")


class Sys:
    """attributes of a system at the end of its construction from a list / from a single equation"""

    def __init__(self, ctx, is_list):
        self.c = ctx.cls("PDESystem")
        self.f = ctx.method("PDESystem", "__init__")
        self.me = mk("self", self.c.qual)
        p = [a.arg for a in self.f.node.args.args][1]
        self.eqs = mk("param", p)
        L = mk("isinstance", self.eqs, mk("global", "builtins.list"))
        I = ctx.interp()
        st = State({}).assume(L if is_list else not_(L))
        self.F = {L if is_list else not_(L)}
        _, s = I.run_function(self.f, self_obj=self.me, st=st)
        ctx.visited |= I.visited
        self.I = I
        self.attr, self.raw = {}, {}
        for a in ("equations",) + ATTRS:
            t = s.attrs.get((self.me, a))
            if t is None:
                raise AnalysisBroken(f"PDESystem has no attribute {a} after its construction")
            self.raw[a] = eq_sides(N.specialise(I.fz(t, s), self.F))
        rep = {}
        for a in ATTRS:
            v = self.raw[a]
            self.attr[a] = subst(v, rep) if rep else v
            v2 = self.attr[a]
            for key in (v, v2):
                if key.op not in ("num", "str", "none", "bool", "true", "false"):
                    rep[key] = mk("attr", self.me, a)
        self.rep = rep

    def ref(self, a):
        return mk("attr", self.me, a)


def quantified(eqs, f):
    """exists equation of eqs: f(equation)"""
    from engine.terms import mk as _mk
    ix = _mk("ix", len_(eqs), 0)
    return exists(ix, f(sub_(eqs, ix)))


VOC = ("atoms", "difference", "union", "intersection", "symmetric_difference", "copy", "set", "frozenset", "sorted",
       "default_sort_key", "issubset", "has", "isinstance", "update", "list", "tuple")


def run(ctx, rep, tier):
    rep.rule("equations", "the equations are those given, in order; iteration and indexing deliver them", 4)
    rep.rule("classes", "each class of functions, symbols and derivatives contains all and only the elements of its definition", 6)
    rep.rule("partition", "prognostic, constant and exogenous functions are disjoint and cover all the functions", 2)
    rep.rule("prognostic", "prognostic functions are those under a time derivative, equation after equation", 3)
    rep.rule("coordinates", "coordinates are those of the prognostic functions, time first, the others are spatial", 4)
    S = Sys(ctx, True)
    w = S.f.where
    rep.saw(S.f.qual)
    eqs = S.eqs
    rep.check("equations", "list", w, S.raw["equations"] is eqs or None if S.raw["equations"].op != "coll" else
              S.raw["equations"] is coll("list", mk("splat", eqs)), short(S.raw["equations"]))
    S1 = Sys(ctx, False)
    v = S1.raw["equations"]
    rep.check("equations", "single", w, v is coll("list", eqs) or (False if v.op in ("coll", "param") else None), short(v))
    base = mk("attr", S.me, "equations")
    for m in ("__iter__", "__getitem__"):
        f = ctx.method("PDESystem", m)
        I, v, s = ctx.run_method("PDESystem", m)
        if m == "__iter__":
            ok = v in (coll("list", mk("splat", base)), base) or v.op == "iterobj" and v.args[0] is base and v.args[1] in (0, num(0)) or (v.op == "call" and cname(v.args[0]) == "iter" and v.args[1] == (base,))
        else:
            ok = v is sub_(base, mk("param", f.node.args.args[1].arg))
        rep.check("equations", m, f.where, ok or (False if understood(v) else None), short(v))

    T_ = mk("sym", "t")
    time_name = None

    # classes -----------------------------------------------------------
    def q(test):
        ix = mk("ix", len_(eqs), 0)
        return exists(ix, test(sub_(eqs, ix)))

    def level_free(f):
        """rename the loop indices of quantified tests"""
        return f
    rhs = lambda e: sub_(mk("attr", e, "args"), num(1))

    def compare(name, expect, axioms=(), rid="classes", what=None):
        v = S.attr[name]
        got = norm_form(member(v), S)
        ok = set_equal(got, norm_form(expect, S), axioms)
        if ok is not True:
            ok = set_equal(got, norm_form(expect, S), list(axioms) + expansions(S, name), limit=14) or ok
        if ok is not True and not understood_formula(got):
            # a test of the name or of the assumptions of the elements which decides: no class is defined by them
            ats = []
            prop_atoms(got, ats)
            ok = False if any(by_name(a) and set_equal(psub_all(got, a, TRUE), psub_all(got, a, FALSE)) is not True for a in ats) else None
        rep.check(rid, what or name, w, ok, f"{short(v, 500)}  gives  {short(got, 500)}")
        return got
    allf = and_(is_a("Function"), q(lambda e: in_nodes(e)))
    compare("functions", allf)
    F_, P_, K_ = [atom("in", ELT, S.ref(a)) for a in ("functions", "prognostic_functions", "constant_functions")]
    prog_ax = [or_(not_(P_), F_)]
    notime = not_(mk("timed", ELT))
    fK = compare("constant_functions", and_(F_, not_(P_), notime), prog_ax)
    fX = compare("exogenous_functions", and_(F_, not_(P_), not_(notime)), prog_ax + [
        or_(not_(K_), and_(F_, not_(P_), notime)), or_(K_, not_(and_(F_, not_(P_), notime)))])
    X_ = atom("in", ELT, S.ref("exogenous_functions"))
    defs = [or_(not_(K_), fK), or_(K_, not_(fK)), or_(not_(X_), fX), or_(X_, not_(fX))] + prog_ax
    ok = set_equal(or_(P_, K_, X_), F_, defs, limit=14) or \
        set_equal(or_(P_, K_, X_), F_, defs + expansions(S, "constant_functions"), limit=16)
    und = understood_formula(fK) and understood_formula(fX)
    rep.check("partition", "cover", w, ok if ok or und else None, "union of the three classes against all functions")
    two = or_(and_(P_, K_), and_(P_, X_), and_(K_, X_))
    ok = set_equal(two, FALSE, defs, limit=14) or set_equal(two, FALSE, defs + expansions(S, "constant_functions"), limit=16)
    rep.check("partition", "disjoint", w, ok if ok or und else None, "intersection of two classes")

    node_rhs = q(lambda e: in_nodes(rhs(e)))
    C_ = atom("in", ELT, S.ref("coordinates"))
    compare("trainable_scalars", and_(node_rhs, is_a("TrainableScalar")))
    tr = and_(node_rhs, is_a("TrainableScalar"))
    Ts = atom("in", ELT, S.ref("trainable_scalars"))
    compare("constants", and_(node_rhs, is_a("Symbol"), not_(C_), not_(is_a("TrainableScalar"))),
            [or_(not_(Ts), tr), or_(Ts, not_(tr))])
    compare("spatial_derivatives", and_(node_rhs, is_a("Derivative")))
    v = S.attr["derivative_max_order"]
    sd = S.ref("spatial_derivatives")
    ok = None
    leafs = [x for x in walk(v) if x.op == "attr" and x.args[1] in ("derivative_count", "variable_count")]
    if leafs and any(y.op in ("maxof", "maxover", "max") for y in walk(v)):
        ok = True
        if any(y.op in ("minof", "minover") for y in walk(v)):
            ok = False
        # the order of a mixed derivative is the sum of the orders in its coordinates
        vc = [x for x in leafs if x.args[1] == "variable_count"]
        if len(vc) == len(leafs):
            sums = [y for y in walk(v) if y.op in ("sumover", "sumof", "sum") or gcall(y, "sum")]
            if not sums:
                ok = False if understood(v, VOC) else None
        if v.op == "poly" and dict(v.args[0]).get(((), ()), 0) < 0:
            ok = False
    elif understood(v, VOC) and not any("max" in y.op for y in walk(v)):
        ok = False
    rep.check("classes", "derivative_max_order", w, ok, short(v))

    # prognostic functions -------------------------------------------------
    v = S.raw["prognostic_functions"]
    if v.op == "coll" and len(v.args[1]) == 1 and v.args[1][0].op == "splat":
        # the same ones, once
        w_ = v.args[1][0].args[0]
        if w_.op == "call" and cname(w_.args[0]) == "fromkeys" or gcall(w_, "fromkeys") or \
                w_.op == "call" and w_.args[0].op == "attr" and w_.args[0].args[1] == "fromkeys":
            v = w_.args[1][0]
    if v.op == "coll":
        lv = list(parts_flat(v.args[1]))
        good = None
        outer = None
        if len(lv) == 1 and len(lv[0][2]) == 2:
            x, g, (i, j) = lv[0]
            # the derivative: the element of the inner loop
            ds = [y for y in walk(x) if y.op == "sub" and y.args[1] is j and not has_term(y.args[0], j)]
            d = ds[0] if ds else None
            if d is not None:
                src = d.args[0].args[0] if d.args[0].op == "sortedT" else d.args[0]
                g = list(g)
                while src.op == "coll":
                    # selected elements of another collection
                    inner = list(parts_flat(src.args[1]))
                    if len(inner) != 1 or len(inner[0][2]) != 1 or inner[0][0].op != "sub" or inner[0][0].args[1] is not inner[0][2][0]:
                        break
                    src = inner[0][0].args[0]
                    g += [subst(y, {inner[0][0]: d}) for y in inner[0][1]]
                    src = src.args[0] if src.op == "sortedT" else src
                eqi = sub_(eqs, i)
                f_src = member(src)
                good_src = set_equal(f_src, and_(in_nodes(eqi), is_a("Derivative"))) or \
                    set_equal(f_src, and_(in_nodes(sub_(mk("attr", eqi, "args"), num(0))), is_a("Derivative")))
                rep.check("prognostic", "all-equations", w,
                          (i.args[0] is len_(eqs) and bool(good_src)) or (False if understood(src, VOC) else None),
                          f"for each equation of the system, every derivative: {short(src)}")
                fn = x in (sub_(mk("attr", d, "args"), num(0)), mk("attr", d, "expr"))
                rep.check("prognostic", "function", w, fn or (False if understood(x, VOC) else None), short(x))
                ok = None
                if len(g) == 1:
                    ok = time_guard(g[0], d, S)
                elif not g:
                    ok = False
                rep.check("prognostic", "time-derivative", w, ok, f"guard {[short(y) for y in g]}")
                good = True
        if good is None:
            rep.check("prognostic", "all-equations", w, False if understood(v, VOC) and all(
                len(y[2]) < 2 for y in lv) else None, short(v))
    else:
        rep.unsure("prognostic", "all-equations", w, short(v))

    # coordinates --------------------------------------------------------------
    v = S.attr["coordinates"]
    ok = coordinates_rule(ctx, rep, S)
    c = S.ref("coordinates")
    v = S.attr["spatial_coordinates"]
    ok = v is sub_(c, N.slice_(num(1), NONE, NONE))
    if not ok and v.op == "coll":
        fm = member(v)
        ok = bool(set_equal(fm, and_(C_, not_(eq_(ELT, sub_(c, num(0))))))) or fm.op == "and" and "sym" in repr(fm)
    rep.check("coordinates", "spatial", w, ok or (False if understood(v, VOC) else None), short(v))
    v = S.attr["time_coordinate"]
    rep.check("coordinates", "time", w, v is sub_(c, num(0)) or (v.op == "sym" or None) if not understood(v) else
              (v is sub_(c, num(0)) or v.op == "sym"), short(v))
    rs = [e for e in S.I.effects if e.kind == "raise"]
    tests = {subst(p, S.rep) for e in rs for p in e.pc}
    ok = any(y.op == "not" and y.args[0].op == "eq" and any(z.op == "sym" for z in y.args[0].args) and
             (sub_(c, num(0)) in y.args[0].args or S.ref("time_coordinate") in y.args[0].args) for y in tests)
    rep.check("coordinates", "time-first", w, ok or None, f"refused when the first coordinate is not time: {[short(y) for y in tests]}")
    if any(i["verdict"] == "violated" for i in rep.items):
        rep.floors = {}


def time_guard(g, d, S):
    """is g  'time is one of the differentiation variables'"""
    neg_ = g.op == "not"
    y = g.args[0] if neg_ else g
    s = repr(y)
    if not any(z.op == "sym" for z in walk(y)):
        return None
    if d not in set(walk(y)):
        return None
    if y.op not in ("in", "eq", "truth"):
        return None
    # the variables of the derivative, not its expression
    if any(z is mk("attr", d, "expr") or z is sub_(mk("attr", d, "args"), num(0)) for z in walk(y)):
        return False
    return not neg_


def expansions(S, but):
    out = []
    for a in ("functions", "prognostic_functions", "constant_functions", "trainable_scalars"):
        if a != but:
            x, y = atom("in", ELT, S.ref(a)), norm_form(member(S.raw[a]), S)
            out += [or_(not_(x), y), or_(x, not_(y))]
    return out


def coordinates_rule(ctx, rep, S):
    f = ctx.method("PDESystem", "_get_coordinates") if ctx.pkg.find_method(S.c, "_get_coordinates") else S.f
    v = S.attr["coordinates"]
    w = f.where
    if f is not S.f:
        I, v, s = ctx.run_method("PDESystem", "_get_coordinates")
        pf = mk("attr", S.me, "prognostic_functions")
        ok = None
        if v.op == "fold":
            i, c, init, nxt = v.args[:4]
            a = mk("attr", sub_(pf, i), "args")
            longer = N.compare("Gt", len_(a), len_(c))
            longer_eq = N.compare("GtE", len_(a), len_(c))
            if i.args[0] is len_(pf) and nxt in (phi(longer, a, c), phi(longer_eq, a, c)):
                ok = True
            elif i.args[0] is len_(pf) and nxt.op == "phi" and {nxt.args[1], nxt.args[2]} == {a, c}:
                ok = False
        elif v.op == "coll" and understood(v, VOC):
            ok = False
        elif any(y.op in ("maxover", "maxof", "argmax") or gcall(y, "max") for y in walk(v)) and "args" in repr(v):
            ok = True
        elif v.op == "attr" and v.args[1] == "args" and v.args[0].op == "sub":
            ok = False
        rep.check("coordinates", "longest-arguments", w, ok, short(v))
        return ok
    rep.unsure("coordinates", "longest-arguments", w, short(v))


def norm_form(f, S):
    """time tests of an element: 'time among the symbols of its (first) argument(s)' -> timed(element)"""
    from .base import prop_atoms
    at = []
    prop_atoms(f, at)
    m = {}
    for a in at:
        if a.op == "in" and a.args[0].op == "sym" and ELT in set(walk(a.args[1])):
            src = a.args[1]
            args = mk("attr", ELT, "args")
            good = src in (args, mk("attr", ELT, "free_symbols")) or (
                src.op == "call" and src.args[0].op == "attr" and src.args[0].args[1] == "atoms" and
                src.args[0].args[0] in (sub_(args, num(0)), ELT)) or (
                src.op == "attr" and src.args[1] == "free_symbols" and src.args[0] in (sub_(args, num(0)), ELT))
            if good:
                m[a] = mk("timed", ELT)
        elif mcall(a, "has") and a.args[0].args[0] is ELT and a.args[1] and a.args[1][0].op == "sym":
            m[a] = mk("timed", ELT)
        elif a.op == "truth" and mcall(a.args[0], "has") and a.args[0].args[0].args[0] is ELT:
            m[a] = mk("timed", ELT)
        elif a.op == "holds" and a.args[0] == "node" and a.args[1].op in ("attr", "sub") and False:
            pass
    from .setalg import psub
    for a, b in m.items():
        f = psub_all(f, a, b)
    return f


def by_name(a):
    """a test of the name, or of an assumption, of the element itself"""
    return ELT in set(walk(a)) and any(
        x.op == "tostr" and x.args[0] is ELT or x.op == "attr" and x.args[0] is ELT and
        (x.args[1] in ("name", "__name__") or x.args[1] in ("is_positive", "is_real", "is_integer", "is_nonnegative", "is_negative",
                                                            "is_commutative", "is_zero", "is_finite"))
        for x in walk(a))


def psub_all(f, a, b):
    if f is a:
        return b
    if f.op in ("and", "or", "not"):
        return {"and": and_, "or": or_, "not": not_}[f.op](*[psub_all(x, a, b) for x in f.args])
    if f.op == "phi":
        return phi(*[psub_all(x, a, b) for x in f.args])
    return f


def understood_formula(f):
    at = []
    prop_atoms(f, at)
    for a in at:
        if a.op == "timed":
            continue
        if a.op == "holds":
            if a.args[0] == "in" and a.args[2].op != "attr":
                return False
            if a.args[0] == "last":
                continue
            if a.args[0] == "exists" and a.args[2].op != "holds":
                return False
            continue
        if a.op in ("eq", "in"):
            continue
        return False
    return True
