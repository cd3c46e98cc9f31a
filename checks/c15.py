"""C15: metric, diffusion and aspect tensors are the same information: g = c X^-1, dX/dt = -(1/c) X dg/dt X."""
from fractions import Fraction
from .base import *
from .repres import *
from engine.norm import eq_, lt_, in_
from .c14 import symmetric, component_trend, source_of, is_time, untrend

# documented relation of each tensor X with the metric g:  g = c X^-1
FACTOR = {"diffusion": Fraction(1, 2), "aspect": Fraction(1)}


def strip_doit(t):
    """the matrix expression without evaluation requests"""
    def f(x):
        while x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in STAYS and not x.args[1]:
            x = x.args[0].args[0]
        return x
    return rewrite(t, f)


def words(t, fld, X, c):
    """{word: coefficient} of a matrix polynomial over x (the tensor), y = x^-1, T (trend of the metric), D (trend of the
    tensor); scalar factors that are not numbers: None"""
    out = {}
    t = strip_doit(t)
    t = rewrite(t, lambda x: mk("call", mk("attr", x.args[0], "inv"), (), ()) if x.op in ("pw", "pow") and numval(x.args[1]) == -1
                and any(y.op == "attr" and y.args[0] is fld for y in TT.walk(x.args[0])) else x)
    for (comm, nc), k in TT.to_poly(t).items():
        if comm:
            return None
        w = []
        for m in nc:
            l = letter(m, fld, X)
            if l is None:
                return None
            if isinstance(l, tuple):
                k, l = k * l[1], l[0]
            if l in ("g", "G"):
                # g = c y ; g^-1 = x / c
                k = k * c if l == "g" else k / c
                l = "y" if l == "g" else "x"
            if w and {w[-1], l} == {"x", "y"}:
                w.pop()
            else:
                w.append(l)
        out["".join(w)] = out.get("".join(w), 0) + k
    return {w: k for w, k in out.items() if k}


def letter(m, fld, X):
    while m.op == "call" and m.args[0].op == "attr" and m.args[0].args[1] in STAYS:
        m = m.args[0].args[0]
    if m.op == "attr" and m.args[1] == "T" and m.args[0].op == "attr":
        m = m.args[0]            # symmetric tensors
    if m.op == "attr" and m.args[0] is fld:
        return {X: "x", "metric": "g"}.get(m.args[1])
    inv = None
    if mcall(m, "inv") and not m.args[1]:
        inv = m.args[0].args[0]
    elif m.op in ("pow", "pw") and numval(m.args[1]) == -1:
        inv = m.args[0]
    if inv is not None and inv.op == "attr" and inv.args[0] is fld:
        return {X: "y", "metric": "G"}.get(inv.args[1])
    if inv is not None:
        # inverse of a multiple
        p = TT.to_poly(inv)
        if len(p) == 1:
            ((comm, nc), k), = p.items()
            if not comm and len(nc) == 1 and letter(nc[0], fld, X) in ("x", "g", "y", "G"):
                return {"x": "y", "y": "x", "g": "G", "G": "g"}[letter(nc[0], fld, X)], 1 / k
    if mcall(m, "applyfunc", "adjugate", "cofactor_matrix", "det", "trace", "multiply_elementwise", "exp") and \
            m.args[0].args[0].op == "attr" and m.args[0].args[0].args[0] is fld:
        return f"[{m.args[0].args[1]}]"      # another matrix
    d = None
    if gcall(m, "Derivative", "diff") and len(m.args[1]) == 2 and is_time(m.args[1][1], None):
        d = m.args[1][0]
    elif mcall(m, "diff") and len(m.args[1]) == 1 and is_time(m.args[1][0], None):
        d = m.args[0].args[0]
    if d is not None and d.op == "attr" and d.args[0] is fld:
        return {X: "D", "metric": "T"}.get(d.args[1])
    return None


def comp_of(t):
    """(matrix, index key) of a component term"""
    if t.op == "sub" and gcall(t.args[0], "upper_triangle"):
        return t.args[0].args[1][0], ("ut", t.args[1])
    if t.op == "sub":
        return t.args[0], t.args[1]
    return None, None


def check_repr(ctx, rep, name):
    X = TENSOR[name]
    c = FACTOR[X]
    me, f, _, v, I, s = representation(ctx, name, True, True)
    where = f.where
    dicts = {}
    for p, gs, ixs in parts_flat(v.args[1]) if v.op == "coll" else ():
        b, steps = chain(p)
        n, _ = source_of(b, me)
        if n is None and gcall(b, "Eq", "Equation"):
            lhs, rhs = b.args[1]
            b2, st2 = chain(rhs)
            tr = component_trend(lhs, me)
            if tr is None:
                m, _ = comp_of(chain(lhs)[0])
                ws = [words(m, o, X, c) for o in {x.args[0] for x in walk(m) if x.op == "attr" and x.args[1] == X}] if m is not None else []
                rep.check("trend", f"{name}", where, False if len(ws) == 1 and ws[0] not in (None, {"D": 1}) else None,
                          f"left hand side {short(lhs)}" + (f": components of {ws[0]}, not of the time derivative of {X}" if ws else ""))
                continue
            fld = tr[0]
            m, k = comp_of(b2)
            w = words(m, fld, X, c) if m is not None else None
            want = {"xTx": -1 / c}
            rep.check("trend", f"{name}:formula", where, True if w == want else (False if w is not None else None),
                      f"trend of {X} from {w if w is not None else short(b2)}; expected {want} (T trend of the metric)")
            lk = comp_of(lhs)[1]
            if lk is None and untrend(lhs, me) is not None:
                lk = comp_of(untrend(lhs, me))[1]
                if lk is None and component(untrend(lhs, me)) is not None:
                    lk = coll("tuple", *component(untrend(lhs, me))[2])
            rep.check("trend", f"{name}:component", where, True if k == lk and k is not None else (False if k is not None and lk is not None
                                                                                                else None),
                      f"component {k} of the formula for the component {lk}")
            kinds = []
            for nm, args, kw in st2 + steps:
                if nm not in STAYS and len(args) == 1:
                    kinds.append((classify(args[0], me)[0], args[0]))
            ks = [q for q, _ in kinds]
            it = [i for i, q in enumerate(ks) if q and "trend" in q]
            im = [i for i, q in enumerate(ks) if q and "migrate" in q]
            rep.check("trend", f"{name}:replaced", where, True if it and im and it[0] < im[-1] else (None if None in ks else False),
                      f"steps {[sorted(q) if q else q for q in ks]}: the trends of the metric are replaced, then the metric")
            for q, d in kinds:
                if q and "trend" in q:
                    trend_dict(rep, name, where, d, me)
                if q and "migrate" in q:
                    dicts[d] = 1
            # nothing of the metric comes in afterwards
            if im and it:
                rep.check("trend", f"{name}:order", where, not [i for i in it if i > im[-1]], "trends replaced after the metric")
            continue
        ks = []
        for nm, args, kw in steps:
            if nm not in STAYS and len(args) == 1:
                q = classify(args[0], me)[0]
                ks.append(q)
                if q and "migrate" in q:
                    dicts[args[0]] = 1
        if n is not None:
            rep.check("migrate", f"{name}:{n}", where, True if any(q and "migrate" in q for q in ks) else (None if None in ks else False),
                      f"steps {[sorted(q) if q else q for q in ks]}: the metric terms must be replaced")
    if not dicts:
        rep.unsure("inverse", name, where, "no change of variable found")
    for d in dicts:
        inverse(rep, name, where, d, me, X, c)


def trend_dict(rep, name, where, d, me):
    S = mk("attr", me, "metric_system")
    for k, val, gs, ixs in dict_parts(d)[0]:
        a, b = side(k, 0), side(val, 1)
        if a is None:
            a, b = chain(k)[0], chain(val)[0]
            a, b = side(a, 0), side(b, 1)
        if a is None or b is None:
            rep.unsure("trend", f"{name}:trends", where, f"{short(k)}: {short(val)}")
            continue
        ba, bb = chain(a)[0], chain(b)[0]
        ok = ba is bb and len(ixs) == 1 and ba is sub_(S, ixs[0]) and ixs[0].args[0] is len_(S) and not gs
        rep.check("trend", f"{name}:trends", where, True if ok else (False if understood(ba, OPQ) and understood(bb, OPQ) else None),
                  f"{short(ba)} replaced by {short(bb)} for {[short(i.args[0]) for i in ixs]}")


def inverse(rep, name, where, d, me, X, c):
    kvs, others = dict_parts(d)
    for k, val, gs, ixs in kvs:
        if not (component(k) and component(k)[1] == "metric"):
            continue
        fld, _, idx = component(k)
        m, j = comp_of(val)
        num_ = Fraction(1)
        if m is None:
            # coefficient outside of the component
            p = TT.to_poly(val)
            if len(p) == 1:
                (mm, cf), = p.items()
                at = [b for b, e in mm[0] if e == 1] + list(mm[1])
                if len(at) == 1 and len(mm[0]) + len(mm[1]) == 1:
                    m, j = comp_of(at[0])
                    num_ = cf
        w = words(m, fld, X, c) if m is not None else None
        if w is not None:
            w = {a: b * num_ for a, b in w.items()}
        want = {"y": c}
        rep.check("inverse", f"{name}:formula", where, True if w == want else (False if w is not None else None),
                  f"metric replaced by {w if w is not None else short(val)}; expected {want} (y inverse of the {X} tensor)")
        ji = j if j is None or isinstance(j, tuple) else j
        ki = idx if isinstance(idx, tuple) and idx and idx[0] == "ut" else coll("tuple", *idx)
        same = ji == ki
        rep.check("inverse", f"{name}:component", where, True if same else (False if j is not None else None),
                  f"component {ki} of the metric replaced by the component {ji}")
        i = field_of(fld, me)
        rep.check("inverse", f"{name}:fields", where, True if i is not None and i in ixs and all_fields(i, me) and not gs else
                  (False if i is not None and all(understood(g, ()) for g in gs) else None),
                  f"for {[short(q.args[0]) for q in ixs]} under {[short(g) for g in gs]}")


LABELS = {"metric_func": "metric", "nu_func": "diffusion", "aspect_func": "aspect"}


def in_order(v, i, j):
    """v when i < j"""
    v = N.specialise(v, (lt_(i, j), not_(lt_(j, i)), not_(eq_(i, j))))

    def f(x):
        if x.op in ("min", "max") and len(x.args) == 2 and set(x.args) == {i, j}:
            return i if x.op == "min" else j
        return x
    return rewrite(v, f)


def entries(I, s, M, i, j, node):
    """(rows, columns, entry i, j) of a matrix built by Matrix(n, m, f) or Matrix([[..] ..])"""
    if M is None or not gcall(M, "Matrix"):
        return None, None, None
    if len(M.args[1]) == 3:
        n1, n2, g = M.args[1]
        return n1, n2, I.fz(I.call(g, [i, j], {}, s, node), s)
    if len(M.args[1]) == 1 and M.args[1][0].op == "coll":
        rows = list(M.args[1][0].args[1])
        if len(rows) == 1 and rows[0].op == "for" and len(rows[0].args[1]) == 1:
            r, (row,) = rows[0].args[0], rows[0].args[1]
            if row.op == "coll" and len(row.args[1]) == 1 and row.args[1][0].op == "for" and len(row.args[1][0].args[1]) == 1:
                c, (e,) = row.args[1][0].args[0], row.args[1][0].args[1]
                if e.op not in ("when", "splat", "for"):
                    return r.args[0], c.args[0], subst(e, {r: i, c: j})
    return None, None, None


def labels(ctx, rep):
    c = ctx.cls("Field")
    me = mk("self", c.qual)
    i, j = mk("param", "i"), mk("param", "j")
    texts = {}
    codes = mk("attr", me, "spatial_coords_code")
    coords = mk("attr", me, "coordinates")
    for fn in LABELS:
        f = ctx.method("Field", fn)
        I = ctx.interp()
        names = [x.arg for x in f.node.args.args][1:3]
        v, s = I.run_function(f, dict(zip(names, (i, j))), self_obj=me)
        v = I.fz(v, s)
        ctx.visited |= I.visited
        r = symmetric(v, i, j)
        und = understood(rewrite(v, lambda x: x.args[0] if x.op == "star" else x),
                         ("Function", "min", "max", "sorted", "format", "str", "join"))
        rep.check("labels", f"{fn}:symmetric", f.where, True if r else (False if und else None), short(v, 500))
        w = in_order(v, i, j)
        both = has_term(w, i) and has_term(w, j)
        used = {x for x in walk(w) if x.op == "sub" and x.args[0] is codes}
        rep.check("labels", f"{fn}:indices", f.where, True if both else (False if und else None),
                  f"the label tells both coordinates: {[short(x) for x in used]}")
        ok = v.op == "call" and gcall(v.args[0], "Function") and v.args[1] == (mk("star", coords),)
        rep.check("labels", f"{fn}:coordinates", f.where, True if ok else (False if v.op == "call" and gcall(v.args[0], "Function") and
                                                                          und else None), f"arguments {[short(x) for x in v.args[1]]}")
        texts[fn] = v.args[0].args[1][0] if v.op == "call" and gcall(v.args[0], "Function") and v.args[0].args[1] else v
        rep.check("labels", f"{fn}:field", f.where, True if any(x.op == "attr" and x.args[0] is me and x.args[1] in ("code", "value")
                                                              for x in walk(texts[fn])) else (False if und else None),
                  f"the label names the field: {short(texts[fn])}")
    init = ctx.method("Field", "__init__")
    I = ctx.interp(opaque=set(LABELS) | {"clean_latex_name"})
    v, s = I.run_function(init, self_obj=me)
    ctx.visited |= I.visited
    A = {n: I.fz(x, s) for (o, n), x in s.attrs.items() if o is me}
    for n in ("variance", "std", "error", "epsilon"):
        x = A.get(n)
        if x is not None and x.op == "call" and gcall(x.args[0], "Function"):
            texts[n] = x.args[0].args[1][0]
    vals = list(texts.items())
    dup = [(a, b) for q, (a, x) in enumerate(vals) for b, y in vals[q + 1:] if literal(x) == literal(y)]
    rep.check("labels", "distinct", init.where, not dup, f"same label for {dup}")
    sc = A.get("spatial_coordinates")
    for fn, attr in LABELS.items():
        n1, n2, g = entries(I, s, A.get(attr), i, j, init.node)
        if g is None:
            rep.unsure("tensors", attr, init.where, short(A[attr]) if attr in A else "not set")
            continue
        size = n1 is n2 and n1 is len_(sc)
        rep.check("tensors", f"{attr}:size", init.where, True if size else (False if understood(n1, ()) and understood(n2, ()) else None),
                  f"{short(n1)} x {short(n2)}")
        name = g.args[0].args[1] if mcall(g) or g.op == "call" and g.args[0].op == "attr" and g.args[0].args[0] is me else None
        args = set(g.args[1]) == {i, j} if name in LABELS else None
        rep.check("tensors", f"{attr}:components", init.where, True if name == fn and args else (False if name in LABELS else None),
                  f"component i, j given by {short(g)}")
    field = mk("param", [x.arg for x in init.node.args.args][1])
    ok = None
    if sc is not None and sc.op == "coll":
        fl = list(parts_flat(sc.args[1]))
        if len(fl) == 1 and len(fl[0][2]) == 1:
            p, gs, (ix,) = fl[0]
            src = mk("attr", field, "args")
            t = mk("sym", "t")
            ok = p is sub_(src, ix) and ix.args[0] is len_(src) and len(gs) == 1 and gs[0].op == "not" and gs[0].args[0].op == "eq" and \
                any(x is p for x in gs[0].args[0].args) and any(is_time(x, None) for x in gs[0].args[0].args)
    rep.check("tensors", "spatial coordinates", init.where, True if ok else (None if ok is None else False),
              f"all the coordinates but the time, in order: {short(sc) if sc is not None else '?'}")
    cc = A.get("spatial_coords_code")
    ok = None
    if cc is not None and cc.op == "coll" and sc is not None and sc.op == "coll":
        a, b = list(parts_flat(sc.args[1])), list(parts_flat(cc.args[1]))
        if len(a) == len(b) == 1 and len(a[0][2]) == len(b[0][2]) == 1:
            bp = subst(b[0][0], {b[0][2][0]: a[0][2][0]})
            bg = tuple(subst(g, {b[0][2][0]: a[0][2][0]}) for g in b[0][1])
            ok = gcall(bp, "clean_latex_name") and bp.args[1] == (a[0][0],) and bg == a[0][1] and \
                b[0][2][0].args[0] is a[0][2][0].args[0]
            if not ok and not understood(bp, ("clean_latex_name",)):
                ok = None
    rep.check("tensors", "names of the coordinates", init.where, ok, f"one name for each space coordinate: {short(cc) if cc is not None else '?'}")


def literal(t):
    """constant text of a label (before its variable parts)"""
    if t.op == "cat":
        return tuple(x.args[0] for x in t.args if x.op == "str")
    return t


def run(ctx, rep, tier):
    rep.rule("inverse", "metric components are replaced by those of c times the inverse of the tensor (c = 1/2 diffusion, 1 aspect)", 6)
    rep.rule("trend", "the trend of the tensor is -(1/c) X T X with T the trend of the metric, component by component", 8)
    rep.rule("migrate", "the metric is replaced in every equation of the representation", 6)
    rep.rule("labels", "labels of tensor components are symmetric in their indices, name both coordinates and are distinct", 13)
    rep.rule("tensors", "each tensor is a square matrix over the space coordinates with its own component function", 8)
    for name in ("in_diffusion", "in_aspect"):
        check_repr(ctx, rep, name)
    labels(ctx, rep)
