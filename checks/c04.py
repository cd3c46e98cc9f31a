"""C04: finite amplitude tangent-linear forecast divides by the amplitude the perturbations were scaled with, against the
reference trajectory of the same state; the propagator has the image of e_i as i-th column."""
from . import oneshot
from .base import *

VOC = ("norm", "abs", "max", "min", "amax", "sqrt", "mean", "std", "isscalar", "array", "asarray", "forecast", "ensemble_forecast", "zeros", "eye", "identity", "stack", "column_stack",
       "vstack", "hstack", "transpose", "T")


def tangent(ctx, rep):
    f = ctx.method("Model", "forecast_tl")
    fc, ef = ctx.method("Model", "forecast"), ctx.method("Model", "ensemble_forecast")
    where = f.where
    I, v, s = ctx.run_method("Model", "forecast_tl", opaque={"forecast", "ensemble_forecast"})
    pn = [a.arg for a in f.node.args.args]
    win, state, pert = (mk("param", n) for n in pn[1:4])
    saved, h = mk("param", "saved_times"), mk("param", "h")
    if not (v.op == "coll" and len(v.args[1]) == 2):
        rep.unsure("tangent", "result", where, short(v))
        return
    ref, tl = v.args[1]
    subs = [e for e in I.effects if e.kind == "sub"]
    # --- reference
    if not mcall(ref, "forecast"):
        rep.check("tangent", "reference", where, False if understood(ref, VOC) else None, short(ref))
        return
    ra = bind_call(fc, ref) or {}
    rn = [a.arg for a in fc.node.args.args][1:4]
    S = ra.get(rn[2])
    rep.check("tangent", "reference-state", where, ra.get(rn[0]) is win and ra.get(rn[1]) is state or
              (None if not understood(ref, VOC) else False), short(ref))
    # --- perturbed ensemble
    ens = {x for x in walk(tl) if mcall(x, "ensemble_forecast")}
    for e in subs:
        ens |= {x for x in walk(I.fz(e.target, s)) if mcall(x, "ensemble_forecast")}
    if len(ens) != 1:
        rep.check("tangent", "ensemble", where, None, f"{len(ens)} ensemble forecasts")
        return
    E = ens.pop()
    ea = bind_call(ef, E) or {}
    en = [a.arg for a in ef.node.args.args]
    rep.check("tangent", "ensemble-window", where, True if ea.get(en[1]) is win and ea.get(en[3], NONE) is S or
              ea.get(en[3]) in (saved, S) and ea.get(en[1]) is win else (False if understood(E, VOC) else None), short(E))
    P = ea.get(en[2])
    leaves = list(parts_flat(P.args[1])) if P is not None and P.op == "coll" else []
    if len(leaves) == 1 and any(has_term(g, ix) for g in leaves[0][1] for ix in leaves[0][2]):
        rep.bad("tangent", "perturbations", where, f"a perturbation is used only if {short(leaves[0][1][0], 300)}")
        return
    if len(leaves) != 1 or leaves[0][1] or len(leaves[0][2]) != 1:
        rep.unsure("tangent", "perturbations", where, short(P))
        return
    x, _, (i,) = leaves[0]
    if i.args[0] is not len_(pert):
        rep.check("tangent", "perturbations", where, False if understood(i.args[0], VOC) else None,
                  f"{short(i.args[0])} perturbed states")
        return
    p = sub_(pert, i)
    amp = div(nsub(x, state), p)
    if has_term(amp, p) or has_term(amp, i):
        rep.check("tangent", "perturbations", where, False if understood(x, VOC) else None,
                  f"{short(x)} is not the state plus a multiple of the perturbation")
        return
    rep.ok("tangent", "perturbations", where, f"state + {short(amp)} * perturbation")
    # --- quotient
    if tl is E:
        if len(subs) != 1:
            rep.check("tangent", "quotient", where, False if not subs else None, f"{len(subs)} stores in the result")
            return
        e = subs[0]
        key, val = I.fz(e.key, s), I.fz(e.value, s)
        if e.target is not E and I.fz(e.target, s) is not E:
            rep.unsure("tangent", "quotient", where, short(e.target))
            return
        loops = list(e.loops)
        if e.pc and any(True for g in e.pc):
            rep.unsure("tangent", "quotient", where, f"stored under {short(e.pc[0])}")
            return
    elif tl.op == "coll" and tl.args[0] == "dict":
        lv = list(parts_flat(tl.args[1]))
        if len(lv) != 1 or lv[0][0].op != "kv" or lv[0][1]:
            rep.unsure("tangent", "quotient", where, short(tl))
            return
        key, val = lv[0][0].args
        loops = list(lv[0][2])
    else:
        rep.unsure("tangent", "quotient", where, short(tl))
        return
    okk = len(loops) == 1 and key.op == "sub" and key.args[1] is loops[0] and key.args[0] in (S, E, ref) and \
        loops[0].args[0] in (len_(S), len_(E), len_(ref))
    rep.check("tangent", "all-times", where, True if okk else None, f"key {short(key)}")
    lv = list(parts_flat(val.args[1])) if val.op == "coll" else []
    if len(lv) == 1 and lv[0][1] and any(has_term(g, ix) for g in lv[0][1] for ix in lv[0][2]):
        rep.bad("tangent", "all-members", where, f"a perturbation is returned only if {short(lv[0][1][0], 300)}")
        return
    if len(lv) != 1 or lv[0][1] or len(lv[0][2]) != 1:
        rep.unsure("tangent", "quotient", where, short(val))
        return
    y, _, (j,) = lv[0]
    okn = j.args[0] in (len_(sub_(E, key)), len_(pert))
    rep.check("tangent", "all-members", where, True if okn else (False if understood(j.args[0], VOC) else None),
              short(j.args[0]))
    member = sub_(sub_(E, key), j)
    want = div(nsub(member, sub_(ref, key)), amp)
    rep.check("tangent", "quotient", where, True if y is want else (False if understood(y, VOC) else None),
              f"{short(y, 400)} must be {short(want, 400)}")


def put_back(f):
    """the vector set to 1 at the index of the loop before the forecast is set to 0 at this index after it; None when the loop
    has another form"""
    import ast
    for L in ast.walk(f.node):
        if not (isinstance(L, ast.For) and isinstance(L.target, ast.Name)):
            continue
        seen = []
        for st in L.body:
            t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else None
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Name) and \
                    t.slice.id == L.target.id and isinstance(st.value, ast.Constant):
                seen.append((t.value.id, st.value.value))
            elif any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "forecast" for x in ast.walk(st)):
                seen.append(("forecast", None))
            elif not isinstance(st, ast.Expr):
                return None
        if ("forecast", None) not in seen:
            continue
        k = seen.index(("forecast", None))
        before, after = seen[:k], seen[k + 1:]
        if len(before) != 1 or len(after) > 1:
            return None
        if not after:
            return False
        return after[0] == (before[0][0], 0) if after[0][0] == before[0][0] else None
    return None


def propagator(ctx, rep):
    f = ctx.method("LinearModel", "make_M")
    ef, fc = ctx.method("Model", "ensemble_forecast"), ctx.method("Model", "forecast")
    where = f.where
    I, v, s = ctx.run_method("LinearModel", "make_M", opaque={"forecast", "ensemble_forecast"})
    win = mk("param", [a.arg for a in f.node.args.args][1])
    last = sub_(win, num(-1))
    me = mk("self", ctx.cls("LinearModel").qual)
    n = mk("attr", me, "n")
    # orientation
    t, x = 0, v
    while True:
        if x.op == "attr" and x.args[1] == "T":
            t, x = 1 - t, x.args[0]
        elif gcall(x, "transpose") and len(x.args[1]) == 1 and not x.args[2]:
            t, x = 1 - t, x.args[1][0]
        elif mcall(x, "transpose") and not x.args[1]:
            t, x = 1 - t, x.args[0].args[0]
        elif gcall(x, "asarray", "array", "vstack") and len(x.args[1]) == 1:
            x = x.args[1][0]
        elif gcall(x, "stack") and len(x.args[1]) >= 1:
            ax = dict(x.args[2]).get("axis", x.args[1][1] if len(x.args[1]) > 1 else num(0))
            if ax in (num(1), num(-1)):
                t = 1 - t
            elif ax is not num(0):
                break
            x = x.args[1][0]
        elif gcall(x, "column_stack") and len(x.args[1]) == 1:
            t, x = 1 - t, x.args[1][0]
        else:
            break
    ens = {c for c in walk(x) if mcall(c, "ensemble_forecast")}
    if len(ens) == 1:
        E = ens.pop()
        ea = bind_call(ef, E) or {}
        en = [a.arg for a in ef.node.args.args]
        rep.check("propagator", "window", where, True if ea.get(en[1]) is win else (False if understood(E, VOC) else None),
                  short(E))
        key = x.args[1] if x.op == "sub" and x.args[0] is E else None
        if key is None:
            rep.check("propagator", "time", where, None, short(x))
        else:
            rep.check("propagator", "time", where, True if key is last else (False if understood(key, VOC) else None),
                      f"image at {short(key)} must be the end of the window")
        basis = ea.get(en[2])
    else:
        fcs = {c for c in walk(x) if mcall(c, "forecast")}
        if x.op == "fillarr":
            # M[:, i] = image of e_i, or M[i] = image of e_i
            i, key, val = x.args[1], x.args[2], x.args[3]
            full = N.slice_(NONE, NONE, NONE)
            if key.op == "coll" and key.args[1] == (full, i):
                t = 1 - t
            elif key is i or (key.op == "coll" and key.args[1] == (i, full)):
                pass
            else:
                rep.unsure("propagator", "form", where, short(v))
                return
            x = coll("list", N.for_(i, (val,)))
        if len(fcs) != 1 or x.op != "coll":
            rep.unsure("propagator", "form", where, short(v))
            return
        c = fcs.pop()
        fa = bind_call(fc, c) or {}
        fn = [a.arg for a in fc.node.args.args]
        lv = list(parts_flat(x.args[1]))
        if len(lv) != 1 or lv[0][1] or len(lv[0][2]) != 1 or not (lv[0][0].op == "sub" and lv[0][0].args[0] is c):
            rep.unsure("propagator", "form", where, short(v))
            return
        rep.check("propagator", "window", where, True if fa.get(fn[1]) is win else (False if understood(c, VOC) else None),
                  short(c))
        key = lv[0][0].args[1]
        rep.check("propagator", "time", where, True if key is last else (False if understood(key, VOC) else None), short(key))
        basis = coll("list", N.for_(lv[0][2][0], (fa.get(fn[2]),))) if fa.get(fn[2]) is not None else None
    rep.check("propagator", "orientation", where, t == 1, "the image of e_i is a column" if t else
              "the image of e_i is a row of the returned matrix")
    # canonical basis, in order
    good = None
    if basis is not None:
        if basis.op == "coll" and len(basis.args[1]) == 1 and basis.args[1][0].op == "splat" and \
                gcall(basis.args[1][0].args[0], "eye", "identity"):
            basis = basis.args[1][0].args[0]
        if gcall(basis, "eye", "identity"):
            good = basis.args[1] == (n,) and not [k for k in basis.args[2] if k[0] != "dtype"]
        elif basis.op == "coll":
            lv = list(parts_flat(basis.args[1]))
            if len(lv) == 1 and not lv[0][1] and len(lv[0][2]) == 1:
                e, _, (i,) = lv[0]
                if e.op == "setitem" and e.args[0].op == "carry" and e.args[0].args[0] is i and gcall(e.args[0].args[1], "zeros"):
                    # one vector for all the columns: set before the forecast, put back to zero after it
                    r = put_back(f)
                    good = r and e.args[1] is i and numval(e.args[2]) == 1 and i.args[0] is n if r is not None else None
                    if r is False:
                        rep.bad("propagator", "basis", where, "the basis vector keeps the components of the previous columns")
                        return
                elif e.op == "setitem" and gcall(e.args[0], "zeros") and i.args[0] is n:
                    good = e.args[1] is i and numval(e.args[2]) == 1 and e.args[0].args[1][0] is n
                elif e.op == "sub" and gcall(e.args[0], "eye", "identity"):
                    good = e.args[1] is i and i.args[0] is n
    if good is False and not understood(basis, VOC):
        good = None
    rep.check("propagator", "basis", where, good, f"initial states {short(basis) if basis is not None else None}")


def run(ctx, rep, tier):
    rep.rule("tangent", "each returned perturbation is (forecast(state + a p) - forecast(state)) / a with one and the same "
                        "amplitude a, for every saved time and perturbation", 6)
    rep.rule("propagator", "column i of the propagator is the forecast of the i-th basis vector at the end of the window", 4)
    tangent(ctx, rep)
    propagator(ctx, rep)
    # the perturbed states may be given one by one, by a generator: they are read once
    tl = ctx.method("Model", "forecast_tl")
    for fi, n, g, p in oneshot.param_readers(ctx.pkg):
        if fi is tl:
            k, line = oneshot.count(g.node.body, p)
            rep.check("tangent", f"read once:{g.name}:{p}", f"{g.module.rel}:{line or g.node.lineno}", k <= 1,
                      f"`{p}` receives a one-shot iterator at {fi.module.rel}:{n.lineno} and is read {'more than once' if k > 1 else 'once'}")
    if any(i["verdict"] == "violated" for i in rep.items):
        rep.floors = {}
