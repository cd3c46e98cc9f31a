"""C01: every registered time scheme is the scheme of its name: order conditions of the Runge-Kutta
schemes read off the code, leapfrog step, sub-step threading of the splitting."""
from .base import *
from . import schemes as S

ORDERS = {"euler": 1, "rk2": 2, "rk4": 4}


def run(ctx, rep, tier):
    rep.rule("registry", "each documented scheme name is registered and bound to a function", 5)
    rep.rule("order", "Runge-Kutta order conditions up to the registered order hold exactly for the coefficients "
                      "computed by the code", 15)
    rep.rule("leapfrog", "leapfrog advances the older state by 2 dt trend(newer state) and shifts the pair", 2)
    rep.rule("splitting", "each fraction step starts from the result of the previous one, over the same time and dt", 4)
    rep.rule("selection", "the selected scheme is the registered function of the given name", 2)

    # self test of the order conditions: a forward Euler step is order 1 and not 2
    f, t, y, h = mk("param", "f"), mk("param", "t"), mk("param", "y"), mk("param", "h")
    k = mk("call", f, (t, y), ())
    conds = S.achieved_conditions(*S.tableau(add(y, mul(h, k)), f, t, y, h))
    rep.selftest([l == r for o, n, l, r in conds if o == 1] == [True] and
                 not all(l == r for o, n, l, r in conds if o == 2), "order conditions separate order 1 and 2")

    I, st, reg, attr = S.registry(ctx)
    for name in ["euler", "rk2", "rk4", "leapfrog", "splitting"]:
        v = reg.get(name)
        where = ctx.method("Model", "__init__").where
        if v is None:
            rep.bad("registry", name, where, f"no scheme registered under the documented name '{name}'")
            continue
        fi = S.resolve_callable(ctx, v)
        rep.ok("registry", name, fi.where if fi else where, short(v))
        where = fi.where if fi else where
        if name in ORDERS:
            try:
                out = S.apply(ctx, I, v, [f, t, y, h])
                ks, A, b, C = S.tableau(out, f, t, y, h)
            except S.NotRK as e:
                rep.check("order", f"{name}:form", where, False if e.sure else None, str(e))
                continue
            for o, n, l, r in S.achieved_conditions(ks, A, b, C):
                if o <= ORDERS[name]:
                    rep.check("order", f"{name}:{n}", where, l == r, f"{l} must be {r} for order {ORDERS[name]}; "
                              f"b={[str(b.get(x, 0)) for x in ks]} c={[str(C[x]) for x in ks]}")
        elif name == "leapfrog":
            ss = mk("param", "states")
            out = S.apply(ctx, I, v, [f, t, ss, h])
            if not (out.op == "coll" and len(out.args[1]) == 2):
                rep.unsure("leapfrog", "pair", where, short(out))
                continue
            s0, s1 = sub_(ss, num(0)), sub_(ss, num(1))
            a, b = out.args[1]
            good = add(s0, mul(mul(num(2), h), mk("call", f, (t, s1), ())))
            # trend evaluated with keyword or other time is a different term
            rep.check("leapfrog", "shifted-state", where, True if a is s1 else (False if understood(a) else None), short(a))
            rep.check("leapfrog", "new-state", where, True if b is good else (False if understood(b) else None),
                      f"{short(b)} must be {short(good)}")
        else:
            splitting(ctx, rep, I, v, where, t, y, h)

    # selection by name
    I2, v2, s2 = ctx.run_method("Model", "set_time_scheme")
    f2 = ctx.method("Model", "set_time_scheme")
    p = [a.arg for a in f2.node.args.args][1]
    effs = [e for e in I2.effects if e.kind == "attr" and e.target.op == "self"]
    want = sub_(mk("attr", effs[0].target, attr), mk("param", p)) if effs else None
    vals = {I2.fz(e.value, s2) for e in effs}
    if not effs:
        rep.bad("selection", "set_time_scheme", f2.where, "no attribute of the model is set")
    else:
        okv = vals == {want} or all(x.op == "dictget" and x.args[1] is mk("param", p) for x in vals)
        rep.check("selection", "set_time_scheme", f2.where, True if okv else (
            False if all(understood(x) for x in vals) else None), [short(x) for x in vals])
    # the constructor selects the scheme it is given
    c = ctx.cls("Model")
    init = ctx.method("Model", "__init__")
    sel = effs[0].key if effs else "time_scheme"
    names = [a.arg for a in init.node.args.args]
    if "time_scheme" not in names:
        rep.unsure("selection", "constructor", init.where, "no parameter time_scheme")
    else:
        got = I.fz(next((v for (o, n), v in st.attrs.items() if n == sel), NONE), st)
        regt = I.fz(next((v for (o, n), v in st.attrs.items() if n == attr), NONE), st)
        wanted = sub_(regt, mk("param", "time_scheme")) if regt is not NONE else None
        rep.check("selection", "constructor", init.where,
                  True if got is wanted or (wanted is not None and got.op == "sub" and got.args[1] is mk("param", "time_scheme"))
                  else (False if got is NONE or understood(got) else None), short(got))


def splitting(ctx, rep, I, v, where, t, y, h):
    tr = mk("param", "trend")
    out = S.apply(ctx, I, v, [tr, t, y, h])
    folds = [x for x in walk(out) if x.op == "fold"]
    if out.op != "fold":
        rep.check("splitting", "threading", where,
                  False if not folds and out.op in ("lastof",) else None, f"result {short(out)} is not threaded")
        return
    ix, cc, init, body = out.args
    n = ix.args[0]
    rep.check("splitting", "all-steps", where, True if n is len_(tr) else (False if nsub(n, len_(tr)).op == "num" else None),
              f"loop over {short(n)}")
    rep.check("splitting", "initial-state", where, True if init is y else (False if understood(init) else None), short(init))
    step = sub_(tr, ix)
    upd = N.in_(string("update"), step)
    for case, facts, want in (
            ("update", {upd}, mk("call", sub_(step, string("update")), (t, cc, h), ())),
            ("trend", {not_(upd)}, mk("call", sub_(step, string("scheme")), (sub_(step, string("trend")), t, cc, h), ()))):
        looked = {k: mk("call", mk("attr", step, "get"), (string(k),), ()) for k in ("update", "trend", "scheme")}
        has = {"update": case == "update", "trend": case != "update", "scheme": case != "update"}
        b = rewrite(body, lambda x: next((sub_(step, string(k)) if has[k] else NONE for k, g in looked.items() if x is g), x))
        b = N.specialise(b, set(facts) | {not_(N.is_(sub_(step, string(k)), NONE)) for k in has if has[k]} | {sub_(step, string(k)) for k in has if has[k]})
        if b.op == "phi":
            # dispatch on the other key
            alt = N.in_(string("trend"), step), N.in_(string("scheme"), step)
            b = N.specialise(b, set(facts) | ({not_(a) for a in alt} if case == "update" else set(alt)))
        rep.check("splitting", f"{case}-step", where, True if b is want else (False if understood(b) else None),
                  f"{short(b)} must be {short(want)}")
