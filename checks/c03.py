"""C03: an ensemble forecast has, for each saved time, one state per member, in the order of the members,
each one being the state at that time of the forecast of that member; parallel or not."""
from .base import *
from .c02 import saved_cases

VOC = ("isscalar", "array", "asarray", "forecast", "isinstance", "fromkeys", "reversed")


def analyse(ctx, rep):
    f = ctx.method("Model", "ensemble_forecast")
    fc = ctx.method("Model", "forecast")
    where = f.where
    I, v, s = ctx.run_method("Model", "ensemble_forecast", opaque={"forecast"})
    pn = [a.arg for a in f.node.args.args]
    win, states, saved = mk("param", pn[1]), mk("param", pn[2]), mk("param", "saved_times")
    par = N.truth(mk("param", "parallel")) if hasattr(N, "truth") else mk("truth", mk("param", "parallel"))
    if gcall(v, "fromkeys") or mcall(v, "fromkeys"):
        if len(v.args[1]) == 2 and v.args[1][1].op == "coll" and v.args[1][1].args[0] in ("list", "dict", "set"):
            rep.bad("slots", "shared", where, "one list shared by all the saved times: dict.fromkeys(.., [])")
            return
    res = {}
    for mode, facts in (("parallel", {par}), ("serial", {not_(par)})):
        w = N.specialise(v, facts)
        res[mode] = one(rep, mode, w, where, fc, win, states, saved, f)
    if res["parallel"] is not None and res["serial"] is not None:
        a, b = res["parallel"], res["serial"]
        rep.check("modes", "parallel/serial", where, True if a is b else (
            False if understood(a, VOC) and understood(b, VOC) else None), f"{short(a)} / {short(b)}")


def one(rep, mode, w, where, fc, win, states, saved, f):
    inst = lambda x: f"{mode}:{x}"
    un = [x for x in walk(w) if x.op == "unordered"]
    if un:
        rep.bad("members", inst("order"), where, f"results gathered in an arbitrary order: {short(un[0])}")
        return None
    if not (w.op == "coll" and w.args[0] == "dict"):
        fc_calls = [x for x in walk(w) if mcall(x, "forecast")]
        rep.check("members", inst("form"), where, False if not fc_calls and understood(w, VOC) else None, short(w))
        return None
    slots, members = [], []
    for p, guards, ixs in parts_flat(w.args[1]):
        if p.op == "kv":
            slots.append((p, guards, ixs))
        elif p.op == "app":
            members.append((p, guards, ixs))
        else:
            rep.unsure("members", inst("form"), where, short(p))
            return None
    # slots
    if not slots:
        rep.unsure("slots", inst("slots"), where, "no slot per saved time")
        return None
    S = None
    merged = []
    for p, g, ixs in slots:
        key, val = p.args
        if val.op != "coll" or val.args[0] != "list" or g or len(ixs) != 1:
            rep.unsure("slots", inst("slots"), where, short(p))
            return None
        if val.args[1]:
            merged.append((p, ixs))
        if not (key.op == "sub" and key.args[1] is ixs[0]):
            rep.unsure("slots", inst("keys"), where, short(key))
            return None
        S = key.args[0]
    rep.ok("slots", inst("slots"), where, "a fresh list for each saved time")
    if mode == "parallel":
        saved_cases(rep, "ensemble", where, S, win, saved, rule="slots")
    # members
    if merged and not members:
        # {t: [F(i)[t] for i ..] for t in S}
        p, ixs = merged[0]
        leaves = list(parts_flat(p.args[1].args[1]))
        key = p.args[0]
        members = [(mk("app", key, coll("list", x)), g, ix) for x, g, ix in leaves]
        inner_first = True
    else:
        inner_first = False
    if len(members) != 1:
        rep.check("members", inst("count"), where, False if len(members) == 0 and not merged else None,
                  f"{len(members)} statements storing the members")
        return None
    p, guards, ixs = members[0]
    key, val = p.args
    if val.op == "coll" and len(val.args[1]) == 1:
        val = val.args[1][0]
    else:
        rep.unsure("members", inst("value"), where, short(p))
        return None
    if guards:
        rep.check("members", inst("guards"), where, None, f"members stored under {short(guards[0])}")
        return None
    n = len_(states)
    mi = [x for x in ixs if x.args[0] is n]
    if not mi:
        rep.check("members", inst("all"), where, False if all(
            nsub(x.args[0], n).op == "num" for x in ixs[:1]) else None, f"loops {[short(x) for x in ixs]}")
        return None
    i = mi[0]
    calls_ = {x for x in walk(val) if mcall(x, "forecast")}
    if len(calls_) != 1:
        rep.check("members", inst("value"), where, False if not calls_ and understood(val, VOC) else None, short(val))
        return None
    c = calls_.pop()
    a = bind_call(fc, c)
    if a is None:
        rep.unsure("members", inst("value"), where, short(c))
        return None
    got = [a.get(x.arg) for x in fc.node.args.args[1:4]]
    want = [win, sub_(states, i), S]
    def copies(g):
        """a copy of the saved times"""
        return g.op == "coll" and len(g.args[1]) == 1 and g.args[1][0].op == "splat" and g.args[1][0].args[0] in (S, saved)

    for nme, g, wn in zip(("window", "member", "saved times"), got, want):
        okv = g is wn or (nme == "saved times" and (g is saved or g is not None and copies(g)))
        rep.check("members", inst(nme), where, True if okv else (False if understood(g, VOC) else None),
                  f"{short(g)} must be {short(wn)}")
    # the time under which the state is stored is the time it is read at
    okv = val is sub_(c, key)
    rep.check("members", inst("time"), where, True if okv else (False if understood(val, VOC) and val.op == "sub" else None),
              f"state {short(val, 120)} stored under {short(key, 120)}")
    # every saved time
    rest = [x for x in ixs if x is not i]
    okr = inner_first or (len(rest) == 1 and (rest[0].args[0] is len_(c) or rest[0].args[0] is len_(S)) and
                          key.op == "sub" and key.args[1] is rest[0] and key.args[0] in (c, S))
    rep.check("members", inst("times"), where, True if okr else None, f"times {short(key, 120)}")
    # the same state in both modes: that of the member, at the key under which it is stored
    return coll("tuple", *(S if k == 2 and (x is saved or x is not None and copies(x)) else x if x is not None else NONE
                                      for k, x in enumerate(got))) if okv else subst(val, {})


def pieces(ctx, I, v, p, ffun):
    """results gathered piece by piece: wrong when they are not all there in order, for numbers of arguments which are multiples of
    the size of the pool (the terms of slices are exact for them); never proved"""
    from engine.shape import Shape, Sym, Unknown, Raised
    for pool in (1, 2, 3):
        for n in range(pool, 4 * pool + 1, pool):
            def hook(t, env, S):
                if t is p:
                    return [Sym("arg", k) for k in range(n)]
                if t.op == "attr" and t.args[0] is ffun.args[0] and t.args[1].startswith("nb"):
                    return pool
                if t.op == "call" and t.args[0] is ffun and len(t.args[1]) == 1:
                    return Sym("result", S.val(t.args[1][0], env))
                return NotImplemented
            try:
                r = Shape(hook, I.nexts).val(v, {})
            except Unknown as e:
                return None, f"{short(v)}: {e}"
            except Raised as e:
                return None, f"{short(v)}: {e}"
            if r != [Sym("result", Sym("arg", k)) for k in range(n)]:
                return False, f"{n} arguments with {pool} processes: {r}"
    return None, short(v)


def run(ctx, rep, tier):
    rep.rule("slots", "one list of its own per saved time, saved times as for a single forecast", 5)
    rep.rule("members", "member i contributes the state of its own forecast, under the time of that state, in the order of "
                        "the members", 10)
    rep.rule("modes", "parallel and serial computations store the same states", 1)
    rep.rule("worker", "the pool maps the member function over the arguments, results in the order of the arguments", 1)
    analyse(ctx, rep)
    viol = any(i["verdict"] == "violated" for i in rep.items)
    try:
        fi = ctx.method("Parallel", "run")
    except AnalysisBroken:
        rep.floors["worker"] = 0
    else:
        I, v, s = ctx.run_method("Parallel", "run")
        p = mk("param", [a.arg for a in fi.node.args.args][1])
        ffun = mk("attr", mk("self", ctx.cls("Parallel").qual), "f")
        good = False
        if v.op == "coll" and len(v.args[1]) == 1:
            (x, g, ixs), = list(parts_flat(v.args[1]))
            good = not g and len(ixs) == 1 and ixs[0].args[0] is len_(p) and x.op == "call" and \
                x.args[1] == (sub_(p, ixs[0]),)
        un = any(x.op == "unordered" for x in walk(v))
        detail = short(v)
        if not good and not un:
            good, detail = pieces(ctx, I, v, p, ffun)
        rep.check("worker", "Parallel.run", fi.where, True if good else (False if un or good is False else None), detail)
    if viol:
        rep.floors = {}
