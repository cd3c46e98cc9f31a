"""C02: the forecast drivers advance over every consecutive pair of the window once, threading the state,
and return the state of each saved time, the last one included."""
from .base import *
import ast

VOC = ("time_scheme", "isscalar", "array", "asarray", "isinstance", "ndim", "scheme", "trend", "stack")


def scheme_attr(ctx):
    I, v, s = ctx.run_method("Model", "set_time_scheme")
    effs = [e for e in I.effects if e.kind == "attr" and e.target.op == "self"]
    if not effs:
        raise AnalysisBroken("set_time_scheme sets no attribute")
    return effs[0].key


def verdict(got, want, voc=VOC):
    if got is want:
        return True
    return False if understood(got, voc) else None


def find_fold(v, sattr):
    """folds whose step calls the selected scheme"""
    out = []
    for x in walk(v):
        if x.op in ("fold", "lastof", "foldstop"):
            body = x.args[3] if x.op != "lastof" else x.args[1]
            if any(mcall(c, sattr) for c in walk(body) if c.op == "call"):
                out.append(x)
    return out


def analyse(ctx, rep, name, sattr, kind):
    f = ctx.method("Model", name)
    where = f.where
    I, v, s = ctx.run_method("Model", name)
    names = [a.arg for a in f.node.args.args]
    if names[1:4] != ["window", "u0", "saved_times"]:
        names = names + [""] * 4
    win, u0, saved = (mk("param", n) for n in names[1:4])
    if kind == "array":
        r = delegated(ctx, rep, name, where, win, u0, saved)
        if r is not None:
            return r or None
    v = differences(v, win)
    me = mk("self", ctx.cls("Model").qual)
    folds = find_fold(v, sattr)
    inst = lambda x: f"{name}:{x}"
    if not folds:
        sc = [x for x in walk(v) if mcall(x, sattr)]
        rep.check("step", inst("loop"), where, False if not sc and understood(v, VOC) else None,
                  f"no loop threading the state through the time scheme in {short(v)}")
        return None
    if any(x.op == "lastof" for x in folds):
        rep.bad("step", inst("state"), where, "a step does not start from the state of the previous step")
        return None
    outer = [x for x in folds if not any(x is not y and has_term(y, x) for y in folds)]
    F = outer[0]
    if any(x is not F for x in outer):
        # two loops: accept when they are the same recurrence
        keys = {(x.args[2], subst(x.args[3], {x.args[1]: mk("num", 0)}) if False else x.args[0]) for x in outer}
        if len(keys) > 1:
            rep.unsure("step", inst("loop"), where, "several time loops")
            return None
    if F.op == "foldstop":
        rep.unsure("step", inst("loop"), where, "time loop with an early exit")
        return None
    ix, cc, init, body = F.args
    # number of steps
    d = nsub(ix.args[0], nsub(len_(win), num(1)))
    rep.check("step", inst("count"), where, True if d is num(0) else (False if d.op == "num" else None),
              f"number of steps {short(ix.args[0])}, must be len(window)-1")
    rep.check("step", inst("start"), where, verdict(init, u0), f"starts from {short(init)}")
    # scheme call
    sc = {x for x in walk(body) if mcall(x, sattr)}
    if len(sc) != 1:
        rep.unsure("step", inst("scheme"), where, f"{len(sc)} scheme calls per step")
        return None
    c = sc.pop()
    rep.check("step", inst("result"), where, True if body is c else (False if understood(body, VOC) else None),
              f"next state {short(body)}")
    a = list(c.args[1])
    kw = dict(c.args[2])
    for n in ("trend", "t", "state", "dt"):
        if n in kw:
            a.append(kw.pop(n))
    if len(a) != 4:
        rep.unsure("step", inst("arguments"), where, short(c))
        return None
    trend, t, state, dt = a
    i0, i1 = sub_(win, ix), sub_(win, add(ix, num(1)))
    if t is not i0 and t.op == "sub" and t.args[0] is win:
        pass
    rep.check("step", inst("trend"), where,
              True if (trend.op == "bound" and trend.args[1].endswith(".trend")) or
                      (trend.op == "attr" and trend.args[1] == "trend") else
              (False if understood(trend, VOC) else None), short(trend))
    rep.check("step", inst("time"), where, verdict(t, i0), f"{short(t)} must be {short(i0)}")
    rep.check("step", inst("state"), where, verdict(state, cc), f"{short(state)} must be the previous state")
    rep.check("step", inst("dt"), where, verdict(dt, nsub(i1, i0)), f"{short(dt)} must be {short(nsub(i1, i0))}")

    # snapshots
    val = v
    if kind == "array":
        if v.op == "call" and gcall(v, "array", "asarray", "stack") and v.args[1]:
            val = v.args[1][0]
        else:
            rep.unsure("snapshot", inst("form"), where, short(v))
            return None
    if val.op != "coll":
        rep.unsure("snapshot", inst("form"), where, short(val))
        return None
    leaves = list(parts_flat(val.args[1]))
    got = []
    for p, guards, ixs in leaves:
        if kind == "dict":
            if p.op != "kv":
                rep.unsure("snapshot", inst("form"), where, short(p))
                return None
            key, x = p.args
        else:
            key, x = None, p
        got.append((key, x, guards, ixs))
    S = None
    last = sub_(win, num(-1))
    want_a = [((ix,), i0, cc), ((), last, F)]
    want_b = [((), sub_(win, num(0)), u0), ((ix,), i1, body)]

    def match(want):
        """verdict and detail"""
        nonlocal S
        if len(want) != len(got):
            return None, f"{len(got)} snapshot statements"
        det = []
        verd = True
        sets = []
        for (ixs, key, x), (gk, gx, gg, gi) in zip(want, got):
            if tuple(gi) != tuple(ixs):
                return None, "loop structure"
            ins = [g for g in gg if g.op == "in"]
            rest = [g for g in gg if g.op != "in"]
            if len(ins) != 1 or any(r for r in rest):
                # no guard at all: everything saved
                det.append(f"guard {[short(g) for g in gg]}")
                verd = False if not gg else None
                return verd, det
            k2 = ins[0].args[0]
            sets.append(ins[0].args[1])
            if gk is not None and gk is not key:
                det.append(f"saved under {short(gk)}, must be {short(key)}")
                verd = False if understood(gk, VOC) else None
            if k2 is not key:
                det.append(f"saved when {short(k2)} is asked for, must be {short(key)}")
                verd = False if understood(k2, VOC) else None
            if gx is not x:
                det.append(f"saves {short(gx, 120)} for {short(key)}, must be {short(x, 120)}")
                verd = False if understood(gx, VOC) else None
            if verd is not True:
                return verd, det
        if len(set(sets)) != 1:
            return False, "different sets of saved times"
        S = sets[0]
        return True, "every saved time has the state of that time"
    ra = match(want_a)
    rb = match(want_b)
    if ra[0] is True or rb[0] is True:
        if ra[0] is not True:
            match(want_b)
        else:
            match(want_a)
        rep.ok("snapshot", inst("states"), where, "loop and final states saved under their own time")
    else:
        # one of the two snapshots is absent: positive evidence
        if len(got) < 2 and all(x[1].op in ("carry", "fold", "param", "call") for x in got):
            rep.bad("snapshot", inst("states"), where, f"a saved time is never stored: {short(val)}")
        else:
            r = ra if ra[0] is False or rb[0] is not False else rb
            v_ = False if ra[0] is False and (rb[0] is False or rb[1] == "loop structure") or \
                rb[0] is False and ra[1] == "loop structure" else None
            rep.check("snapshot", inst("states"), where, v_, r[1])
        return None
    # meaning of saved_times
    cases = saved_cases(rep, name, where, S, win, saved)
    return (ix, cases)


def differences(v, win):
    """diff(w)[i] is w[i+1] - w[i], there are len(w) - 1 of them"""
    d = mk("call", None, None)
    n1 = nsub(len_(win), num(1))

    def plain(x):
        return gcall(x, "diff", "ediff1d") and x.args[1] == (win,) and not x.args[2]

    def f(x):
        if x.op == "sub" and plain(x.args[0]) and x.args[1].op == "ix":
            return nsub(sub_(win, add(x.args[1], num(1))), sub_(win, x.args[1]))
        if x.op == "len" and plain(x.args[0]):
            return n1
        if gcall(x, "min") and set(x.args[1]) == {len_(win), n1} or x.op == "min" and set(x.args) == {len_(win), n1}:
            return n1
        return x
    if not any(plain(x) for x in walk(v)):
        return v
    # the indices of a loop carry its length: inner terms first, until nothing changes
    for _ in range(6):
        w = rewrite(v, f)
        if w is v:
            break
        v = w
    return v


def delegated(ctx, rep, name, where, win, u0, saved):
    """the array of the states of the other driver: its dictionary has the saved times of the window, in their order"""
    I, v, s = ctx.run_method("Model", name, opaque={"forecast"})
    D = {x for x in walk(v) if mcall(x, "forecast")}
    if len(D) != 1:
        return None
    D = D.pop()
    fc = ctx.method("Model", "forecast")
    a = bind_call(fc, D) or {}
    pn = [x.arg for x in fc.node.args.args]
    inst = lambda x: f"{name}:{x}"
    rep.check("step", inst("window"), where, verdict(a.get(pn[1], NONE), win), short(D))
    rep.check("step", inst("start"), where, verdict(a.get(pn[2], NONE), u0), short(D))
    S = a.get(pn[3], NONE)
    if S is not saved:
        saved_cases(rep, name, where, S, win, saved)
    else:
        rep.ok("saved-times", inst("given"), where, "the saved times are given to the other driver")
    rep.floors["step"] = 8
    rep.floors["saved-times"] = 4
    val = v.args[1][0] if gcall(v, "array", "asarray", "stack") and v.args[1] else None
    if val is None:
        rep.unsure("snapshot", inst("form"), where, short(v))
        return False
    ok = None
    if mk("valuesof", D) is val:
        ok = True
    if gcall(val, "sorted", "reversed", "set") or val.op == "unordered":
        ok = False
    if val.op == "coll":
        lv = list(parts_flat(val.args[1]))
        if len(lv) == 1:
            x, gs, ixs = lv[0]
            i = ixs[0] if len(ixs) == 1 else None
            if x.op == "splat" and x.args[0] is mk("valuesof", D) and not gs and not ixs:
                ok = True
            elif i is not None and x.op == "sub" and x.args[0] is D:
                k = x.args[1]
                src = k.args[0] if k.op == "sub" and k.args[1] is i else None
                if src is D and not gs and i.args[0] is len_(D):
                    ok = True
                elif src is win and i.args[0] is len_(win) and [g for g in gs if g.op == "in" and g.args[0] is k] == list(gs) and len(gs) == 1:
                    ok = True if gs[0].args[1] in (D, S) else None
                elif src is not None and (src.op == "sortedT" or gcall(src, "sorted", "reversed", "set") or has_term(src, saved) and not has_term(src, D)):
                    ok = False
    rep.check("snapshot", inst("states"), where, ok, f"the states are those of {short(val, 300)}: they must be in the order of the window")
    return (None, None) if ok else False


ROUND = ("round", "int", "around", "rint", "floor", "ceil", "trunc", "fix")


def saved_cases(rep, name, where, S, win, saved, rule="saved-times"):
    isnone = N.is_(saved, NONE)
    # a window is no scalar, nor is a list of times
    seq = {mk("truth", x) for x in walk(S) if gcall(x, "isscalar") and x.args[1] and (x.args[1][0] is win or x.args[1][0].op == "coll")}
    S = N.specialise(S, {not_(x) for x in seq} | {not_(N.is_(win, NONE))})
    a = N.specialise(S, {isnone})
    rep.check(rule, f"{name}:default", where, verdict(a, win), f"without saved times: {short(a)}")
    b = N.specialise(S, {not_(isnone)})
    leaves = []

    def rec(x):
        if x.op == "phi":
            rec(x.args[1])
            rec(x.args[2])
        else:
            leaves.append(x)
    rec(b)
    okset = {saved, coll("list", saved), coll("tuple", saved), coll("set", saved)}
    conv = lambda x: x in okset or (x.op == "coll" and x.args[1] and x.args[1][0].op == "splat" and
                                    x.args[1][0].args[0] is saved) or gcall(x, "atleast_1d", "asarray", "array")
    def inside(x, depth=0):
        """nested choices of lists of choices"""
        if depth < 4 and x.op == "coll" and len(x.args[1]) == 1 and x.args[1][0].op == "phi":
            y = x.args[1][0]
            return [z for k in (1, 2) for z in inside(mk("coll", x.args[0], (y.args[k],)), depth + 1)]
        return [x]
    leaves = [y for x in leaves for y in inside(x)]
    bad = [x for x in leaves if not conv(x)]
    changed = [x for x in bad if any(gcall(y, *ROUND) and y.args[1] and has_term(y.args[1][0], saved) for y in walk(x))]
    if changed:
        rep.bad(rule, f"{name}:given", where, f"the given times are changed: {short(changed[0])}")
        return (a, b)
    rep.check(rule, f"{name}:given", where, True if not bad else (False if all(understood(x, VOC) for x in bad) else None),
              f"given saved times: {[short(x) for x in leaves]}")
    one = [x for x in leaves if x is not saved]
    if one:
        lost = lost_scalar(b, saved)
        if lost:
            rep.bad(rule, f"{name}:scalar", where, f"a single time which is {lost} is not accepted as saved time")
            return (a, b)
    rep.check(rule, f"{name}:scalar", where, True if one else (False if b is saved else None),
              "a single time is accepted as saved time")
    return (a, b)


NUMBERS = {"int": {"int"}, "float": {"float"}, "number": {"int", "float"}, "Number": {"int", "float"}, "Real": {"int", "float"},
           "integer": set(), "Integral": {"int"}, "generic": set(), "floating": set(), "floating_": set(), "str": set(), "Complex": {"int", "float"}}


def lost_scalar(b, saved):
    """a kind of number that is not made a list of one time (only for tests of type), or None"""
    if b.op != "phi" or not (b.args[0].op in ("isinstance", "or", "not", "and")):
        return None

    def classes(c):
        if c.op == "isinstance" and c.args[0] is saved:
            ts = c.args[1].args[1] if c.args[1].op == "coll" else (c.args[1],)
            out = set()
            for t in ts:
                n = str(t.args[-1]).split(".")[-1] if t.args else ""
                if n not in NUMBERS or "np" in str(t) or "numpy" in str(t):
                    return None
                out |= NUMBERS[n]
            return out
        if c.op == "or":
            rs = [classes(x) for x in c.args]
            return None if None in rs else set().union(*rs)
        return None
    c = b.args[0]
    got = classes(c) if b.args[1] is not saved else None
    if got is None or not got and "isinstance" not in str(c.op):
        return None
    miss = {"int", "float"} - got
    return f"an {sorted(miss)[0]}" if miss else None


def default_window(ctx, rep):
    """window(end, start): the regular times start, start+dt, ..., end, both ends included"""
    f = ctx.method("Model", "window")
    where = f.where
    I, v, s = ctx.run_method("Model", "window")
    names = [a.arg for a in f.node.args.args]
    if names[1:3] != ["end", "start"]:
        rep.unsure("window", "window:parameters", where, f"parameters {names}")
        return
    end, start = mk("param", "end"), mk("param", "start")
    defaults = f.node.args.defaults
    d0 = defaults[-1].value if defaults and isinstance(defaults[-1], ast.Constant) else None
    rep.check("window", "window:origin", where, None if d0 is None else not isinstance(d0, bool) and d0 == 0,
              "a window starts at time 0 by default")
    I2, dt, s2 = ctx.run_method("Model", "dt")
    I3, v3, s3 = ctx.run_method("Model", "set_dt")
    sets = [e for e in I3.effects if e.kind == "attr"]
    ps = [a.arg for a in ctx.method("Model", "set_dt").node.args.args]
    okv = None
    if dt.op == "attr":
        mine = [e for e in sets if e.key == dt.args[1]]
        if mine and len(ps) == 2:
            okv = True if mine[-1].value is mk("param", ps[1]) and not mine[-1].pc else \
                (False if understood(mine[-1].value, VOC) else None)
        elif not mine and understood(v3, VOC) and not any(e.kind == "call" for e in I3.effects):
            okv = False
    if not (v.op == "call" and gcall(v, "arange")):
        rep.floors["window"] = 3
    rep.check("window", "set_dt", ctx.method("Model", "set_dt").where, okv, "the step given is the step used")
    if not (v.op == "call" and gcall(v, "arange")):
        rep.check("window", "window:times", where, *counted(I, v, start, end, dt))
        return
    a = list(v.args[1])
    kw = dict(v.args[2])
    for n in ("start", "stop", "step"):
        if n in kw:
            a.append(kw.pop(n))
    if len(a) != 3:
        rep.check("window", "window:times", where, False if understood(v, VOC) else None, f"window is {short(v)}")
        return
    rep.check("window", "window:start", where, verdict(a[0], start), f"first time {short(a[0])}")
    rep.check("window", "window:step", where, verdict(a[2], dt), f"step {short(a[2])}")
    extra = nsub(a[1], end)
    c = to_poly(extra)
    ok_ = None
    if not c:
        ok_ = False                              # arange excludes its stop
    elif len(c) == 1:
        (m, k), = c.items()
        if m == (((dt, 1),), ()):
            ok_ = bool(0 < k < 1)
        elif understood(extra, VOC):
            ok_ = False
    elif understood(extra, VOC) and any(x is start or x is end for x in walk(extra)):
        ok_ = False
    rep.check("window", "window:end", where, ok_,
              f"stop - end = {short(extra)}: must be strictly between 0 and one step, for the end to be the last time")


def counted(I, v, start, end, dt):
    """a window given by the number of its times: this number is that of the steps plus one, whatever the rounding errors of the
    quotient, and the times are start + k dt"""
    import math
    from fractions import Fraction
    from engine.shape import Shape, Unknown, Raised
    detail = f"form of the window: {short(v)}"
    calls = [x for x in walk(v) if gcall(x, "linspace", "arange")]
    if len(set(calls)) != 1:
        return None, detail
    c = calls[0]
    a, kw = list(c.args[1]), dict(c.args[2])
    lin = gcall(c, "linspace")
    if lin:
        cnt = a[2] if len(a) > 2 else kw.get("num")
        if v is not c or a[:2] != [start, end] or cnt is None or set(kw) - {"num"}:
            return None, detail
    else:
        if len(a) != 1 or kw or v is not add(start, mul(dt, c)):
            return None, detail
        cnt = a[0]
    for S0 in (Fraction(0), Fraction(3)):
        for D in (Fraction(1), Fraction(1, 10), Fraction(1, 4)):
            for q in (1, 2, 3, 6, 10):
                for err in (Fraction(0), Fraction(1, 10 ** 12), -Fraction(1, 10 ** 12)):
                    E = S0 + (q + err) * D

                    def hook(t, env, S):
                        if t is start:
                            return S0
                        if t is end:
                            return E
                        if t is dt:
                            return D
                        if gcall(t, "int", "round", "rint", "ceil", "floor", "trunc", "around") and len(t.args[1]) == 1:
                            x = Fraction(S.number(t.args[1][0], env))
                            f = str(t.args[0].args[0]).split(".")[-1]
                            return {"int": int, "trunc": int, "floor": math.floor, "ceil": math.ceil}.get(f, round)(x)
                        if t.op == "int":
                            return int(Fraction(S.number(t.args[0], env)))
                        return NotImplemented
                    try:
                        n = Shape(hook, I.nexts).number(cnt, {})
                    except (Unknown, Raised) as e:
                        return None, f"{detail}: {e}"
                    if n != q + 1:
                        return False, f"{n} times for {q} steps of {D}" + (" (up to rounding errors)" if err else "")
    if lin:
        return False, "the times of an interval which is no multiple of the step are not spaced by the step"
    return True, ""


def identity_model(ctx, rep):
    f = ctx.method("IdentityModel", "trend")
    I, v, s = ctx.run_method("IdentityModel", "trend")
    st = mk("param", f.node.args.args[-1].arg)
    ok_ = None
    if gcall(v, "zeros_like") and v.args[1] and v.args[1][0] is st:
        ok_ = True
    elif gcall(v, "zeros") and v.args[1] and v.args[1][0].op == "attr" and v.args[1][0].args == (st, "shape"):
        ok_ = True
    elif v is num(0) or v is mul(num(0), st):
        ok_ = True
    elif gcall(v, "ones", "ones_like") or v is st:
        ok_ = False
    elif v.op in ("param", "num", "poly") and understood(v, VOC):
        ok_ = False
    rep.check("identity", "trend", f.where, ok_, f"trend of the stationary model: {short(v)}")


def run(ctx, rep, tier):
    rep.rule("window", "the window of a model is start, start + dt, ..., end, with the step that was set", 5)
    rep.rule("identity", "the stationary model has a zero trend of the shape of its state", 1)
    default_window(ctx, rep)
    identity_model(ctx, rep)
    rep.rule("step", "the time loop does one step of the selected scheme per consecutive pair (t_i, t_i+1) of the window, "
                     "with dt = t_i+1 - t_i, from the state of the previous step", 12)
    rep.rule("snapshot", "the value saved for a time of the window is the state at that time, last time included", 2)
    rep.rule("saved-times", "saved times default to the window; a scalar is one saved time", 6)
    rep.rule("siblings", "forecast and predict save the same states", 1)
    sattr = scheme_attr(ctx)
    r = [analyse(ctx, rep, "forecast", sattr, "dict"), analyse(ctx, rep, "predict", sattr, "array")]
    if r[0] and r[1]:
        rep.check("siblings", "forecast/predict", ctx.method("Model", "predict").where,
                  True if r[0][1] == r[1][1] or r[1][1] is None else None, "same recurrence, same saved times")
    else:
        rep.floors["siblings"] = 0
        if not any(i["verdict"] == "violated" for i in rep.items):
            rep.floors["siblings"] = 1
