"""C06: inputs outside the documented domain are refused before any state is changed and before any result is returned;
inputs inside the domain are not refused."""
from .base import *
from .labels import check_labels, covariance_domain, coordinate_domain
from .skeleton import BUILDERS, variants, module_of

STATE = ("attr", "sub", "mut", "aug", "exec", "del")


def all_true(pc, F):
    r = True
    for p in pc:
        d = N.decide(p, F)
        if d is None:
            d = N.decide(N.specialise(p, F), F)
        if d is False:
            return False
        if d is None:
            r = None
    return r


def foreign(I, s, e):
    """does the effect reach an object living outside of the call"""
    if e.kind == "exec":
        return True
    t = I.fz(e.target, s) if isinstance(e.target, T) else None
    return t is not None and any(r.op in ("param", "self", "global") for r, p in alias_paths(t))


def refuse(rep, inst, where, I, s, v, bad, good=None, nloops=0, coll_len=None, lookup=None):
    """bad(*loops) -> set of facts describing a forbidden input; good(*loops) -> facts of an allowed one"""
    raises = [e for e in I.effects if e.kind in ("raise",)]
    hit, maybe, missed, open_ = None, False, [], []
    for e in raises:
        lp = [l for l in e.loops if isinstance(l, T) and l.op == "ix"]
        if len(lp) < nloops:
            continue
        lp = lp[-nloops:] if nloops else []
        F = bad(*lp)
        if F is None:
            maybe = True
            continue
        d = all_true(e.pc, F)
        if d is True and (coll_len is None or all(l.args[0] is c for l, c in zip(lp, coll_len))):
            hit = (e, F)
            break
        if d is False and all_true(e.pc, set()) is not False:
            missed.append(e)
        if d is None:
            open_.append(e)
        maybe = maybe or d is None
    kind = lambda e: repr(I.fz(e.target, s)).split("(")[0] if isinstance(e.target, T) else str(e.target)
    if hit is None and missed and all(kind(e) not in {kind(m) for m in missed} for e in open_):
        rep.bad("refused", inst, where, f"the guard at {missed[0].where} lets a forbidden input through")
        return
    if hit is None and lookup is not None and lookup():
        rep.ok("refused", inst, where, "a missing key can not be looked up")
        return
    if hit is None:
        rep.check("refused", inst, where, None if maybe else False,
                  "no exception is raised for a forbidden input" if not maybe else "guard not understood: "
                  + "; ".join(short(p, 200) for e in raises for p in e.pc))
        return
    e, F = hit
    early = []
    for x in I.effects:
        if x.kind not in STATE or not foreign(I, s, x):
            continue
        if nloops and x.loops and any(l in e.loops for l in x.loops) and I.effects.index(x) > I.effects.index(e):
            continue
        if all_true(x.pc, F) is not False:
            early.append(f"{x.kind} {x.key if isinstance(x.key, str) else short(x.key, 60)} at {x.where}")
    rep.check("refused", inst, where, not early, f"raises at {e.where}" if not early else f"changed before the refusal: {early}")
    if good is not None:
        lp = [l for l in e.loops if isinstance(l, T) and l.op == "ix"]
        G = good(*(lp[-nloops:] if nloops else []))
        wrong = [x for x in raises if all_true(x.pc, G) is True]
        rep.check("accepted", inst, where, not wrong, "allowed inputs are not refused" if not wrong else
                  f"an allowed input is refused at {wrong[0].where}")


def run(ctx, rep, tier):
    rep.rule("refused", "the guard of a forbidden input raises, and no state is changed before", 90)
    rep.rule("accepted", "the guard does not raise for the inputs of the domain", 80)
    rep.rule("abstract", "operations without implementation raise and return nothing", 4)

    P = lambda n: mk("param", n)

    # --- time scheme
    f = ctx.method("Model", "set_time_scheme")
    I, v, s = ctx.run_method("Model", "set_time_scheme")
    me = mk("self", ctx.cls("Model").qual)
    n = P(f.node.args.args[1].arg)
    attrs = {x.args[0] for e in I.effects if e.kind == "attr" for x in walk(I.fz(e.value, s)) if x.op in ("sub", "dictget")
             and x.args[1] is n}
    reg = attrs.pop() if len(attrs) == 1 else mk("attr", me, "time_schemes")
    refuse(rep, "unknown-time-scheme", f.where, I, s, v, lambda: {not_(N.in_(n, reg))}, lambda: {N.in_(n, reg)},
           lookup=lambda: all(I.fz(e.value, s) is sub_(reg, n) for e in I.effects if e.kind == "attr") and
           any(e.kind == "attr" for e in I.effects))

    # --- covariance of non prognostic fields / different coordinates
    covariance_domain(ctx, rep, "refused", "accepted")

    # --- compatibility with the coordinate system
    coordinate_domain(ctx, rep, "refused", "accepted")

    # --- displaced functions
    for fn in ("get_coordinates", "get_function_coordinates"):
        f = ctx.func(fn)
        I, v, s = ctx.run(f)
        x = P(f.node.args.args[0].arg)
        args = mk("attr", x, "args")

        def count(i):
            # number of symbols of the argument
            for e in I.effects:
                for p in e.pc:
                    for y in walk(p):
                        if y.op == "len" and mcall(y.args[0], "atoms") and has_term(y, i):
                            return y
            return None
        refuse(rep, f"{fn}-too-many-symbols", f.where, I, s, v,
               lambda i: None if count(i) is None else {eq_(count(i), num(3))} | isfun(I, x), lambda i: ({eq_(count(i), num(1))} if count(i) is not None else set()) | isfun(I, x), nloops=1)
        if fn == "get_function_coordinates":
            refuse(rep, f"{fn}-not-a-function", f.where, I, s, v, lambda: {not_(y) for y in isfun(I, x)} or None)

    # --- steps on the grid
    op = {"get_function_coordinates", "get_displacement", "clean_latex_name"}
    todo = [("code_regular_function", ctx.func("code_regular_function"), {})]
    try:
        m = ctx.method("Code", "_render_function")
        todo.append(("Code._render_function", m, {"cls": ctx.cls("Code")}))
    except AnalysisBroken:
        pass
    for name, f, kw in todo:
        I, v, s = ctx.run(f, opaque=op, **kw)
        tests = []
        for e in I.effects:
            if e.kind == "raise":
                for p in e.pc:
                    if p.op == "not" and p.args[0].op == "isinstance" and "Integer" in repr(p.args[0].args[1]):
                        tests.append((e, p.args[0].args[0]))
        disp = lambda t: any(gcall(y, "get_displacement") for y in walk(t))
        tm = [e for e, t in tests if disp(t) and not e.loops]
        sp = [e for e, t in tests if disp(t) and e.loops]
        rep.check("refused", f"{name}-time-step-off-grid", f.where, bool(tm), "asserted" if tm else
                  "a fractional time displacement is not refused")
        rep.check("refused", f"{name}-space-step-off-grid", f.where, bool(sp), "asserted for every coordinate" if sp else
                  "a fractional displacement is not refused")

    # --- system
    f = ctx.method("PDESystem", "_get_spatial_coordinates")
    I, v, s = ctx.run_method("PDESystem", "_get_spatial_coordinates")
    rs = [p for e in I.effects if e.kind == "raise" for p in e.pc]
    me = mk("self", ctx.cls("PDESystem").qual)
    first = sub_(mk("attr", me, "coordinates"), num(0))
    good = [p for p in rs if p.op == "not" and p.args[0].op == "eq" and first in p.args[0].args]
    rep.check("refused", "time-is-not-the-first-coordinate", f.where, True if good else (None if rs else False),
              "asserted" if good else "")

    f = ctx.method("ModelBuilder", "pseudo_algebraic_system")
    I, v, s = ctx.run_method("ModelBuilder", "pseudo_algebraic_system",
                             opaque={"functions", "constants", "spatial_derivatives", "get_trend"})
    rs = [e for e in I.effects if e.kind == "raise"]
    good = []
    for e in rs:
        for p in e.pc:
            if p.op == "not" and p.args[0].op == "eq":
                l, r = p.args[0].args
                for a, b in ((l, r), (r, l)):
                    if gcall(b, "get_trend") and a is sub_(mk("attr", b.args[1][0], "args"), num(0)):
                        good.append(e)
    about = [p for e in rs for p in e.pc if any(gcall(x, "get_trend") for x in walk(p))]
    rep.check("refused", "equation-is-not-prognostic", f.where, True if good else (None if rs and not about else False),
              f"raises at {rs[0].where}" if good else "the code of a non prognostic equation is generated")

    # --- derivative order specification
    check_labels(ctx, rep, "refused", "accepted")

    # --- generated models
    for b in BUILDERS:
        label, sk = variants(ctx, b)[0]
        mod = module_of(ctx, b, label, sk)
        c = list(mod.classes.values())[-1]
        f = ctx.pkg.find_method(c, "__init__")
        I, v, s = ctx.run(f, cls=c)
        me = mk("self", c.qual)
        if b == "FDModelBuilder":
            for n in ("shape", "lengths"):
                if n not in [a.arg for a in f.node.args.args]:
                    rep.unsure("refused", f"{b}-{n}", f.where, f"no parameter {n}")
                    continue
                bad = {not_(N.is_(P(n), NONE)), eq_(len_(P(n)), num(7))}
                other = "lengths" if n == "shape" else "shape"
                ok = {not_(N.is_(P("shape"), NONE)), not_(N.is_(P("lengths"), NONE)), eq_(len_(P("shape")), num(sk.size)),
                      eq_(len_(P("lengths")), num(sk.size))}
                rs = [e for e in I.effects if e.kind == "raise" and any(has_term(p, P(n)) for p in e.pc) and all_true(
                    [p for p in e.pc if not has_term(p, P(other))], bad) is True]
                st = [e for e in I.effects if e.kind == "attr" and e.key == n and all_true(
                    [p for p in e.pc if not has_term(p, P(other))], bad) is not False and
                    has_term(I.fz(e.value, s), P(n)) and rs and I.effects.index(e) < I.effects.index(rs[0])]
                rep.check("refused", f"{b}-{n}-of-another-dimension", f.where,
                          False if not rs or st else True, f"raises at {rs[0].where}" if rs and not st else
                          "not refused" if not rs else f"stored before the refusal at {st[0].where}")
                wrong = [e for e in I.effects if e.kind == "raise" and all_true(e.pc, ok) is True]
                rep.check("accepted", f"{b}-{n}", f.where, not wrong, "" if not wrong else f"refused at {wrong[0].where}")
        else:
            p = f.node.args.args[1].arg
            dim = mk("attr", P(p), "dimension")
            rs = [e for e in I.effects if e.kind == "raise" and all_true(e.pc, {eq_(dim, num(7))}) is True]
            st = [e for e in I.effects if e.kind == "attr" and I.fz(e.value, s) is P(p) and
                  all_true(e.pc, {eq_(dim, num(7))}) is not False and rs and I.effects.index(e) < I.effects.index(rs[0])]
            rep.check("refused", f"{b}-base-space-of-another-dimension", f.where, bool(rs) and not st,
                      f"raises at {rs[0].where}" if rs else "not refused")
            wrong = [e for e in I.effects if e.kind == "raise" and all_true(e.pc, {eq_(dim, num(sk.size))}) is True]
            rep.check("accepted", f"{b}-base-space", f.where, not wrong, "")

    # --- abstract operations
    for c, m in (("Model", "trend"), ("MetaDerivative", "_set_as_code"), ("Closure", "in_diffusion"), ("Closure", "in_aspect")):
        if c == "MetaDerivative":
            cs = [x for md in ctx.pkg.modules.values() for x in md.classes.values() if x.name == c and
                  not any(y is not x for y in ctx.pkg.mro(x))]
            if not cs:
                continue
            f = ctx.pkg.find_method(cs[0], m)
            I, v, s = ctx.run(f, cls=cs[0])
        else:
            f = ctx.method(c, m)
            I, v, s = ctx.run_method(c, m)
        rep.check("abstract", f"{c}.{m}", f.where, True if v.op in ("noreturn", "never") or v.op == "noreturn" else (
            False if v is NONE else None), short(v))
    if any(i["verdict"] == "violated" for i in rep.items):
        rep.floors = {}


def isfun(I, x):
    """the tests 'is a function' made on x"""
    out = set()
    for e in I.effects:
        for p in e.pc:
            for y in walk(p):
                if y.op == "isinstance" and y.args[0] is x:
                    out.add(y)
    return out
