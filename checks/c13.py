"""C13: answers of the correlation closure and of the substitution tree do not depend on earlier queries."""
import ast
from .base import *
from .c12 import methods_of

OPAQUE = {"all_of_degree", "remove_eval_derivative", "correlation", "correlation_in_diffusion", "as_sequence", "as_couples",
          "metric_func", "aspect_func", "nu_func", "isolate", "new"}


def memo_slots(ctx, c):
    I = ctx.interp(opaque=HEAVY)
    me = mk("self", c.qual)
    init = ctx.pkg.find_method(c, "__init__")
    v, s = I.run_function(init, self_obj=me)
    ctx.visited |= I.visited
    out = set()
    for (o, n), x in s.attrs.items():
        x = I.fz(x, s)
        if o is me and x.op == "coll" and not x.args[1] and x.args[0] == "dict":
            out.add(n)
    return out


def history(ctx, c, f, slots, opaque=OPAQUE, given=None):
    """run a query on an object whose memories hold unknown entries H, none of them for the keys asked:
    a first run finds the tests of presence, which are then assumed to fail"""
    me = mk("self", c.qual)
    facts = set()
    for _ in range(4):
        I = ctx.interp(opaque=set(opaque) - {f.name})
        st = State({})
        H = {}
        for a in slots:
            H[a] = mk("param", "entries of " + a)
            st.attrs[(me, a)] = I.new_ref(st, coll("dict", mk("splat", H[a])))
        for q in facts:
            st.assume(not_(q))
        for q in given or ():
            st.assume(q)
        v, s = I.run_function(f, self_obj=me, st=st)
        v = I.fz(v, s)
        hs = set(H.values())
        new = facts_of(v, hs)
        for e in I.effects:
            for q in e.pc:
                new |= facts_of(q, hs)
        for x in s.attrs.values():
            x = I.fz(x, s)
            if isinstance(x, T):
                new |= facts_of(x, hs)
        new = {q for q in new if not (free_ix(q))}
        if new <= facts or given:
            break
        facts |= new
    ctx.visited |= I.visited
    return I, me, H, v, s


def free_ix(t):
    return any(x.op in ("ix", "carry") for x in walk(t))


def drop_known(t, hs):
    """reads of an entry that has just been stored: {old entries, k: v}[k] -> v"""
    def f(x):
        if x.op in ("sub", "dictget") and x.args[0].op == "coll" and x.args[0].args[0] == "dict":
            k = x.args[1]
            val = None
            for p in x.args[0].args[1]:
                g = p
                if p.op == "when" and len(p.args[1]) == 1:
                    g = p.args[1][0]
                if g.op == "kv" and g.args[0] is k:
                    val = g.args[1] if g is p else phi(p.args[0], g.args[1], x)
            return val if val is not None else x
        return x
    return rewrite(t, f)


def facts_of(t, hs):
    """tests of presence of a key among the old entries"""
    return {x for x in walk(t) if x.op == "in" and x.args[1] in hs}


def closure_history(ctx, rep):
    classes = [c for c in [ctx.cls("Closure")] + list(ctx.pkg.subclasses(ctx.cls("Closure")))]
    seen = set()
    for c in classes:
        slots = memo_slots(ctx, c)
        settled = set()
        for f in bottom_up(ctx, c):
            if f.is_static or f.is_class or f.name.startswith("__"):
                continue
            if (f.qual, c.name) in seen:
                continue
            seen.add((f.qual, c.name))
            # queries whose answers are already known not to depend on the history are not entered again
            I, me, H, v, s = history(ctx, c, f, slots, OPAQUE | settled)
            hs = set(H.values())
            if v.op == "noreturn" or any(e.kind == "raise" and not e.pc for e in I.effects):
                continue
            name = f"{c.name}.{f.name}"
            tests = facts_of(v, hs)
            fresh = tuple(not_(q) for q in tests)
            v1 = v
            for _ in range(4):
                v1 = specialise(drop_known(v1, hs), fresh)
            left = {x for x in walk(v1) if x in hs}
            if left:
                # entries of other keys read?
                sub = [x for x in walk(v1) if x.op in ("sub", "dictget") and has_term(x.args[0], next(iter(left)))]
                allentries = [x for x in walk(v1) if x.op == "splat" and x.args[0] in hs]
                bad = bool(allentries) and not any(x.op in ("fold", "carry") for x in walk(v1))
                # an entry chosen by comparison with the keys of the earlier queries
                chosen = any(x.op == "lt" and any(y in hs for y in walk(x)) for x in walk(v1)) and any(
                    x.op in ("sub", "dictget") and x.args[0] in hs and any(y in hs for y in walk(x.args[1])) for x in walk(v1))
                bad = bad or chosen
                whole = v1.op == "coll" and any(x in v1.args[1] for x in allentries)
                rep.check("history", name, f.where, False if whole or bad else None,
                          f"the answer contains entries of earlier queries: {short(v1, 600)}")
            else:
                rep.ok("history", name, f.where, "computed from the configuration and the arguments")
                if v1 is not NONE and not f.is_property:
                    settled.add(f.name)
            # an entry is found again under the key of its own query
            for a in slots:
                fin = s.attrs.get((me, a))
                fin = I.fz(fin, s) if fin is not None else None
                if fin is None or fin.op != "coll":
                    continue
                for p in fin.args[1]:
                    if p.op != "kv":
                        continue
                    k, val = p.args
                    ps = {x for x in walk(val) if x.op == "param" and x not in hs}
                    comps = k.args[1] if k.op == "coll" and k.args[0] == "tuple" else (k,)
                    fixed = {x for q in comps for x in ps if q is x or numval(nsub(q, x)) is not None}
                    rep.check("key", f"{name}:{a}:key", f.where, not (ps - fixed),
                              f"the entry kept under {short(k)} also depends on {sorted(x.args[0] for x in ps - fixed)}")
                    I3, me3, H3, v3, s3 = history(ctx, c, f, slots, OPAQUE | settled, given=(mk("in", k, H[a]),))
                    uses = {x for x in walk(v3) if x.op in ("sub", "dictget") and x.args[0] in hs}
                    good = uses == {mk("sub", H[a], k)} or uses and all(x.args[1] is k and x.args[0] is H[a] for x in uses)
                    other = [x for x in uses if x.args[1] is not k or x.args[0] is not H[a]]
                    rep.check("key", f"{name}:{a}:hit", f.where, True if good else (False if other else
                                                                                   (True if v3 is v else None)),
                              f"kept under {short(k)}, read under {[short(x.args[1]) for x in uses]}")
            # state kept outside of the memories
            for e in I.effects:
                if e.kind == "attr" and e.target is me and e.key not in slots:
                    readers = [g.name for g in methods_of(ctx, c) if g.name not in ("__init__", f.name) and any(
                        isinstance(n, ast.Attribute) and n.attr == e.key for n in ast.walk(g.node))]
                    val = I.fz(e.value, s)
                    if any(x.op == "param" for x in walk(val)) and readers:
                        rep.bad("history", f"{name}:{e.key}", e.where,
                                f"keeps {short(val, 80)} of this query in {e.key}, read by {readers}")
            # the memories are only added to, at the keys asked
            for a in slots:
                fin = s.attrs.get((me, a))
                fin = I.fz(fin, s) if fin is not None else None
                if fin is None or fin.op != "coll":
                    if fin is not None and fin.op in ("mutated", "setitem", "fold"):
                        rep.unsure("history", f"{name}:{a}", f.where, short(fin))
                    continue
                keeps = any(p.op == "splat" and p.args[0] is H[a] for p in fin.args[1])
                if not keeps and not left and not any(x in hs for x in walk(fin)):
                    # fewer entries: they are computed again when they are asked for, as shown above for each query
                    keeps = True
                rep.check("history", f"{name}:{a}", f.where, True if keeps else False,
                          f"earlier entries lost: {short(fin, 200)}")
            # in place changes of what is kept
            bad = []
            st2 = State({})
            I2 = ctx.interp(opaque=OPAQUE - {f.name})
            v2, s2 = I2.run_function(f, self_obj=me, st=st2)
            from .c05 import mutations
            for e, tgt in mutations(I2, s2):
                if e.kind == "attr":
                    continue
                for r, p in alias_paths(tgt):
                    if r is me and p and p[0] in slots and len(p) > 1:
                        bad.append(f"{e.where}: changes an entry of {p[0]}")
            rep.check("isolation", name, f.where, not bad, "; ".join(sorted(set(bad))[:3]))


def bottom_up(ctx, c):
    """the methods of a class, the ones they call first"""
    ms = {f.name: f for f in methods_of(ctx, c)}
    out, busy = [], set()

    def go(n):
        if n in busy:
            return
        busy.add(n)
        for x in ast.walk(ms[n].node):
            if isinstance(x, ast.Attribute) and x.attr in ms:
                go(x.attr)
        out.append(ms[n])
    for n in ms:
        go(n)
    return out


def orders(ctx, rep):
    """the orders and terms of an answer"""
    c = ctx.cls("Closure")
    slots = memo_slots(ctx, c)
    f = ctx.method("Closure", "closure_by_order")
    I, me, H, v, s = history(ctx, c, f, slots, OPAQUE | {"taylor"})
    hs = set(H.values())
    v = specialise(drop_known(v, hs), tuple(not_(q) for q in facts_of(v, hs)))
    order = mk("param", "order")
    where = f.where
    VOC = {"Expectation", "Derivative", "int", "factorial", "coeff", "expand", "taylor", "all_of_degree", "count", "Integer",
           "get", "as_coefficients_dict"}
    lv = list(parts_flat(v.args[1])) if v.op == "coll" and v.args[0] == "dict" else []
    if len(lv) != 1 or lv[0][0].op != "kv" or len(lv[0][2]) != 1 or lv[0][1]:
        bad = v.op == "coll" and v.args[0] == "dict" and len(lv) == 1 and lv[0][1]
        rep.check("orders", "closure_by_order", where, False if bad else None, short(v, 500))
        return
    kv, _, (i,) = lv[0]
    key, sub = kv.args
    key = key.args[0] if key.op in ("call", "int") and key.args and isinstance(key.args[0], T) and key.op == "int" else key
    if gcall(key, "int"):
        key = key.args[1][0]
    n = add(order, num(1))
    rep.check("orders", "closure_by_order", where,
              True if key is i and i.args[0] is n else (False if understood(i.args[0], VOC) and understood(key, VOC) else None),
              f"orders {short(key)} for {short(i.args[0])} values, expected 0..order")
    lv = list(parts_flat(sub.args[1])) if sub.op == "coll" and sub.args[0] == "dict" else []
    if len(lv) != 1 or lv[0][0].op != "kv" or len(lv[0][2]) != 1:
        rep.unsure("orders", "closure_by_order:terms", where, short(sub, 500))
        return
    kv, gs, (j,) = lv[0]
    src = j.args[0].args[0] if j.args[0].op == "len" else None
    okall = src is not None and mcall(src, "all_of_degree") or src is not None and src.op == "call" and "all_of_degree" in repr(src.args[0])
    deg = None
    if okall:
        deg = src.args[1][-1]
        deg = deg.args[0] if deg.op == "int" else (deg.args[1][0] if gcall(deg, "int") else deg)
        coords = src.args[1][0]
    rep.check("orders", "closure_by_order:all", where,
              False if gs and understood(and_(*gs), VOC | {"metric_func"}) else (True if okall and deg is i and not gs and
              coords.op == "attr" and coords.args[1] in ("spatial_coordinates", "_x") else (False if okall and deg is not i and
                                                                      understood(deg, VOC) else None)),
              f"multi-indices {short(src) if src is not None else '?'} guards {[short(g) for g in gs]}")
    term, val = kv.args
    alpha = sub_(src, j) if src is not None else None
    eps = mk("attr", me, "epsilon")
    ok = gcall(term, "Expectation")
    arg = term.args[1][0] if ok else None
    want = None
    if ok:
        ders = [x for x in walk(arg) if gcall(x, "Derivative")]
        ok = len(ders) == 1 and arg is mul(eps, ders[0]) and ders[0].args[1][0] is eps and len(ders[0].args[1]) == 2 and \
            ders[0].args[1][1].op == "star" and ders[0].args[1][1].args[0] in (mk("attr", alpha, "as_couples"),
                                                                           mk("attr", alpha, "as_sequence"))
    rep.check("orders", "closure_by_order:term", where, True if ok else (False if understood(term, VOC) else None),
              f"term {short(term)} must be E[eps D^alpha eps]")
    tay = {x for x in walk(val) if x.op == "call" and x.args[0].op in ("attr", "bound") and "taylor" in x.args[0].args}
    if len(tay) != 1:
        rep.check("orders", "closure_by_order:expansion", where, None, f"{len(tay)} expansions in {short(val)}")
    else:
        o = tay.pop().args[1][0]
        # series(dx, 0, n) keeps the powers below n: n must exceed the order asked
        o = rewrite(o, lambda x: x.args[1][0] if gcall(x, "int") and x.args[1][0].op == "ix" else (
            x.args[0] if x.op == "int" and x.args[0].op == "ix" else x))
        d = nsub(o, i)
        d2 = nsub(o, order)
        good = numval(d) is not None and numval(d) >= 1 or numval(d2) is not None and numval(d2) >= 1
        badk = numval(d) is not None and numval(d) < 1 or numval(d2) is not None and numval(d2) < 1
        rep.check("orders", "closure_by_order:expansion", where, True if good else (False if badk else None),
                  f"term of degree {short(i)} (up to {short(order)}) from the expansion with powers below {short(o)}")
    # the union
    f = ctx.method("Closure", "closure")
    I, me, H, v, s = history(ctx, c, f, slots, OPAQUE | {"closure_by_order"})
    lv = list(parts_flat(v.args[1])) if v.op == "coll" and v.args[0] == "dict" else []
    q = [x for x in walk(v) if x.op == "call" and x.args[0].op in ("attr", "bound") and "closure_by_order" in repr(x.args[0])]
    q = list(dict.fromkeys(q))
    ask = q[0] if len(q) == 1 else q[0] if q and all(any(y is q[0] for y in walk(x)) for x in q) else None
    full, part, other = [], [], []
    for x, gs, ixs in lv:
        # the terms of all the orders, or those of one order
        if x.op == "splat" and not gs and len(ixs) == 1 and x.args[0].op == "sub" and \
                ixs[0].args[0] in (len_(ask), len_(mk("valuesof", ask))):
            full.append(x)
        elif x.op == "splat" and not gs and not ixs and (mcall(x.args[0], "pop") and x.args[0].args[0].args[0] is ask or
                                                         x.args[0].op == "sub" and x.args[0].args[0] is ask):
            part.append(x.args[0])
        else:
            other.append((x, gs))
    # orders which are removed from the answer before its use
    gone = [e for e in I.effects if e.kind == "mut" and e.target is ask]
    lost = [e for e in gone if e.key in ("pop", "popitem", "clear", "remove", "discard") and
            not any(mcall(p, "pop") and p.args[1] == tuple(e.value or ()) for p in part)]
    ok = ask is not None and len(full) == 1 and not other and ask.args[1] == (order,) and not lost and len(gone) <= len(part)
    # the terms of the last order only
    last = ask is not None and v.op == "lastof" and v.args[1].op == "sub" and v.args[1].args[0] is ask
    bad = ask is not None and (ask.args[1] != (order,) or len(lv) == 1 and lv[0][1] or full and not other and lost or last)
    rep.check("orders", "closure", f.where, True if ok else (False if bad else None), short(v, 400))
    # the expansion itself
    f = ctx.method("Closure", "taylor")
    I, me, H, v, s = history(ctx, c, f, slots, OPAQUE)
    hs = set(H.values())
    v = specialise(drop_known(v, hs), tuple(not_(q) for q in facts_of(v, hs)))
    ser = list(dict.fromkeys(x for x in walk(v) if mcall(x, "series")))
    if len(ser) == 1 and v.op == "fold":
        a = list(ser[0].args[1])
        # series(x=None, x0=0, n=6, dir='+')
        kw_ = dict(ser[0].args[2])
        for k, (nm, dflt) in enumerate((("x", NONE), ("x0", num(0)), ("n", num(6)))):
            if k == len(a):
                a.append(kw_.pop(nm, dflt))
        if kw_:
            a = a[:1]
        ix = v.args[0]
        dx = mk("attr", me, "_dx")
        okv = len(a) == 3 and a[0] is sub_(dx, ix) and a[1] is num(0) and a[2] is order and ix.args[0] in (
            len_(dx), len_(mk("attr", me, "_x")))
        bad = len(a) == 3 and all(understood(x, VOC) for x in a) or ix.args[0] not in (len_(dx),)
        rep.check("orders", "taylor:variables", f.where, True if okv else (False if bad else None),
                  f"series({', '.join(short(x) for x in a)}) for {short(ix.args[0])} variables")
        start = v.args[2]
        cor = start if mcall(start, "correlation") or start.op == "call" and "correlation" in repr(start.args[0]) else None
        step = ser[0].args[0].args[0]
        rep.check("orders", "taylor:correlation", f.where, True if cor is not None and step.op == "carry" else None, short(start))
        rep.check("orders", "taylor:order-term", f.where, True if any(mcall(x, "removeO") and x.args[0].args[0] is ser[0]
                                                                      for x in walk(v)) else None, "removeO of the expansion")
    elif ser and v.op != "fold" and all(x.args[1][0].op == "sub" and x.args[1][0].args[0] is mk("attr", me, "_dx") and
                                        numval(x.args[1][0].args[1]) is not None for x in ser):
        rep.bad("orders", "taylor:variables", f.where, f"expansion in {len(ser)} variables only")
    else:
        rep.unsure("orders", "taylor:variables", f.where, short(v, 500))


def helper_of(ctx, fi, c):
    """a function used by the methods of the class only: it is analysed with them"""
    if fi.cls is not None or fi.parent is not None if hasattr(fi, "parent") else fi.cls is not None:
        return False
    inside = {id(x) for m in c.methods.values() for x in ast.walk(m.node)} | {id(x) for x in ast.walk(fi.node)}
    uses = [x for m in ctx.pkg.modules.values() for x in ast.walk(m.tree)
            if isinstance(x, ast.Name) and x.id == fi.name or isinstance(x, ast.Attribute) and x.attr == fi.name
            or isinstance(x, ast.alias) and x.name in (fi.name, "*") and False]
    return bool(uses) and all(id(x) in inside for x in uses)


def tree(ctx, rep):
    c = ctx.cls("UnivariateTree")
    me = mk("self", c.qual)
    f = ctx.method("UnivariateTree", "__call__")
    deg = mk("attr", me, "_degree")
    lev = mk("attr", me, "_levels")
    degree = mk("param", "degree")
    given = (not_(N.is_(degree, NONE)),)
    I = ctx.interp(opaque=OPAQUE)
    v, s = I.run_function(f, self_obj=me, st=State({}).assume(given[0]))
    ctx.visited |= I.visited
    v = specialise(I.fz(v, s), given)
    where = f.where
    stores = [e for e in I.effects if e.kind == "sub" and isinstance(e.target, T) and I.fz(e.target, s) is lev]
    if not stores:
        rep.unsure("tree", "levels", where, "no level is stored")
        return
    e = stores[0]
    key = specialise(I.fz(e.key, s), given)
    outer = e.loops[0] if e.loops else None
    n = specialise(outer.args[0], given) if outer is not None else None
    inc = [x for x in I.effects if x.kind == "attr" and x.target is me and x.key == "_degree"]
    incv = [specialise(I.fz(x.value, s), given) for x in inc]
    nlev = nsub(degree, deg)
    by_while = n is not None and n.op == "whilelen" and any(q is N.lt_(deg, degree) for q in e.pc) if hasattr(N, "lt_") else \
        n is not None and n.op == "whilelen" and any(q.op == "lt" and q.args == (deg, degree) for q in
                                                     [specialise(q, given) for q in e.pc])
    consecutive = len(e.loops) == 1 and (key is add(deg, num(1)) and incv and all(x is add(deg, num(1)) for x in incv) or
                                         key is add(add(deg, num(1)), outer) and n is nlev)
    count = outer is not None and (n is nlev or by_while)
    known = n is not None and n.op != "whilelen" and understood(n, ())
    rep.check("tree", "levels:count", e.where, True if count else (False if known or outer is None else None),
              f"{short(n) if n is not None else 1} levels added to reach the degree asked from the current one")
    rep.check("tree", "levels:consecutive", e.where, True if consecutive else
              (False if understood(key, ()) and all(understood(x, ()) for x in incv) else None),
              f"level stored at {short(key)}, degree becomes {[short(x) for x in incv]}")
    # nothing is added when the degree is already there
    q = specialise(and_(*e.pc), given)
    # the answer: union of the levels up to the degree asked
    lv = list(parts_flat(v.args[1])) if v.op == "coll" and v.args[0] == "dict" else []
    if len(lv) == 1 and lv[0][0].op == "splat" and len(lv[0][2]) == 1:
        p, gs, (i,) = lv[0]
        k = sub_(lev, i)
        srcs = p.args[0]
        g = and_(*gs) if gs else TRUE
        # by items: levels of key <= degree ; by range: levels 1..degree
        if srcs is sub_(lev, k) and i.args[0] is len_(lev):
            ok = g is not_(mk("lt", degree, k))
            rep.check("tree", "answer", where, True if ok else (False if understood(g, ()) else None),
                      f"levels under {short(g)}, expected level <= degree")
        elif srcs.op == "sub" and srcs.args[0] is lev and numval(nsub(srcs.args[1], i)) is not None and not gs:
            d0 = numval(nsub(srcs.args[1], i))
            total = nsub(add(i.args[0], num(d0)), degree)
            ok = d0 in (0, 1) and total is num(1)
            rep.check("tree", "answer", where, True if ok and d0 == 1 else (False if understood(i.args[0], ()) else None),
                      f"levels {short(srcs.args[1])} for {short(i.args[0])} values")
        else:
            rep.unsure("tree", "answer", where, short(v, 400))
    else:
        bad = v is mk("attr", me, "_tree") or v.op == "coll" and any(x is mk("attr", me, "_tree") for x in walk(v))
        rep.check("tree", "answer", where, False if bad else None, f"answer {short(v, 400)}")
    kept = I.fz(e.value, s)
    rep.check("tree", "level:own", e.where, False if kept.op == "attr" and kept.args[0] is me else (True if kept.op == "coll" else None),
              f"each level keeps its own terms: {short(kept, 200)}")
    # what a level is made of: only the configuration and the lower levels
    val = I.fz(e.value, s)
    reads = {x.args[1] for x in walk(val) if x.op == "attr" and x.args[0] is me}
    extra = reads - {"epsilon", "spatial_coordinates", "_self_substitute", "_degree", "_tree", "_levels"}
    ps = {x.args[0] for x in walk(specialise(val, given)) if x.op == "param"} - ({"degree"} if key is not add(deg, num(1)) else set())
    rep.check("tree", "level:inputs", e.where, False if ps else (True if not extra else None),
              f"a level depends on {sorted(ps | extra)}")
    # nobody else changes the tree
    from .c05 import mutations
    for fi in nested_functions(ctx):
        if fi.cls is c or helper_of(ctx, fi, c):
            continue
        hits = [n for n in ast.walk(fi.node) if isinstance(n, ast.Attribute) and n.attr in ("_levels", "_tree")]
        if hits:
            rep.unsure("tree", f"foreign:{fi.qual}", fi.where, "uses the inner dictionaries of a tree")
    # the answer is not one of the kept levels
    def inner(x):
        if x.op == "phi":
            return inner(x.args[1]) or inner(x.args[2])
        return x is lev or x.op == "attr" and x.args[0] is me or x.op == "sub" and x.args[0] is lev
    rep.check("tree", "fresh", where, False if inner(v) else (True if v.op == "coll" else None),
              short(v, 100))


def run(ctx, rep, tier):
    rep.rule("history", "an answer is computed from the arguments and the configuration; earlier entries stay and are not read", 12)
    rep.rule("isolation", "no query changes the stored answer of another query", 8)
    rep.rule("orders", "each order 0..n is returned, with all its terms, from an expansion of sufficient order", 8)
    rep.rule("tree", "levels are computed once each in increasing order; the answer is made of the levels up to the degree", 6)
    rep.rule("key", "an answer kept is kept and read under a key that determines the query", 4)
    closure_history(ctx, rep)
    orders(ctx, rep)
    tree(ctx, rep)
