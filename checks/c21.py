"""C21: generated programs are closed, and each of their components is the one of its equation."""
import ast
from .base import *
from .pipeline import *
from engine.defuse import ModuleScope

BUILDERS = {"fd": "FDModelBuilder", "manifold": "ManifoldModelBuilder"}
BUILTIN_CODE = {f"rhs{k}" for k in range(20)} | {f"code{k}" for k in range(400)}


# ------------------------------------------------------------------ abstract systems
def system(np_=2, nx=2, ncf=2, nk=2, nc=2, orders=(1, 2, 3), mixed=True, rotate=0, der_of_all=True, name="", scrambled=False, raw=None, extra=(), reverse=False):
    """np_ prognostic functions declared in an order which is not the alphabetical one, equations in another order (rotate)"""
    coords = ["xb", "xa", "xc"][:nc]
    deps = ("t",) + tuple(coords)
    prog = [(f"p{'cabde'[i]}", deps if i % 2 == 0 or nc == 1 else deps[:2]) for i in range(np_)]
    exo = [(f"e{'bac'[i]}", deps) for i in range(nx)]
    cfun = [(f"c{'bac'[i]}", deps[1:]) for i in range(ncf)]
    con = [f"k{'bac'[i]}" for i in range(nk)]
    ders = []
    for n, d in (prog + exo + cfun if der_of_all else prog):
        cs = [x for x in d if x != "t"]
        for x in cs[:2]:
            for o in orders:
                ders.append((n, ((x, o),)))
        if mixed and len(cs) > 1:
            ders.append((n, tuple(sorted(((cs[0], 1), (cs[1], 1))))))
            ders.append((n, tuple(sorted(((cs[0], 2), (cs[1], 1))))))
            ders.append((n, tuple(sorted(((cs[0], 1), (cs[1], 2))))))
    s = System(prog, exo, cfun, con, coords, ders, (), name=name, scrambled=scrambled, reverse=reverse, **({"raw": raw} if raw else {}))
    atoms = list(s.ders) + list(s.prog) + list(s.exo) + list(s.cfun) + list(s.con) + [s.time] + list(extra)
    eqs = []
    for k in range(np_):
        p = s.prog[(k + rotate) % np_]
        # every equation has its own subset of symbols, the first one has all of them
        a = [x for i, x in enumerate(atoms) if k == 0 or (i + k) % 3]
        if k % 2:
            a = a[::-1]
        eqs.append((Sym("trend", p.data[0]), Sym("expr", k, tuple(a))))
    s.eqs = eqs
    return s


def shapes(tier):
    out = [("full", {}), ("one function", dict(np_=1, nx=0, ncf=0, nk=0, nc=1, rotate=0)),
           ("three functions, three coordinates", dict(np_=3, nx=1, ncf=1, nk=1, nc=3, rotate=0, orders=(1, 2))),
           ("no derivative", dict(nx=1, ncf=1, nk=1, orders=(), mixed=False)),
           ("scrambled sets", dict(scrambled=True)), ("reversed canonical order", dict(reverse=True)),
           ("named", dict(np_=1, nx=0, ncf=0, nk=1, nc=2, rotate=0, name="Burgers", orders=(1,)))]
    for nx in (0, 1):
        for ncf in (0, 1):
            for nk in (0, 1):
                out.append((f"{nx} exogenous, {ncf} constant functions, {nk} constants", dict(np_=2, nx=nx, ncf=ncf, nk=nk, nc=1, orders=(1, 2))))
    if tier == "thorough":
        for np_ in (1, 2, 3, 4):
            for nc in (1, 2, 3):
                for nm, kw in (("", {}), (", scrambled", dict(scrambled=True)), (", reversed", dict(reverse=True)), (", orders 1 to 4", dict(orders=(1, 2, 3, 4)))):
                    out.append((f"{np_} functions, {nc} coordinates{nm}", dict(np_=np_, nc=nc, nx=3, ncf=3, nk=3, **kw)))
    return out


# ------------------------------------------------------------------ the generated module
def generated(ctx, tag, source, probes=""):
    name = f"generated_{tag}"
    try:
        m = ModuleInfo(name, f"<{name}>", f"<generated program: {tag}>", False, source + probes)
    except SyntaxError as e:
        return None, e
    ctx.pkg.modules[name] = m
    return m, None


def model_class(m):
    cs = [c for c in m.classes.values()]
    return cs[0] if len(cs) == 1 else None


def closed(ctx, rep, inst, where, m, src):
    tree = ast.parse(src)
    P = ModuleScope(tree.body, BUILTIN_CODE).problems
    rep.check("closed", f"{inst}: names", where, not P, "; ".join(f"{n} at line {l}: {w}" for k, n, l, w in P[:4]) or f"{len(src.splitlines())} lines")
    c = model_class(m)
    if c is None:
        rep.bad("closed", f"{inst}: class", where, f"{len(m.classes)} classes in the program")
        return None
    # attributes of self
    from .c24 import class_names, self_attrs, USER_ATTRIBUTES
    static, inst_ = class_names(ctx, c)
    known = static | set(inst_)
    for k in ctx.pkg.mro(c):
        known |= USER_ATTRIBUTES.get(k.name, set())
    for k in [c]:
        missing = sorted({x.attr for f in k.methods.values() for x in self_attrs(f)} - known)
        rep.check("closed", f"{inst}: attributes", where, not missing, f"no attribute {', '.join(missing)}" if missing else "")
    init = ctx.pkg.find_method(c, "__init__")
    base = [k for k in ctx.pkg.mro(c) if k.name == "Model"]
    rep.check("closed", f"{inst}: model", where, bool(base) and c in ctx.pkg.mro(c) and bool(init) and bool(ctx.pkg.find_method(c, "trend")),
              "the class is not a Model with a trend" if not base else "")
    return c


def class_tuple(c, n):
    """value of an attribute of the class written as a literal"""
    for st in c.node.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in st.targets):
            try:
                return ast.literal_eval(st.value)
            except ValueError:
                return None
    return ()


def layout(rep, inst, where, c, sy):
    srt = lambda xs: sorted(xs, key=sy.sortkey)
    want = {"prognostic_functions": [f.data[0] for f in sy.prog], "coordinates": [x.data[0] for x in sy.coords],
            "exogenous_functions": [f.data[0] for f in srt(sy.exo)], "constant_functions": [f.data[0] for f in srt(sy.cfun)],
            "constants": [k.data[0] for k in srt(sy.con)]}
    for n, w in want.items():
        got = class_tuple(c, n)
        inst_ = f"{inst}: {n}"
        if got is None:
            rep.unsure("layout", inst_, where, "value not written as a literal")
        elif isinstance(got, str) or not isinstance(got, (tuple, list)):
            rep.bad("layout", inst_, where, f"{got!r} is no sequence of names")
        elif n in ("prognostic_functions", "coordinates"):
            rep.check("layout", inst_, where, list(got) == w, f"{list(got)}; the order of the system is {w}")
        else:
            rep.check("layout", inst_, where, sorted(got) == sorted(w), f"{list(got)} for {w}")


def atom_term(a, sy, c, kind, me, t, state):
    """what a symbol of a right hand side is in the method trend"""
    if a.kind == "fn":
        if a in sy.prog:
            return sub_(state, num(sy.prog.index(a)))
        if a in sy.exo:
            names = class_tuple(c, "exogenous_functions")
            ex = mk("call", mk("attr", me, "compute_exogenous"), (t, state), ())
            return sub_(ex, num(list(names).index(a.data[0]))) if names and a.data[0] in names else None
        return mk("attr", me, a.data[0])
    if a.kind == "con":
        return mk("attr", me, a.data[0])
    if a is sy.time:
        return t
    if a.kind == "der":
        f = atom_term(sy.fn[a.data[0]], sy, c, kind, me, t, state)
        if kind == "fd":
            return ("code", f"code{sy.ders.index(a)}", (f,))
        args = [f]
        for x, o in a.data[1]:
            args += [string(x), num(o)]
        return ("diff", mk("attr", me, "base_space"), tuple(args), {x: o for x, o in a.data[1]})
    return None


def same(x, w, kind):
    """True / False / None"""
    if isinstance(w, tuple) and w[0] == "code":
        if x.op == "call" and x.args[0].op in ("global", "undefined", "name", "free") or x.op == "call":
            n = str(x.args[0].args[-1]).split(".")[-1] if x.args[0].args else ""
            return n == w[1] and len(x.args[1]) == len(w[2]) and all(same(a, b, kind) is True for a, b in zip(x.args[1], w[2]))
        return None
    if isinstance(w, tuple) and w[0] == "diff":
        if not mcall(x, "diff") or x.args[2]:
            return None
        a = x.args[1]
        if x.args[0].args[0] is not w[1]:
            return False
        if not a or same(a[0], w[2][0], kind) is not True:
            return False
        rest = a[1:]
        # pairs (coordinate, order)
        d = {}
        k = 0
        while k < len(rest):
            if rest[k].op != "str":
                return False
            if k + 1 < len(rest) and numval(rest[k + 1]) is not None:
                d[rest[k].args[0]] = d.get(rest[k].args[0], 0) + numval(rest[k + 1])
                k += 2
            else:
                d[rest[k].args[0]] = d.get(rest[k].args[0], 0) + 1
                k += 1
        return d == w[3]
    return x is w


def trend_rule(ctx, rep, inst, where, c, sy, kind):
    f = ctx.pkg.find_method(c, "trend")
    I, v, s = ctx.run(f, cls=c, opaque={"compute_exogenous"})
    v = I.fz(v, s)
    me = mk("self", c.qual)
    a = [x.arg for x in f.node.args.args]
    if len(a) != 3:
        rep.bad("trend", f"{inst}: signature", where, f"trend({', '.join(a)})")
        return
    t, state = mk("param", a[1]), mk("param", a[2])
    comp = {}
    for e in I.effects:
        if e.kind in ("sub", "aug"):
            tg = I.fz(e.target, s)
            k = e.key
            k = I.fz(k, s) if isinstance(k, T) else k
            val = I.fz(e.value, s)
            if tg is v or has_root(tg, v):
                i = component_of(tg, k, v)
                comp.setdefault(i, []).append((e, val))
            elif has_root(tg, state):
                rep.bad("trend", f"{inst}: state", where, f"the state given is changed at line {e.where.split(':')[-1]}")
                return
    r = root_of(v)
    if r is state:
        rep.bad("trend", f"{inst}: result", where, "the state itself is returned")
        return
    fresh = mcall(r, "copy") or gcall(r, "copy", "deepcopy") or gcall(r, "zeros", "zeros_like", "empty", "empty_like", "full", "array", "ones", "ones_like")
    if gcall(v, "array", "stack", "asarray") and v.args[1] and v.args[1][0].op == "coll":
        for i, (p, gs, ixs) in enumerate(parts_flat(v.args[1][0].args[1])):
            comp[i] = [(None, p)]
    elif fresh and gcall(r, "zeros", "empty", "ones", "full"):
        rep.check("trend", f"{inst}: shape", where, True if r.args[1] and r.args[1][0] is mk("attr", state, "shape") else None, short(r, 80))
    elif not fresh:
        rep.unsure("trend", f"{inst}: result", where, short(v, 200))
        return
    dtype = dict(r.args[2]).get("dtype") if r.op == "call" else None
    if dtype is None and gcall(r, "zeros", "empty", "ones", "zeros_like", "empty_like", "ones_like") and len(r.args[1]) > 1:
        dtype = r.args[1][1]
    if dtype is not None:
        n = dtype.args[0] if dtype.op in ("str", "global") else dtype.args[1] if dtype.op == "attr" else str(dtype)
        n = str(n).split(".")[-1]
        wide = n in ("float", "float64", "double", "longdouble", "float128", "complex", "complex128", "dtype", "None", "f8", "d", "float_")
        narrow = n in ("float32", "single", "float16", "half", "bool", "bool_", "f4", "f") or n.startswith(("int", "uint"))
        rep.check("trend", f"{inst}: numbers", where, True if wide else False if narrow else None, f"the trend is made of {n}")
    for i, p in enumerate(sy.prog):
        inst_ = f"{inst}: component {i}"
        k, expr = next((k, e) for k, (l, e) in enumerate(sy.eqs) if l.data[0] == p.data[0])
        w = comp.get(i, [])
        if None in comp:
            rep.unsure("trend", inst_, where, f"{len(comp[None])} assignments to components not understood")
            continue
        if not w:
            rep.bad("trend", inst_, where, "this component of the trend is never set")
            continue
        e, val = w[-1]
        if e is not None and (e.kind == "aug" or e.pc or e.loops):
            if e.kind == "aug" and gcall(r, "zeros", "zeros_like") and len(w) == 1 and not e.pc and not e.loops:
                pass
            else:
                rep.unsure("trend", inst_, where, "set under a condition")
                continue
        if gcall(r, "zeros", "zeros_like") and len({getattr(x, "where", None) for x, _ in w}) == 1 and val.op != "call":
            # added to an array of zeros
            q = val
            for x in TT.walk(val):
                if x.op == "sub" and root_of(x) is r:
                    y = add(val, neg(x))
                    q = y if y.op == "call" else q
            val = q
        if val.op != "call" or not str(val.args[0].args[-1]).split(".")[-1].startswith("rhs"):
            rep.unsure("trend", inst_, where, short(val, 200))
            continue
        n = str(val.args[0].args[-1]).split(".")[-1]
        if n != f"rhs{k}":
            rep.bad("trend", inst_, where, f"set from the right hand side of equation {n[3:]}, {p.data[0]} is the one of equation {k}")
            continue
        got = list(val.args[1])
        if len(got) != len(expr.data[1]):
            rep.bad("trend", inst_, where, f"{len(got)} symbols of the right hand side for {len(expr.data[1])}")
            continue
        bad = unk = None
        for x, a_ in zip(got, expr.data[1]):
            want = atom_term(a_, sy, c, kind, me, t, state)
            ok = same(x, want, kind)
            if ok is False:
                bad = bad or (a_, x)
            elif ok is None:
                unk = unk or (a_, x)
        if bad:
            rep.bad("trend", inst_, where, f"{bad[0]} of the right hand side is {short(bad[1], 120)} in the program")
        elif unk:
            rep.unsure("trend", inst_, where, f"{unk[0]} is {short(unk[1], 120)} in the program")
        else:
            rep.ok("trend", inst_, where, f"{len(got)} symbols")
    over = [i for i in comp if isinstance(i, int) and not 0 <= i < len(sy.prog)]
    rep.check("trend", f"{inst}: components", where, not over, f"components {over} of a state of {len(sy.prog)} components" if over else "")


def root_of(t):
    while True:
        if t.op in ("sub", "setitem", "mutated"):
            t = t.args[0]
        elif gcall(t, "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "ravel", "reshape") and t.args[1]:
            t = t.args[1][0]
        elif mcall(t, "view", "ravel", "reshape", "squeeze"):
            t = t.args[0].args[0]
        else:
            return t


def has_root(t, v):
    return root_of(t) is root_of(v)


def component_of(tg, key, v):
    """index of the component an assignment writes: a[i][:] = .., a[i] = .."""
    path = []
    x = tg
    while x.op == "sub":
        path.insert(0, x.args[1])
        x = x.args[0]
    if isinstance(key, T):
        path.append(key)
    if path and numval(path[0]) is not None and numval(path[0]) == int(numval(path[0])) and all(full_slice(p) for p in path[1:]):
        return int(numval(path[0]))
    return None


def full_slice(p):
    return p.op == "slice" and all(x is NONE for x in p.args) or p.op in ("ellipsis",) or p.op == "py" and p.args[0] is Ellipsis


# ------------------------------------------------------------------ parameters
def parameters(ctx, rep, inst, where, kind, tag, src, sy, cname):
    """constants and constant functions: nan unless given"""
    names = [k.data[0] for k in sy.con] + [f.data[0] for f in sy.cfun]
    if not names:
        return
    given = names[::2]
    first = "" if kind == "fd" else "space, "
    probe = (f"\n\ndef probe_parameters(space, {', '.join('v_' + n for n in given)}):\n"
             f"    m = {cname}({first}time_scheme='euler', {', '.join(f'{n}=v_{n}' for n in given)})\n"
             f"    return {', '.join('m.' + n for n in names)},\n")
    m, err = generated(ctx, tag + "_parameters", src, probe)
    I, v, s = ctx.run(m.funcs["probe_parameters"])
    v = I.fz(v, s)
    if v.op != "coll":
        rep.unsure("parameters", inst, where, short(v))
        return
    for n, (x, gs, ixs) in zip(names, parts_flat(v.args[1])):
        x = N.specialise(x, set())
        w = mk("param", "v_" + n) if n in given else None
        if n in given:
            ok = True if x is w else False if understood(x) else None
        else:
            ok = True if "nan" in repr(x).lower() and not has_params(x) else False if understood(x) else None
        rep.check("parameters", f"{inst}: {n} {'given' if n in given else 'not given'}", where, ok, short(x, 120))


def options(ctx, rep, inst, where, kind, tag, src, cname):
    """the time scheme given to a generated model is the one of the model it extends"""
    first = "" if kind == "fd" else "space, "
    for scheme in ("euler", "leapfrog", None):
        given = "" if scheme is None else f"time_scheme={scheme!r}"
        probe = (f"\n\ndef probe_options(space):\n    return {cname}({first}{given}).time_scheme\n"
                 f"\n\ndef probe_base():\n    return Model({given}).time_scheme\n")
        m, err = generated(ctx, f"{tag}_options_{scheme}", src, probe)
        got = []
        for n in ("probe_options", "probe_base"):
            I, v, s = ctx.run(m.funcs[n])
            v = N.specialise(I.fz(v, s), set())
            got.append((str(v.args[-1]).split(".")[-1] if v.op in ("global", "attr", "bound") else v.op if v.op in ("bottom", "undefined") else None, v))
        (a, x), (b, y) = got
        ok = a == b if a is not None and b is not None else True if x is y else None
        rep.check("parameters", f"{inst}: time scheme {scheme or 'not'} given", where, ok, f"{a}" + ("" if ok else f", {b} for the model extended"))


def has_params(x):
    return any(y.op == "param" and str(y.args[0]).startswith("v_") for y in TT.walk(x))


# ------------------------------------------------------------------ builders
def where_of(ctx, b):
    return ctx.method(b, "_render").where if ctx.pkg.find_method(ctx.cls(b), "_render") else ctx.method(b, "code").where


def pipelines(ctx):
    out = {}
    for k, b in BUILDERS.items():
        out[k] = Pipeline(ctx, [f"b = {b}(system, name)", "return b.code"], tag=f"code_{k}")
    return out


def programs(ctx, rep, tier):
    pls = pipelines(ctx)
    nsrc = 0
    for kind, P in pls.items():
        where = where_of(ctx, BUILDERS[kind])
        for j, (label, sh) in enumerate(shapes(tier)):
            inst = f"{kind} model, {label}"
            sy = system(**sh)
            try:
                src = P.lit(P.run({"system": sy}))
            except Unknown as e:
                rep.unsure("closed", f"{inst}: names", where, e)
                continue
            except Raised as e:
                rep.bad("closed", f"{inst}: names", where, f"no program: raises {e}")
                continue
            und = sorted(set().union(*[f.undefined for f in P.fills]))
            rep.check("closed", f"{inst}: templates", where, not und, f"no value for {', '.join(und)} in the templates" if und else "")
            nsrc += 1
            m, err = generated(ctx, f"{kind}_{j}", src)
            if err is not None:
                rep.bad("closed", f"{inst}: names", where, f"the program is not valid: {err}; {(err.text or '').strip()[:120]}")
                continue
            c = closed(ctx, rep, inst, where, m, src)
            if c is None:
                continue
            want = sy.name or "NumModel"
            layout(rep, inst, where, c, sy)
            trend_rule(ctx, rep, inst, where, c, sy, kind)
            parameters(ctx, rep, inst, where, kind, f"{kind}_{j}", src, sy, c.name)
            if j < 2:
                options(ctx, rep, inst, where, kind, f"{kind}_{j}", src, c.name)
    rep.saw(*[f.qual for b in ("ModelBuilder", *BUILDERS.values()) for f in ctx.cls(b).methods.values()])


def unbound(ctx, rep):
    """symbols a right hand side may have that the program does not define"""
    for kind, P in pipelines(ctx).items():
        where = where_of(ctx, BUILDERS[kind])
        for what, atom in (("spatial coordinate", Sym("co", "xb")), ("trainable scalar", Sym("train", "a"))):
            sy = system(np_=1, nx=0, ncf=0, nk=0, nc=1, rotate=0, orders=(1,), extra=(atom,))
            inst = f"{kind} model, {what} in the right hand side"
            try:
                src = P.lit(P.run({"system": sy}))
                tree = ast.parse(src)
            except (Unknown, Raised) as e:
                rep.unsure("closed", inst, where, e)
                continue
            except SyntaxError as e:
                rep.bad("closed", inst, where, f"the program is not valid: {e}")
                continue
            Pb = ModuleScope(tree.body, BUILTIN_CODE).problems
            rep.check("closed", inst, where, not Pb, "; ".join(f"{n} at line {l}: {w}" for k, n, l, w in Pb[:3]))


def history(ctx, rep):
    """the program does not depend on what the builder, or another one, computed before"""
    orders = {"properties first": ["b = {b}(system, name)", "b.trend_code", "b.constants", "b.spatial_derivatives", "b.functions", "return b.code"],
              "derivatives first": ["b = {b}(system, name)", "b.spatial_derivatives", "b.exogenous_functions", "b.constant_functions",
                                    "b.pseudo_algebraic_system", "return b.code"],
              "twice": ["b = {b}(system, name)", "b.code", "return b.code"],
              "after another system": ["o = {b}(system_other, name)", "o.code", "b = {b}(system, name)", "return b.code"]}
    a = dict(np_=2, nx=1, ncf=1, nk=2, nc=2, orders=(1, 2))
    other = dict(np_=3, nx=2, ncf=0, nk=1, nc=2, orders=(1,), rotate=0)
    for kind, b in BUILDERS.items():
        where = where_of(ctx, b)
        P0 = Pipeline(ctx, [f"b = {b}(system, name)", "return b.code"], tag=f"h_{kind}")
        try:
            ref = P0.lit(P0.run({"system": system(**a)}))
        except (Unknown, Raised) as e:
            rep.unsure("history", f"{kind} model", where, e)
            continue
        for label, body in orders.items():
            inst = f"{kind} model, {label}"
            two = "other" in label
            P = Pipeline(ctx, [x.format(b=b) for x in body], tag=f"h_{kind}_{label.split()[0]}_{two}",
                         params="system, system_other, name" if two else "system, name")
            try:
                sys_ = {"system": system(**a)}
                if two:
                    sys_["system_other"] = system(**other)
                got = P.lit(P.run(sys_))
            except Unknown as e:
                rep.unsure("history", inst, where, e)
                continue
            except Raised as e:
                rep.bad("history", inst, where, f"raises {e}")
                continue
            rep.check("history", inst, where, got == ref, "" if got == ref else f"another program: {first_difference(ref, got)}")


def first_difference(a, b):
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y:
            return f"`{y.strip()[:100]}` for `{x.strip()[:100]}`"
    return "lengths"


def refused(ctx, rep):
    """an equation which does not give the trend of a function"""
    for kind, P in pipelines(ctx).items():
        where = ctx.method("ModelBuilder", "_make_pseudo_algebaraic_system").where if ctx.pkg.find_method(ctx.cls("ModelBuilder"),
                          "_make_pseudo_algebaraic_system") else where_of(ctx, BUILDERS[kind])
        sy = system(np_=2, nx=0, ncf=0, nk=0, nc=1, orders=(1,))
        for k in range(2):
            eqs = list(sy.eqs)
            eqs[k] = (Sym("der", eqs[k][0].data[0], (("xb", 1),)), eqs[k][1])
            s2 = system(np_=2, nx=0, ncf=0, nk=0, nc=1, orders=(1,))
            s2.eqs = eqs
            inst = f"{kind} model, equation {k} of two is not prognostic"
            try:
                P.run({"system": s2})
                rep.bad("refused", inst, where, "a program is made of an equation which gives no trend")
            except Raised as e:
                rep.ok("refused", inst, where, e)
            except Unknown as e:
                rep.unsure("refused", inst, where, e)


def names(ctx, rep):
    """name of the class"""
    for kind, b in BUILDERS.items():
        where = ctx.method(b, "__init__").where
        P = Pipeline(ctx, [f"b = {b}(system, name)", "return b.class_name"], tag=f"n_{kind}")
        for given in (None, "Given"):
            for sysname in ("", "Burgers"):
                inst = f"{kind} model, name {given!r}, system named {sysname!r}"
                try:
                    got = P.lit(P.run({"system": system(np_=1, nx=0, ncf=0, nk=0, nc=1, rotate=0, orders=(), name=sysname)}, name=given))
                except (Unknown, Raised) as e:
                    rep.unsure("names", inst, where, e)
                    continue
                want = given or sysname
                ok = got == want if want else got.isidentifier()
                rep.check("names", inst, where, ok, f"class {got}")


def module_file(ctx, rep):
    """the module written is the program, under the name announced"""
    for kind, b in BUILDERS.items():
        f = ctx.method(b, "write_module")
        where = f.where
        P = Pipeline(ctx, [f"b = {b}(system, name)", "b.write_module()", "return b.module_name, b.module_file, b.code"], tag=f"w_{kind}")
        sy = system(np_=2, nx=1, ncf=0, nk=1, nc=1, orders=(1,))
        try:
            r = P.run({"system": sy}, name="GivenName")
            mod, file, code = [P.lit(x) for x in r]
        except (Unknown, Raised, ValueError) as e:
            rep.unsure("module", f"{kind} model", where, e)
            continue
        rep.check("module", f"{kind} model: names", where, file == mod + ".py" and mod.isidentifier(), f"module {mod} in file {file}")
        try:
            opened, written = files(P)
        except (Unknown, Raised) as e:
            rep.unsure("module", f"{kind} model: content", where, e)
            continue
        rep.check("module", f"{kind} model: file", where, True if opened == [(file, "w")] else (False if opened else None),
                  f"opened {opened}; announced {file}")
        ok = written is not None and written.endswith(code)
        head = written[:-len(code)] if ok else ""
        if ok:
            try:
                ast.parse(written)
                ok = not [x for x in ast.parse(head).body if not isinstance(x, ast.Expr)]
            except SyntaxError:
                ok = False
        rep.check("module", f"{kind} model: content", where, True if ok else (None if written is None else False),
                  f"header of {len(head)} characters, then the code" if ok else "what is written is not the code of the model")


def files(P):
    """[(path, mode)], text written, from the effects of the probe"""
    S, I, s = P.S, P.I, P.s
    opened, out = [], []
    todo = []
    for e in I.effects:
        if e.kind != "call":
            continue
        t = I.fz(e.target, s)
        if gcall(t, "open"):
            xs = [S.val(I.fz(a, s), P.env) for a in t.args[1]] + [S.val(I.fz(b, s), P.env) for k, b in t.args[2] if k == "mode"]
            opened.append((P.lit(xs[0]), P.lit(xs[1]) if len(xs) > 1 else "r"))
        elif mcall(t, "open") and t.args[0].args[0].op == "call":
            p = t.args[0].args[0]
            opened.append((P.lit(S.val(p.args[1][0], P.env)), P.lit(S.val(t.args[1][0], P.env)) if t.args[1] else "r"))
        elif mcall(t, "write", "writelines", "write_text"):
            todo.append((e, t))
        elif gcall(t, "print") and any(k == "file" for k, _ in t.args[2]):
            raise Unknown("print in a file")
    for e, t in todo:
        loops = [l for l in e.loops if isinstance(l, T) and l.op == "ix"]

        def go(k, env):
            if k == len(loops):
                if all(S.truth(S.val(I.fz(c, s), env)) for c in e.pc):
                    v = S.val(t.args[1][0], env)
                    if isinstance(v, list):
                        out.extend(P.lit(x) for x in v)
                    else:
                        out.append(P.lit(v))
                return
            for i in range(S.count(loops[k], env)):
                go(k + 1, {**env, loops[k]: i})
        go(0, dict(P.env))
        if mcall(t, "write_text"):
            p = t.args[0].args[0]
            if p.op == "call" and len(p.args[1]) == 1:
                opened.append((P.lit(S.val(p.args[1][0], P.env)), "w"))
    return opened, "".join(out) if todo else None


def run(ctx, rep, tier):
    rep.rule("closed", "every name of a generated program is defined before its use, and its attributes exist", 60)
    rep.rule("trend", "component i of the trend is the right hand side of the equation of the prognostic function i, in which each symbol is what it "
             "denotes: component of the state, exogenous function, parameter, or the derivative of this function", 60)
    rep.rule("layout", "the names of the components are in the order of the state, those of the coordinates in the order of the system", 60)
    rep.rule("parameters", "constants and constant functions have the value given, nan otherwise", 20)
    rep.rule("refused", "an equation which gives no trend is refused", 4)
    rep.rule("history", "the program does not depend on what was asked for before", 8)
    rep.rule("names", "the class has the name given, else the one of the system, else a default", 8)
    rep.rule("module", "the file written holds the code, under the name announced", 6)
    programs(ctx, rep, tier)
    unbound(ctx, rep)
    history(ctx, rep)
    refused(ctx, rep)
    names(ctx, rep)
    module_file(ctx, rep)
