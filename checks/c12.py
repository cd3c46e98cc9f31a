"""C12: results computed on demand and kept: same value at the first and later queries, computed again after a change of
what they depend on, not changed by others, kept only when complete."""
import ast
from .base import *
from . import oneshot
from .c14 import several
from engine.index import walk_scope

EMPTY = ("dict", "list", "set")


def slots_of(ctx):
    """class -> (attributes set to None by the constructor, attributes set to an empty container)"""
    out = {}
    for m in ctx.pkg.modules.values():
        for c in m.classes.values():
            init = ctx.pkg.find_method(c, "__init__")
            if init is None:
                continue
            me = mk("self", c.qual)
            I = ctx.interp(opaque=HEAVY)
            v, s = I.run_function(init, self_obj=me)
            ctx.visited |= I.visited
            none, empty = set(), set()
            for (o, n), x in s.attrs.items():
                if o is not me:
                    continue
                x = I.fz(x, s)
                if x is NONE:
                    none.add(n)
                elif x.op == "coll" and not x.args[1] and x.args[0] in EMPTY:
                    empty.add(n)
            out[c] = (none, empty)
    return out


def methods_of(ctx, c):
    seen, out = set(), []
    for k in ctx.pkg.mro(c):
        if not hasattr(k, "methods"):
            continue
        for f in k.methods.values():
            if f.name not in seen:
                seen.add(f.name)
                out.append(f)
    return out


def stored_names(f):
    """attributes of self a function may assign, by name"""
    first = f.node.args.args[0].arg if f.node.args.args else None
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and \
                n.value.id == first:
            out.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
            out.add("*")
    return out


def called_names(f):
    first = f.node.args.args[0].arg if f.node.args.args else None
    return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)
            and n.value.id == first}


class World:
    """one execution of a method with a slot empty or filled"""

    def __init__(self, ctx, c, f, opaque, facts=()):
        self.me = mk("self", c.qual)
        self.I = ctx.interp(opaque=opaque)
        st = State({})
        for q in facts:
            st.assume(q)
        v, self.s = self.I.run_function(f, self_obj=self.me if not f.is_static and not f.is_class else None, st=st)
        self.facts = tuple(facts)
        self.ret = specialise(self.I.fz(v, self.s), self.facts)
        ctx.visited |= self.I.visited

    def attr(self, name):
        x = self.s.attrs.get((self.me, name))
        return None if x is None else specialise(self.I.fz(x, self.s), self.facts)


def self_attrs(t, me):
    return {x.args[1] for x in walk(t) if x.op == "attr" and x.args[0] is me}


def same(a, b):
    return a is b


def run(ctx, rep, tier):
    rep.rule("getter", "a query answered from the kept value gives what the first query computed and kept", 20)
    rep.rule("first", "the first query of a new object does not answer the placeholder of a value not computed yet", 25)
    rep.rule("update", "a method that changes data resets every kept value computed from it", 3)
    rep.rule("intact", "no code changes in place a value kept by an object, except the code that computes it", 25)
    rep.rule("memo", "values kept by key depend on nothing else than the key and the object", 2)
    rep.rule("complete", "a value whose computation may fail is kept only once complete", 20)
    rep.rule("reusable", "no one-shot iterator (generator, map, zip) is kept in an object or read twice on a path", 40)
    rep.rule("given", "the external closure holds the entries given at the creation, then those given later, which replace them", 3)
    reusable(ctx, rep)
    given(ctx, rep)
    slots = slots_of(ctx)
    getters = {}          # (class, property name) -> slot
    lazy_names = set()
    for c, (none, empty) in slots.items():
        for f in methods_of(ctx, c):
            if f.name != "__init__" and none & stored_names(f):
                lazy_names.add(f.name)
    props = {f.name for c in slots for f in methods_of(ctx, c) if f.is_property}
    heavy = {"_apply_internal_closure", "_apply_closure", "_clean_system_from_expectation", "get_covariance",
             "_compute_reynolds_system", "subs_tree", "closure_by_order", "taylor"}
    done = set()
    deps_memo = {}

    # ---------------------------------------------------------------- dependencies
    def deps(c, name, trail=()):
        """attributes of the object a property or method depends on, transitively"""
        k = (c, name)
        if k in deps_memo:
            return deps_memo[k]
        if name in trail:
            return {}
        f = ctx.pkg.find_method(c, name)
        if f is None:
            return {name: (name,)}
        facts = []
        me = mk("self", c.qual)
        for a in slots.get(c, (set(), set()))[0]:
            if a in stored_names(f) or any(a in stored_names(g) for n in called_names(f)
                                           for g in [ctx.pkg.find_method(c, n)] if g is not None and g.name not in props):
                facts.append(N.is_(mk("attr", me, a), NONE))
        w = World(ctx, c, f, (props | heavy) - {name}, facts)
        names = set(self_attrs(w.ret, me))
        for (o, n), x in w.s.attrs.items():
            names |= self_attrs(w.I.fz(x, w.s), me)
        for e in w.I.effects:
            if isinstance(e.value, T):
                names |= self_attrs(w.I.fz(e.value, w.s), me)
        names |= {n for n in called_names(f) if ctx.pkg.find_method(c, n) is not None}
        own = {q.args[0].args[1] for q in facts}
        out = {}
        for n in names - own:
            if n == name:
                continue
            if ctx.pkg.find_method(c, n) is not None:
                for a, path in deps(c, n, trail + (name,)).items():
                    out.setdefault(a, (name,) + path)
            out.setdefault(n, (name, n))
        if not trail:
            deps_memo[k] = out
        return out

    # ---------------------------------------------------------------- first query of a new object
    def fillers(c, a, f):
        """methods other than f that may store something in a slot of a class"""
        me = mk("self", c.qual)
        out = []
        for g in methods_of(ctx, c):
            if g is f or g.name == "__init__" or a not in stored_names(g) and "*" not in stored_names(g):
                continue
            if g.is_static or g.is_class:
                return ["?"]
            w = World(ctx, c, g, props | HEAVY | heavy)
            if any(e.kind == "attr" and e.target is me and e.key == a and w.I.fz(e.value, w.s) is not NONE for e in w.I.effects) \
                    or "*" in stored_names(g):
                out.append(g.name)
        return out

    seen = set()
    for c, (none, empty) in slots.items():
        me = mk("self", c.qual)
        for f in methods_of(ctx, c):
            tests = sorted(a for a in none if a in called_names(f))
            if not f.is_property or f.name.startswith("__setter__") or not tests or (f.qual, tuple(tests)) in seen:
                continue
            seen.add((f.qual, tuple(tests)))
            w = World(ctx, c, f, (props | heavy) - {f.name, "_compute_reynolds_system"},
                      [N.is_(mk("attr", me, a), NONE) for a in tests])
            unset = {mk("attr", me, a): NONE for a in tests}
            bad = []
            for v, gs in phi_leaves(w.ret):
                # no answer for a single field is the answer of every query, not a placeholder
                if v in unset and any(several(not_(g), me) for g in gs):
                    continue
                if v in unset or v is NONE and v is w.ret:
                    bad.append(v)
            if bad and any(fillers(c, a, f) for a in tests):
                continue
            rep.check("first", f"{c.name}.{f.name}", f.where, not bad,
                      f"the first query of a new object answers None, the placeholder of {', '.join(tests)}")

    # ---------------------------------------------------------------- lazy getters
    for c, (none, empty) in slots.items():
        me = mk("self", c.qual)
        for f in methods_of(ctx, c):
            if f.name == "__init__" or f.is_static or f.is_class or f.name.startswith("__setter__"):
                continue
            mine = {a for a in none if a in stored_names(f)}
            if f.is_property and not mine:
                for n in called_names(f):
                    g = ctx.pkg.find_method(c, n)
                    if g is not None and not g.is_property:
                        mine |= {a for a in none if a in stored_names(g) and a in called_names(f)}
            if not mine or not f.is_property:
                continue
            owner = (f.qual, tuple(sorted(mine)))
            if owner in done:
                continue
            done.add(owner)
            where = f"{f.where}"
            short_name = f"{c.name}.{f.name}"
            # the slot of this getter: the one it answers from
            tests = [a for a in sorted(none) if a in called_names(f)]
            opq = (props | heavy) - {f.name, "_compute_reynolds_system"}
            hits = []
            for a in tests:
                F = World(ctx, c, f, opq, [not_(N.is_(mk("attr", me, a), NONE))])
                if mk("attr", me, a) in set(walk(F.ret)) or F.ret is mk("attr", me, a):
                    hits.append((a, F))
            if not hits:
                # never answers from a kept value: computed at each query, harmless
                F0 = World(ctx, c, f, opq, [N.is_(mk("attr", me, a), NONE) for a in tests])
                bad = subst(F0.ret, {mk("attr", me, a): NONE for a in tests}) is NONE
                rep.check("getter", short_name, where, False if bad else None,
                          f"query does not answer from the kept value; returns {short(F0.ret)}")
                continue
            a, F = hits[0]
            A = mk("attr", me, a)
            Nw = World(ctx, c, f, opq, [N.is_(A, NONE)])
            kept = Nw.attr(a)
            getters[(c, f.name)] = a
            if kept is None:
                # nothing is kept: computed again at each query
                ok = not any(mk("attr", me, a) is x for x in walk(Nw.ret))
                rep.check("getter", short_name, where, True if ok else None, f"nothing kept; returns {short(Nw.ret)}")
                continue
            keptv = subst(kept, {A: NONE})
            want = subst(F.ret, {A: keptv})
            got = subst(Nw.ret, {A: NONE})
            if same(want, got):
                rep.ok("getter", short_name, where, f"slot {a}")
            else:
                bad = got is NONE or keptv is NONE or F.ret is A and not F.attr(a) and Nw.ret.op == "coll" and kept.op == "coll" \
                    or (a not in {x for x in stored_names(f)} and F.ret is A and mine and keptv is NONE)
                rep.check("getter", short_name, where, False if bad or F.ret is A else None,
                          f"first query returns {short(got, 500)}, later queries {short(want, 500)}")
            # another slot must not be clobbered: the filled world leaves everything as it is
            clob = [n for (o, n), x in F.s.attrs.items() if o is me and n != a and
                    not same(specialise(F.I.fz(x, F.s), F.facts), mk("attr", me, n))]
            if clob:
                rep.bad("getter", short_name + "-writes", where, f"a query answered from {a} changes {clob}")
            other = [n for (o, n), x in Nw.s.attrs.items() if o is me and n != a and n in none]
            for n in other:
                # two slots filled together: the other one must be the slot of a getter computing the same thing
                g = [(p.name) for p in methods_of(ctx, c) if p.is_property and n in called_names(p) and p.name != f.name]
                verdict = None
                for pn in g:
                    p = ctx.pkg.find_method(c, pn)
                    W2 = World(ctx, c, p, (props | heavy) - {pn, "_compute_reynolds_system"},
                               [N.is_(mk("attr", me, n), NONE), N.is_(A, NONE)])
                    k2 = W2.attr(n)
                    if k2 is not None and same(subst(k2, {A: NONE}), subst(Nw.attr(n), {A: NONE})):
                        verdict = True
                        break
                    if k2 is not None:
                        verdict = False
                rep.check("getter", f"{short_name}-fills-{n}", where, verdict,
                          f"{n} filled while computing {a} with {short(Nw.attr(n))}")
            # ---- complete
            pub = [e for e in Nw.I.effects if e.kind == "attr" and e.target is me and e.key == a]
            part = [e for e in pub if e.extra is not None and not same(
                specialise(Nw.I.fz(e.value, Nw.s), Nw.facts), Nw.attr(a)) and not e.loops]
            risky = []
            if part:
                Wd = World(ctx, c, f, props - {f.name}, [N.is_(A, NONE)])
                first = min(k for k, e in enumerate(Wd.I.effects) if e.kind == "attr" and e.target is me and e.key == a)
                risky = [x for x in Wd.I.effects[first + 1:] if x.kind == "raise"]
            rep.check("complete", short_name, where, not risky,
                      f"{a} stored at {part[0].where if part else '-'} before {[x.where for x in risky][:2]} may fail")
    # ---------------------------------------------------------------- decorators
    for fi in ctx.pkg.functions():
        for d in fi.decorators:
            n = d.split("(")[0].split(".")[-1]
            if n in ("lru_cache", "cache") and fi.cls is not None:
                ds = deps(fi.cls, fi.name)
                changed = mutated_attrs(ctx, slots, fi.cls, props, heavy)
                hit = {a for a in ds if a in changed}
                rep.check("update", f"decorated:{fi.qual}", fi.where, False if hit else True, f"depends on {sorted(hit)}")
            if n == "cached_property" and fi.cls is not None:
                ds = deps(fi.cls, fi.name)
                for g, attrs in mutators(ctx, slots, fi.cls, props, heavy):
                    hit = {a for a in ds if a in attrs}
                    if hit:
                        drop = fi.name in stored_names(g.f) or any(isinstance(x, ast.Constant) and x.value == fi.name
                                                                   for x in ast.walk(g.f.node))
                        rep.check("update", f"decorated:{fi.qual}:{g.f.name}", fi.where, True if drop else False,
                                  f"{g.f.name} changes {sorted(hit)}")
    # ---------------------------------------------------------------- updates
    for c, (none, empty) in slots.items():
        me = mk("self", c.qual)
        mine = {(k[1], a) for k, a in getters.items() if k[0] is c}
        if not mine:
            continue
        for g, attrs in mutators(ctx, slots, c, props, heavy):
            for pn, a in sorted(mine):
                ds = deps(c, pn)
                hit = sorted(x for x in attrs if x in ds and x != a)
                if not hit:
                    rep.ok("update", f"{c.name}.{g.f.name}:{pn}", g.f.where, f"does not depend on {sorted(attrs)}")
                    continue
                # under which condition is the datum changed ; is the slot then reset
                verdict, why = True, ""
                for b in hit:
                    pcs = attrs[b]
                    for pc in pcs:
                        x = g.attr(a)
                        x = mk("attr", me, a) if x is None else specialise(x, pc)
                        if x is not NONE:
                            verdict = False if x.op in ("attr", "phi", "coll") else None
                            why = f"{pn} depends on {b} ({' -> '.join(ds[b])}), changed by {g.f.name}, {a} is then {short(x, 100)}"
                            break
                    if verdict is not True:
                        break
                rep.check("update", f"{c.name}.{g.f.name}:{pn}", g.f.where, verdict, why or f"{a} reset")
    # ---------------------------------------------------------------- in-place changes of kept values
    from .c05 import mutations
    kept_names = {k[1] for k in getters}
    kept_slots = {}
    for (c, pn), a in getters.items():
        kept_slots.setdefault(a, set()).add(pn)
    for fi in nested_functions(ctx):
        I = ctx.interp(opaque=(props | {"Field", "PDESystem", "UnivariateTree", "PartialOrderDerivative"}) - {fi.name})
        me = mk("self", fi.cls.qual) if fi.cls is not None and not fi.is_static and not fi.is_class else None
        v, s = I.run_function(fi, self_obj=me)
        ctx.visited |= I.visited
        bad = []
        for e, tgt in mutations(I, s):
            if e.kind == "attr":
                continue
            for r, p in alias_paths(tgt):
                hit = None
                for k, n in enumerate(p):
                    if n in kept_names or n in kept_slots:
                        hit = n
                if hit is None and r.op == "attr":
                    continue
                if hit is None:
                    continue
                if hit == fi.name or fi.name in kept_slots.get(hit, ()):
                    if r is me and p[0] == hit:
                        continue
                if e.kind == "aug" and not isinstance(e.target, T):
                    continue
                bad.append(f"{e.where}: changes {'.'.join(p)} in place ({e.kind} {e.key if isinstance(e.key, str) else ''})")
        rep.check("intact", fi.qual, fi.where, not bad, "; ".join(sorted(set(bad))[:3]))
    # ---------------------------------------------------------------- values kept by key
    for c, (none, empty) in slots.items():
        me = mk("self", c.qual)
        for f in methods_of(ctx, c):
            if f.cls is not c or f.is_static or f.is_class or f.name == "__init__":
                continue
            w = World(ctx, c, f, (props | HEAVY | {"taylor", "closure_by_order"}) - {f.name})
            for e in w.I.effects:
                if e.kind != "sub" or not isinstance(e.target, T):
                    continue
                tgt = w.I.fz(e.target, w.s)
                if not (tgt.op == "attr" and tgt.args[0] is me and tgt.args[1] in empty):
                    continue
                key = w.I.fz(e.key, w.s)
                guards = [q for q in e.pc if q.op == "not" and q.args[0].op == "in" and q.args[0].args[1] is tgt]
                if not guards:
                    continue
                where = e.where
                name = f"{c.name}.{f.name}:{tgt.args[1]}"
                rep.check("memo", name + ":key", where, guards[0].args[0].args[0] is key,
                          f"tests {short(guards[0].args[0].args[0])} but stores at {short(key)}")
                val = specialise(w.I.fz(e.value, w.s), e.pc)
                ps = {x for x in walk(val) if x.op == "param"}
                kp = {x for x in walk(key) if x.op == "param"}
                rep.check("memo", name + ":value", where, False if ps - kp else True,
                          f"depends on {sorted(x.args[0] for x in ps - kp)}, which the key does not hold")
                # the answer is the entry of this key, in both worlds
                q = guards[0].args[0]
                rF = specialise(w.ret, (q,))
                rN = specialise(w.ret, (not_(q),))
                entry = [x for x in walk(rF) if x.op == "sub" and x.args[0] is tgt and x.args[1] is not key and
                         {y for y in walk(x.args[1]) if y.op == "param"}]
                rep.check("memo", name + ":answer", where, False if entry else True,
                          f"answers from {short(entry[0]) if entry else 'the entry of the key'}")
                if rF is not sub_(tgt, key) and rF.op in ("sub", "attr") and rF.args[0] is not tgt and not has_term(rF, tgt):
                    rep.check("memo", name + ":answer2", where, None, short(rF))


def reusable(ctx, rep):
    pkg = ctx.pkg
    c = oneshot.count(ast.parse("a = [x for x in g]\nif t:\n  b = list(g)\nelse:\n  g = list(g)\n").body, "g")
    rep.selftest(c[0] == 2, "an iterator read twice on a path is seen")
    rep.selftest(oneshot.count(ast.parse("if t:\n  b = list(g)\nelse:\n  c = list(g)\n").body, "g")[0] == 1,
                 "exclusive branches read once")
    for fi in pkg.functions():
        loc = oneshot.locals_of(fi, pkg)
        bad = []
        for n in walk_scope(fi.node.body):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and oneshot.makes(n.value, pkg, fi.module, fi.cls, loc):
                        bad.append(f"{fi.module.rel}:{n.lineno}: keeps a one-shot iterator in {ast.unparse(t)}")
        for name, node in loc.items():
            k, line = oneshot.count(oneshot.after(fi.node, node), name)
            if k > 1:
                bad.append(f"{fi.module.rel}:{line}: iterator `{name}` is read more than once")
        if loc or bad or any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets)
                             for n in walk_scope(fi.node.body)):
            rep.check("reusable", fi.qual, fi.where, not bad, "; ".join(bad[:3]))
    for fi, n, g, p in oneshot.param_readers(pkg):
        k, line = oneshot.count(g.node.body, p)
        rep.check("reusable", f"{fi.qual}->{g.qual}:{p}", f"{g.module.rel}:{line or g.node.lineno}", k <= 1,
                  f"`{p}` receives a one-shot iterator at {fi.module.rel}:{n.lineno} and is read {'more than once' if k > 1 else 'once'}")


def given(ctx, rep):
    """the closure after set_closure: the entries held, then the ones given; at the creation: the ones given"""
    c = ctx.cls("SymbolicPKF")
    me = mk("self", c.qual)
    f = ctx.pkg.find_method(c, "closure")
    I = ctx.interp(opaque=HEAVY)
    v, s = I.run_function(f, self_obj=me)
    v = I.fz(v, s)
    src = [v] if v.op == "attr" else [x for x in walk(v) if x.op == "attr" and x.args[0] is me]
    src = list(dict.fromkeys(src))
    if len(src) != 1:
        rep.unsure("given", "closure", f.where, short(v))
        return
    a = src[0].args[1]
    g = ctx.method("SymbolicPKF", "set_closure")
    par = mk("param", g.node.args.args[1].arg)
    old = mk("param", "entries held")
    I = ctx.interp(opaque=HEAVY)
    st = State({})
    st.attrs[(me, a)] = I.new_ref(st, coll("dict", mk("splat", old)))
    v, s = I.run_function(g, self_obj=me, st=st)
    ctx.visited |= I.visited
    fin = I.fz(s.attrs[(me, a)], s)
    es = list(fin.args[1]) if fin.op == "coll" and fin.args[0] == "dict" else None
    has_old, has_new = mk("splat", old), mk("splat", par)
    if es is not None and has_new in es:
        rep.check("given", "replaced", g.where, has_old not in es or es.index(has_old) < es.index(has_new),
                  f"{short(fin)}: an entry given again keeps its first value")
        rep.check("given", "added", g.where, True if has_old in es else (False if set(es) == {has_new} else None), f"{short(fin)}: the entries given before are lost")
    else:
        absent = any(x.op == "not" and x.args[0].op == "in" and any(y is par for y in walk(x.args[0].args[0])) for x in walk(fin))
        none = not any(x is par for x in walk(fin))
        rep.check("given", "replaced", g.where, False if absent or none else None,
                  f"{short(fin)}: " + ("an entry given again keeps its first value" if absent else "the entries given"))
    k = ctx.pkg.find_method(c, "__init__")
    pn = [x.arg for x in k.node.args.args]
    if len(pn) > 2:
        par = mk("param", pn[2])
        I = ctx.interp(opaque=HEAVY)
        st = State({})
        st.assume(not_(N.is_(par, NONE)))
        v, s = I.run_function(k, self_obj=me, st=st)
        fin = I.fz(s.attrs[(me, a)], s) if (me, a) in s.attrs else None
        fin = specialise(fin, (not_(N.is_(par, NONE)),)) if fin is not None else None
        ok = fin is not None and any(x is par for x in walk(fin))
        empty = fin is None or fin.op == "coll" and not fin.args[1] or fin is NONE
        rep.check("given", "creation", k.where, True if ok else (False if empty else None), f"the closure is {short(fin) if fin is not None else None}")


class Mut:
    def __init__(self, f, w):
        self.f, self.w = f, w

    def attr(self, n):
        return self.w.attr(n)


_muts = {}


def mutators(ctx, slots, c, props, heavy):
    """methods of a class changing attributes set by the constructor: [(method, {attribute: [conditions]})]"""
    key = (id(ctx), c)
    if key in _muts:
        return _muts[key]
    out = []
    none, empty = slots[c]
    me = mk("self", c.qual)
    for f in methods_of(ctx, c):
        if f.name == "__init__" or f.is_static or f.is_class or f.is_property:
            continue
        first = f.node.args.args[0].arg if f.node.args.args else None
        direct = bool(stored_names(f)) or any(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and
                                              n.value.id == first for n in ast.walk(f.node))
        if not direct:
            continue
        w = World(ctx, c, f, props | HEAVY | heavy)
        attrs = {}
        for e in w.I.effects:
            if e.kind == "attr" and e.target is me:
                v = specialise(w.I.fz(e.value, w.s), e.pc)
                if v is NONE and e.key in none:
                    continue
                if any(q is N.is_(mk("attr", me, e.key), NONE) for q in e.pc):
                    continue          # fills a slot
                attrs.setdefault(e.key, []).append(tuple(e.pc))
            elif e.kind in ("sub", "mut", "aug") and isinstance(e.target, T):
                t = w.I.fz(e.target, w.s)
                for r, p in alias_paths(t):
                    if r is me and p:
                        guards = [q for q in e.pc if q.op == "not" and q.args[0].op == "in"
                                  and q.args[0].args[1] is mk("attr", me, p[0])]
                        if guards:
                            continue  # fills an entry
                        attrs.setdefault(p[0], []).append(tuple(e.pc))
        # a private helper that only fills slots for the getters is no update
        if f.name.startswith("_") and attrs and all(a in none for a in attrs):
            continue
        if attrs:
            out.append((Mut(f, w), attrs))
    _muts[key] = out
    return out


def mutated_attrs(ctx, slots, c, props, heavy):
    return {a for g, attrs in mutators(ctx, slots, c, props, heavy) for a in attrs}
