"""C22: nothing that is generated depends on the iteration order of sets, on hashes, addresses, clocks or random draws."""
from .base import *
from .pipeline import Pipeline, Raised, Unknown
from .c21 import BUILDERS, system, shapes, where_of, first_difference
from engine.order import Orders, deep, unordered
from engine.shape import Shape, Sym, Text, text


# ------------------------------------------------------------------ programs
def programs(ctx, rep, tier):
    """the text of the programs, for several orders of the sets of a system"""
    orders = (1, 2, 3) if tier == "quick" else range(1, 13)
    for kind, b in BUILDERS.items():
        where = where_of(ctx, b)
        P = Pipeline(ctx, [f"b = {b}(system, name)", "return b.code"], tag=f"det_{kind}")
        for label, sh in shapes(tier):
            sh = {k: v for k, v in sh.items() if k != "scrambled"}
            ref = None
            try:
                ref = P.lit(P.run({"system": system(**sh)}))
            except (Unknown, Raised) as e:
                rep.unsure("program", f"{kind} model, {label}", where, e)
                continue
            for o in orders:
                inst = f"{kind} model, {label}, order {o}"
                try:
                    got = P.lit(P.run({"system": system(scrambled=o, **sh)}))
                except (Unknown, Raised) as e:
                    rep.unsure("program", inst, where, e)
                    continue
                rep.check("program", inst, where, got == ref,
                          "" if got == ref else f"the program depends on the order of a set: {first_difference(ref, got)}")


# ------------------------------------------------------------------ evaluation under the two orders of a set
class Two:
    """a function whose arguments are made of a coordinate and its increment"""

    def __init__(self, par, flip):
        self.par, self.flip = par, flip

    ARGS = [("x",), ("x", "dx"), ("y", "dy"), ("t",), ("zeta", "dzeta"), ("x1", "dx1")]

    def sym(self, n):
        return Sym("symbol", n)

    def hook(self, t, env, S):
        op = t.op
        if t is self.par:
            return Sym("function")
        if op == "attr":
            o = S.val(t.args[0], env)
            if isinstance(o, Sym) and o.kind == "function" and t.args[1] == "args":
                return [Sym("arg", k) for k in range(len(self.ARGS))]
            if isinstance(o, Sym) and o.kind == "symbol" and t.args[1] == "name":
                return Text(o.data[0])
        if op == "isinstance":
            o = S.val(t.args[0], env)
            if isinstance(o, Sym) and o.kind == "function":
                return True
        if op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("atoms",):
            o = S.val(t.args[0].args[0], env)
            if isinstance(o, Sym) and o.kind == "arg":
                xs = [self.sym(n) for n in self.ARGS[o.data[0]]]
                return xs[::-1] if self.flip else xs
        if op == "attr" and t.args[1] == "free_symbols":
            o = S.val(t.args[0], env)
            if isinstance(o, Sym) and o.kind == "arg":
                xs = [self.sym(n) for n in self.ARGS[o.data[0]]]
                return xs[::-1] if self.flip else xs
        if op == "tostr":
            v = S.val(t.args[0], env)
            if isinstance(v, Sym) and v.kind == "symbol":
                return Text(v.data[0])
        if op == "sortedT":
            xs = S.seq(t.args[0], env)
            if all(isinstance(x, Sym) and x.kind == "symbol" for x in xs):
                if t.args[1].op == "global" and t.args[1].args[0].split(".")[-1] == "default_sort_key":
                    return sorted(xs, key=lambda x: x.data, reverse=S.truth(S.val(t.args[2], env)))
        if op == "popped":
            xs = S.seq(t.args[0], env)
            if not xs:
                raise Raised("pop from an empty list")
            return xs[-1]
        if op == "call":
            n = str(t.args[0].args[-1]).split(".")[-1] if t.args[0].op in ("global", "func", "attr") else ""
            if n in ("symbols", "Symbol") and len(t.args[1]) == 1:
                x = S.val(t.args[1][0], env)
                if isinstance(x, Text) and x.literal:
                    return self.sym(repr(x))
        return NotImplemented


def flat(v):
    if isinstance(v, (list, tuple)):
        return tuple(flat(x) for x in v)
    return v


def evaluate(I, v, par, flip):
    h = Two(par, flip)
    S = Shape(h.hook, I.nexts, lambda a, b: a == b if isinstance(a, Sym) and isinstance(b, Sym) else None)
    S.text = text
    return flat(S.val(v, {}))


def symmetric(ctx, f):
    """True/False/None: the result is the same under the two orders of the symbols of each argument"""
    ps = [a.arg for a in f.node.args.args]
    if f.cls is not None and not f.is_static:
        ps = ps[1:]
    if not ps:
        return None, "no argument"
    par = mk("param", ps[0])
    try:
        I, v, s = ctx.run(f)
        v = I.fz(v, s)
        out = []
        for flip in (False, True):
            out.append(evaluate(I, v, par, flip))
    except (Unknown, Raised, AnalysisBroken, KeyError, AttributeError, TypeError, IndexError, RecursionError) as e:
        return None, str(e)
    if out[0] == out[1]:
        return True, f"{len(Two.ARGS)} kinds of arguments"
    return False, f"{short_v(out[0])} or {short_v(out[1])}"


def short_v(v):
    return str(v)[:150]


# ------------------------------------------------------------------ order of sets
def public(f):
    if f.name.startswith("__"):
        return f.name in ("__repr__", "__str__", "__call__", "__getitem__", "__iter__", "__new__", "__eq__", "__add__", "__mul__")
    return not f.name.startswith("_")


def order(ctx, rep, tier):
    funcs = {f.qual: f for f in ctx.pkg.functions()}
    proven, tried = set(), {}
    for _ in range(4):
        A = Orders(ctx.pkg, proven)
        R = A.run()
        new = False
        for q, v in R.items():
            f = funcs[q]
            d = deep(v)
            if d and q not in tried:
                # the order may come from the symbols of the arguments of a function: both are tried
                tried[q] = symmetric(ctx, f) if "set" in d[1] or "element" in d[1] else (None, "")
                if tried[q][0]:
                    proven.add(f.name)
                    new = True
        if not new:
            break
    reported = set()
    for q, f in sorted(funcs.items()):
        v = R.get(q)
        ctx.visited.add(q)
        d = deep(v)
        u = unordered(v)
        name = q.split("sympkf.", 1)[-1]
        if tried.get(q, (None,))[0] and f.name in proven:
            rep.ok("symmetric", name, f.where, tried[q][1])
        if d is not None and public(f):
            if (d[0], d[1]) in reported:
                continue
            reported.add((d[0], d[1]))
            rep.bad("order", name, d[0], f"the result depends on {d[1]}, which is arbitrary")
        elif u is not None and public(f):
            rep.bad("order", name, f.where, "the result is a sequence in the order of a set")
        else:
            rep.ok("order", name, f.where)
    for (c, a), v in sorted(A.fields.items()):
        d, u = deep(v), unordered(v)
        inst = f"{c.split('sympkf.', 1)[-1]}.{a}"
        cl = next((k for m in ctx.pkg.modules.values() for k in m.classes.values() if k.qual == c), None)
        where = f"{cl.module.rel}:{cl.node.lineno}" if cl is not None else c
        if d is not None:
            if (d[0], d[1]) not in reported:
                reported.add((d[0], d[1]))
                rep.bad("attribute", inst, d[0], f"depends on {d[1]}, which is arbitrary")
        elif u is not None:
            rep.bad("attribute", inst, where, "a sequence in the order of a set")
        else:
            rep.ok("attribute", inst, where)
    for (w, t), (q, use, o) in sorted(A.sites.items()):
        rep.ok("site", f"{q.split('sympkf.', 1)[-1]}: {use} over {t[:80]}", w)


def run(ctx, rep, tier):
    rep.rule("program", "the text of a program is the same whatever the order of the sets of the system", 20)
    rep.rule("order", "no result depends on the order of a set, a hash, an address, the clock or a random draw", 100)
    rep.rule("attribute", "no attribute is a sequence in the order of a set", 50)
    rep.rule("symmetric", "result shown to be the same under the two orders of the symbols of an argument", 0)
    rep.rule("site", "iterations over sets whose order has no effect", 5)
    programs(ctx, rep, tier)
    order(ctx, rep, tier)
