"""C08: an expression is random exactly when one of its parts is and it is not an expectation: one rule per structure."""
from .base import *
from .c07 import name_of, tri, subst_star

KINDS = ("Eq", "Function", "Symbol", "Derivative", "Integral", "Mul", "Add", "Pow", "Matrix", "Expectation")


class B:
    def __init__(self, ctx):
        self.f = ctx.func("israndom")
        self.I, self.v, self.s = ctx.run(self.f)
        self.x = mk("param", self.f.node.args.args[0].arg)

    def rec(self, t):
        """israndom(y) -> y"""
        if gcall(t, "israndom") and t.args[1]:
            return t.args[1][0]

    def has_tests(self):
        return {y for y in walk(self.v) if mcall(y, "has") and y.args[0].args[0] is self.x} | \
               {y for e in self.I.effects for p in e.pc for y in walk(p) if mcall(y, "has") and y.args[0].args[0] is self.x}

    def facts(self, kind, has=True):
        F = set()
        for h in self.has_tests():
            F |= {N.truthy(h), not_(eq_(FALSE, h)), not_(N.is_(FALSE, h)), N.is_(TRUE, h), eq_(TRUE, h)} if has else \
                {not_(N.truthy(h)), eq_(FALSE, h), N.is_(FALSE, h), not_(N.is_(TRUE, h)), not_(eq_(TRUE, h))}
        src = [self.v] + [p for e in self.I.effects for p in e.pc]
        for t in src:
            for y in walk(t):
                if y.op == "isinstance" and y.args[0] is self.x:
                    n = name_of(y.args[1])
                    same = n == kind or (kind == "Matrix" and n in ("Matrix", "ImmutableMatrix", "MatrixBase")) or \
                        (kind == "Eq" and n in ("Eq", "Equality", "Relational")) or \
                        (kind == "Expectation" and n in ("Function", "Expectation"))
                    F.add(y if same else not_(y))
        return {f for f in F if f not in (TRUE, FALSE)}

    def case(self, kind, has=True):
        return N.specialise(self.v, self.facts(kind, has))


def any_of(b, v, parts):
    """is v the disjunction of israndom over the elements of `parts` (a term, or a list of terms)"""
    v0 = v
    if v.op == "truth":
        v = v.args[0]
    if isinstance(parts, T):
        if v.op == "exists":
            i, c = v.args
            c = c.args[0] if c.op == "truth" else c
            y = b.rec(c)
            return y is not None and y is sub_(parts, i) and i.args[0] is len_(parts)
        at = []
        prop_atoms(v, at)
        for a in at:
            if a.op == "exists" and any_of(b, a, parts) and prop_equal(v, a):
                return True
        return None
    calls_ = {y for y in walk(v) if b.rec(y) is not None}
    if {b.rec(c) for c in calls_} != set(parts):
        return False if calls_ else None
    import itertools
    for vals in itertools.product((True, False), repeat=len(calls_)):
        F = set()
        for c, val in zip(calls_, vals):
            F |= {N.truthy(c), eq_(TRUE, c)} if val else {not_(N.truthy(c)), eq_(FALSE, c)}
        r = N.specialise(v, F)
        d = True if r is TRUE else False if r is FALSE else N.decide(N.truthy(r), F)
        if d is None:
            return None
        if d != any(vals):
            return False
    return True


def run(ctx, rep, tier):
    rep.rule("structure", "randomness of each structure is the disjunction over its parts", 9)
    rep.rule("certain", "expectations and expressions without the random variable are certain, whatever their structure", 8)
    rep.rule("unsupported", "structures without rule raise", 1)
    rep.rule("has", "an expectation does not contain the random variable, and contains what its argument contains", 1)
    b = B(ctx)
    w = b.f.where
    args = mk("attr", b.x, "args")
    voc = ("israndom", "has", "omega", "symbols")
    verd = lambda ok, v: ok if ok is True else (False if ok is False or understood(v, voc) else None)
    for kind in KINDS:
        if kind != "Expectation":
            v = b.case(kind)
            if kind in ("Derivative", "Integral"):
                y = b.rec(v.args[0] if v.op == "truth" else v)
                ok = y in (sub_(args, num(0)), mk("attr", b.x, "expr"), mk("attr", b.x, "function")) or \
                    any_of(b, v, args)
            elif kind == "Symbol":
                ok = v is TRUE or (v.op == "eq" and b.x in v.args and any("omega" in repr(a) for a in v.args))
                ok = True if ok else None
            elif kind == "Matrix":
                ok = any_of(b, v, b.x)
            elif kind == "Eq":
                ok = any_of(b, v, args) or any_of(b, v, [sub_(args, num(0)), sub_(args, num(1))]) or \
                    any_of(b, v, [mk("attr", b.x, "lhs"), mk("attr", b.x, "rhs")])
            else:
                ok = any_of(b, v, args)
            rep.check("structure", kind, w, verd(ok, v), f"{kind}: {short(v)}")
            v = b.case(kind, has=False)
            if v is not FALSE and v.op == "eq" and kind == "Symbol":
                ok = True       # a symbol which is not the random variable
            elif v is FALSE:
                ok = True
            elif not b.has_tests():
                # no shortcut: the recursion ends on symbols
                ok = True
            else:
                ok = None
            rep.check("certain", f"{kind}-without-omega", w, verd(ok, v), short(v))
    for has in (True, False):
        v = b.case("Expectation", has)
        rep.check("certain", f"Expectation-{'with' if has else 'without'}-omega-inside", w, verd(v is FALSE or None, v), short(v))
    F = b.facts("Something")
    rs = [e for e in b.I.effects if e.kind == "raise" and all(N.decide(N.specialise(p, F), F) is True for p in e.pc)]
    rep.check("unsupported", "unknown-structure", w, bool(rs), f"raises at {rs[0].where}" if rs else
              f"answers {short(b.case('Something'))} for a structure without rule")

    f = ctx.method("Expectation", "has")
    I, v, s = ctx.run_method("Expectation", "has")
    me = mk("self", ctx.cls("Expectation").qual)
    pat = mk("param", "*" + f.node.args.vararg.arg) if f.node.args.vararg else None
    ok = None
    if mcall(v, "has") and v.args[0].args[0] is sub_(mk("attr", me, "args"), num(0)) and len(v.args[1]) == 1 and \
            v.args[1][0].op == "star" and v.args[1][0].args[0].op == "coll":
        lv = list(parts_flat(v.args[1][0].args[0].args[1]))
        if len(lv) == 1 and len(lv[0][2]) == 1:
            x, g, (i,) = lv[0]
            ok = x.op == "sub" and x.args[1] is i and x.args[0].op == "param" and len(g) == 1 and g[0].op == "not" and \
                g[0].args[0].op == "eq" and x in g[0].args[0].args and "omega" in repr(g[0])
            if not ok and not g:
                ok = False
    rep.check("has", "Expectation.has", f.where, verd(ok, subst_star(v)), short(v))
    if any(i["verdict"] == "violated" for i in rep.items):
        rep.floors = {}
