"""C07: the expectation operator is linear, leaves certain quantities, and commutes with derivatives, integrals, equations
and matrices: one branch of the evaluation per structure of the argument."""
from .base import *

VOC = ("expand", "israndom", "Add", "Mul", "Derivative", "Integral", "match", "Wild", "Expectation", "Matrix", "Eq", "doit",
       "ImmutableMatrix", "__class__", "func")


def name_of(t):
    return t.args[0].split(".")[-1] if t.op == "global" else t.args[1] if t.op == "attr" else repr(t)


class Branch:
    def __init__(self, ctx):
        self.ctx = ctx
        self.f = ctx.method("Expectation", "eval")
        self.I, self.v, self.s = ctx.run_method("Expectation", "eval", opaque={"israndom"})
        self.arg = mk("param", self.f.node.args.args[1].arg)
        subj = {}
        for x in walk(self.v):
            if x.op == "isinstance":
                subj[x.args[0]] = subj.get(x.args[0], 0) + 1
        if not subj:
            raise AnalysisBroken("Expectation.eval: no test on the structure of its argument")
        self.X = max(subj, key=subj.get)
        self.cls = mk("global", ctx.cls("Expectation").qual)

    def rand_tests(self):
        return {x for x in walk(self.v) if gcall(x, "israndom") and x.args[1] and x.args[1][0] is self.X}

    def case(self, kind, random=True):
        facts = set()
        for r in self.rand_tests():
            if random:
                facts |= {not_(eq_(FALSE, r)), N.truthy(r), not_(N.is_(r, FALSE))}
            else:
                facts |= {eq_(FALSE, r), not_(N.truthy(r)), N.is_(r, FALSE)}
        for x in walk(self.v):
            if x.op == "isinstance" and x.args[0] is self.X:
                n = name_of(x.args[1])
                same = n == kind or (kind == "Matrix" and n in ("Matrix", "ImmutableMatrix", "MatrixBase")) or \
                    (kind == "Eq" and n in ("Eq", "Equality", "Relational"))
                facts.add(x if same else not_(x))
        return N.specialise(self.v, {f for f in facts if f not in (TRUE, FALSE)})

    def E(self, t):
        """is the term an expectation, of what"""
        if t.op == "call" and (t.args[0] is self.cls or (t.args[0].op == "global" and t.args[0].args[0].split(".")[-1] == "Expectation")):
            if len(t.args[1]) == 1:
                ev = dict(t.args[2]).get("evaluate", TRUE)
                return t.args[1][0], ev is not FALSE
        return None, None


def spread(args):
    """positional arguments with star expansions flattened into parts"""
    out = []
    for a in args:
        if a.op == "star":
            out.append(("star", a.args[0]))
        else:
            out.append(("one", a))
    return out


def over_args(B, t, coll_of):
    """[E(a) for a in coll_of]"""
    if t.op != "coll":
        return None
    lv = list(parts_flat(t.args[1]))
    if len(lv) != 1 or lv[0][1] or len(lv[0][2]) != 1:
        return None
    x, _, (i,) = lv[0]
    e, ev = B.E(x)
    if e is None:
        return False
    return ev and e is sub_(coll_of, i) and i.args[0] is len_(coll_of)


def tri(cond, t):
    return True if cond else (False if understood(subst_star(t), VOC) else None)


def subst_star(t):
    """star arguments are understood"""
    stars = [x for x in walk(t) if x.op == "star"]
    return subst(t, {x: x.args[0] for x in stars}) if stars else t


def run(ctx, rep, tier):
    rep.rule("structure", "the branch of each structure of the argument is the expectation rule of that structure", 8)
    rep.rule("expanded", "products are distributed before the rules apply", 1)
    rep.rule("trend", "the derivative of an expectation stays a derivative of the expectation", 1)
    rep.rule("shared-name", "the rules use one and the same random variable and randomness test", 1)
    B = Branch(ctx)
    w = B.f.where
    X = B.X
    rep.check("expanded", "eval", w, True if mcall(X, "expand") and X.args[0].args[0] is B.arg else (
        False if any(x is B.arg for x, g in phi_leaves(X)) or understood(X, VOC) and not any(mcall(x, "expand") for x in walk(X)) else None), short(X))
    xargs = mk("attr", X, "args")

    v = B.case("Symbol", random=False)
    rep.check("structure", "certain", w, True if v in (X, B.arg) else tri(False, v), f"E of a certain quantity: {short(v)}")
    # sums
    v = B.case("Add")
    ok = None
    if gcall(v, "Add"):
        sp = spread(v.args[1])
        if len(sp) == 1 and sp[0][0] == "star":
            ok = over_args(B, sp[0][1], xargs)
    elif v.op == "sumover":
        e, ev = B.E(v.args[1])
        ok = e is sub_(xargs, v.args[0]) and ev and v.args[0].args[0] is len_(xargs)
    rep.check("structure", "sum", w, ok if ok is not None else tri(False, v),
              f"E of a sum: {short(v)}")
    # products
    product(ctx, rep, B, w, X, xargs)
    # derivatives and integrals
    for kind in ("Derivative", "Integral"):
        v = B.case(kind)
        ok = None
        if v.op == "call" and (gcall(v, kind) or v.args[0] is mk("attr", X, "func") or v.args[0] is mk("attr", X, "__class__")) \
                and v.args[1]:
            e, ev = B.E(v.args[1][0])
            rest = v.args[1][1:]
            full = len(rest) == 1 and rest[0].op == "star" and rest[0].args[0] in (
                sub_(xargs, N.slice_(num(1), NONE, NONE)), mk("attr", X, "limits" if kind == "Integral" else "variable_count"),
                mk("attr", X, "limits" if kind == "Integral" else "variables"))
            ok = ev and e in (sub_(xargs, num(0)), mk("attr", X, "function" if kind == "Integral" else "expr")) and full
        elif v.op == "phi" and not any(gcall(x, "israndom") for t, gs in phi_leaves(v) for g in gs for x in walk(g)):
            # another test on the argument: for some of them the expectation stays as it is
            kept = [gs for t, gs in phi_leaves(v) if B.E(t)[0] in (X, B.arg) and B.E(t)[0] is not None and B.E(t)[1] is False]
            if kept and all(understood(g, VOC + ("has",)) for g in kept[0]):
                rep.bad("structure", kind.lower(), w, f"E of {kind} does not commute when {short(kept[0][-1], 200)}")
                continue
        rep.check("structure", kind.lower(), w, ok if ok else tri(False, v), f"E of {kind}: {short(v)}")
    # equations
    v = B.case("Eq")
    ok = None
    if v.op == "call" and len(v.args[1]) == 2 and (gcall(v, "Eq", "Equality") or v.args[0] in (mk("attr", X, "__class__"), mk("attr", X, "func")) or
                                                   v.args[0].op in ("type", "typeof")):
        es = [B.E(a) for a in v.args[1]]
        sides = [(sub_(xargs, num(0)), sub_(xargs, num(1))), (mk("attr", X, "lhs"), mk("attr", X, "rhs"))]
        ok = all(ev for _, ev in es) and any(es[0][0] is a and es[1][0] is b for a, b in sides)
    elif v.op == "call" and len(v.args[1]) == 1 and v.args[1][0].op == "star":
        ok = over_args(B, v.args[1][0].args[0], xargs)
    rep.check("structure", "equation", w, ok if ok else tri(False, v), f"E of an equation: {short(v)}")
    # matrices
    v = B.case("Matrix")
    ok = None
    if gcall(v, "Matrix", "ImmutableMatrix") and len(v.args[1]) == 1 and mcall(v.args[1][0], "applyfunc"):
        v = v.args[1][0]
    if gcall(v, "Matrix", "ImmutableMatrix") and len(v.args[1]) >= 2:
        sh = mk("attr", X, "shape")
        head = v.args[1][:-1]
        okh = (len(head) == 1 and head[0].op == "star" and head[0].args[0] is sh) or \
            list(head) == [sub_(sh, num(0)), sub_(sh, num(1))]
        ok = over_args(B, v.args[1][-1], X)
        ok = ok and okh
    elif mcall(v, "applyfunc") and v.args[0].args[0] is X:
        g = v.args[1][0]
        ok = True if g is B.cls else None
        if ok is None:
            k = mk("param", "k")
            res = []
            for t, gs in phi_leaves(apply_closure(B, g, [k])):
                e, ev = B.E(t)
                q = [x for z in gs for x in walk(z) if gcall(x, "israndom") and x.args[1][:1] == (k,)]
                certain = len(gs) == 1 and len(q) == 1 and N.decide(gs[0], {N.truthy(q[0]), not_(eq_(FALSE, q[0]))}) is False
                res.append(True if e is k and ev or t is k and certain else
                           False if not gs or certain and understood(t, VOC) else None)
            ok = False if False in res else None if None in res else True
    rep.check("structure", "matrix", w, ok if ok else tri(False, v), f"E of a matrix: {short(v)}")
    # anything else stays symbolic
    v = B.case("Function")
    e, ev = B.E(v)
    rep.check("structure", "other", w, True if e in (X, B.arg) and e is not None and ev is False else tri(False, v),
              f"E of a random function: {short(v)}")

    # derivative of E
    f = ctx.method("Expectation", "_eval_derivative")
    I, v, s = ctx.run_method("Expectation", "_eval_derivative")
    me, x = mk("self", ctx.cls("Expectation").qual), mk("param", f.node.args.args[1].arg)
    ok = gcall(v, "Derivative") and v.args[1][:1] == (me,) and x in v.args[1][1:2] and dict(v.args[2]).get("evaluate") is FALSE
    rep.check("trend", "_eval_derivative", f.where, True if ok else tri(False, v), short(v))
    # one omega
    import ast
    vals = {}
    for m in ctx.pkg.modules.values():
        if "omega" in m.assigns:
            vals[m.name] = ast.dump(m.assigns["omega"][0]).replace("Attribute(value=Name(id='sympy', ctx=Load()), attr='symbols', ctx=Load())",
                                                                "Name(id='symbols', ctx=Load())")
    rep.check("shared-name", "omega", ", ".join(sorted(vals)), len(set(vals.values())) == 1, vals)
    if any(i["verdict"] == "violated" for i in rep.items):
        rep.floors = {}


def apply_closure(B, g, args):
    from engine.interp import Frame
    s = State({"__outer__": None})
    c = B.ctx.cls("Expectation")
    B.I.stack.append(Frame(None, c.qual, c.module, c))
    try:
        return B.I.fz(B.I.call(g, list(args), {}, s, None), s)
    finally:
        B.I.stack.pop()


def israndom_pred(B, p, want):
    """is p the predicate 'israndom is want'"""
    k = mk("param", "k")
    try:
        r = apply_closure(B, p, [k])
    except Exception:
        return None
    c = [x for x in walk(r) if gcall(x, "israndom")]
    if not c and understood(r, ("has", "omega", "symbols", "atoms", "free_symbols")):
        return False
    if len(c) != 1 or c[0].args[1][:1] != (k,):
        return None
    q = c[0]
    if r is q:
        return want is True
    for val in (True, False):
        F = {N.truthy(q), not_(eq_(FALSE, q)), not_(N.is_(q, FALSE)), eq_(TRUE, q), N.is_(q, TRUE)} if val else \
            {not_(N.truthy(q)), eq_(FALSE, q), N.is_(q, FALSE), not_(eq_(TRUE, q)), not_(N.is_(q, TRUE))}
        F = {f for f in F if f not in (TRUE, FALSE)}
        d = N.decide(r, F)
        if d is None:
            return None
        if d is not (val == want):
            return False
    return True


def product(ctx, rep, B, w, X, xargs):
    v = B.case("Mul")
    leaves = list(phi_leaves(v))
    # each leaf is  c * E(r)  with c certain, or the unevaluated E(X) when c = 1
    verdict, why = True, []
    pulled = False
    whole, factors = [], []
    for t, guards in leaves:
        es = [x for x in walk(t) if B.E(x)[0] is not None]
        es = [x for x in es if not any(y is not x and has_term(y, x) for y in es)]
        e0, ev0 = B.E(t)
        if e0 in (X, B.arg) and e0 is not None:
            if ev0 is not False:
                verdict = False
                why.append("E(product) evaluates itself without end")
            # only allowed when nothing certain can be pulled out
            if not guards:
                verdict = False
                why.append("a certain factor is never pulled out")
            whole.append(guards)
            continue
        if len(es) != 1:
            verdict = tri(False, t) if verdict else verdict
            why.append(f"not a certain factor times one expectation: {short(t)}")
            continue
        e, ev = B.E(es[0])
        if gcall(t, "Mul"):
            others = [a for a in t.args[1] if a is not es[0]]
            shape_ok = es[0] in t.args[1] and len(t.args[1]) == 2
            c = others[0] if len(others) == 1 else None
        else:
            c = div(t, es[0])
            shape_ok = not has_term(c, es[0])
        if not shape_ok or c is None:
            verdict = tri(False, t) if verdict else verdict
            why.append(f"{short(t)}")
            continue
        if c.op == "star":
            c = mk("prodof", c.args[0])
        r = split(B, c, e, X, xargs) if ev else False
        if r is True:
            pulled = True
            factors.append(c)
        else:
            verdict = r if verdict else verdict
            why.append(f"factor {short(c)} of E({short(e)})")
    # the product stays as it is only when it has no certain factor
    for gs in whole:
        if verdict is True and len(factors) == 1 and not any(trivial(g, factors[0]) for g in gs):
            odd = [g for g in gs if g.op in ("not", "truth") and any(x.op == "attr" and x.args[0] is factors[0] and x.args[1] in NUMBER
                                                                   for x in walk(g))]
            if odd:
                verdict = False
                why.append(f"the certain factor is not pulled out when {short(odd[0])}")
    if verdict is True and not pulled:
        verdict, why = False, ["no certain factor is pulled out"]
    rep.check("structure", "product", w, verdict, "; ".join(why) or short(v))


NUMBER = ("is_Number", "is_number", "is_Integer", "is_Rational", "is_Float", "is_constant", "is_positive", "is_negative", "is_real", "is_integer",
          "is_Symbol", "is_symbol", "is_Function", "is_Atom")


def trivial(g, c):
    """a test that the factor c is one"""
    return g.op in ("eq", "is") and c in g.args


def split(B, c, e, X, xargs):
    """do c and e split the product X into its certain and random parts"""
    if c.op == "sub" and mcall(c.args[0], "as_coeff_Mul", "as_coeff_mul") and c.args[0].args[0].args[0] is X:
        return False                 # the numbers only
    if c.op == "sub" and c.args[0] is xargs and numval(c.args[1]) is not None:
        return False                 # one of the factors, wherever the certain ones are
    # pattern matching  X = scalar * random
    if c.op == "sub" and e.op == "sub" and c.args[0] is e.args[0] and mcall(c.args[0], "match") and c.args[0].args[0].args[0] is X:
        pat = c.args[0].args[1][0]
        wc, we = c.args[1], e.args[1]
        if wc is we or not (gcall(wc, "Wild") and gcall(we, "Wild")):
            return False
        if pat is not mul(wc, we):
            return False
        pc, pe = dict(wc.args[2]).get("properties"), dict(we.args[2]).get("properties")
        if wc.args[1][:1] == we.args[1][:1]:
            return False
        if pc is None or pe is None or pc.op != "coll" or pe.op != "coll":
            return False
        a = [israndom_pred(B, p, False) for p in pc.args[1]]
        b = [israndom_pred(B, p, True) for p in pe.args[1]]
        if False in a + b or len(a) != 1 or len(b) != 1:
            return False
        return True if None not in a + b else None
    # comprehension over the factors
    def part(t, want):
        if t.op == "prodof":
            t = t.args[0]
        if t.op == "call" and gcall(t, "Mul") and len(t.args[1]) == 1 and t.args[1][0].op == "star":
            t = t.args[1][0].args[0]
        if t.op == "coll":
            lv = list(parts_flat(t.args[1]))
            if len(lv) == 1 and len(lv[0][2]) == 1:
                x, g, (i,) = lv[0]
                if x is sub_(xargs, i) and i.args[0] is len_(xargs):
                    q = [y for z in g for y in walk(z) if gcall(y, "israndom")]
                    if len(q) == 1 and q[0].args[1][0] is x and len(g) == 1:
                        F = {N.truthy(q[0]), not_(eq_(FALSE, q[0]))}
                        d = N.decide(g[0], F)
                        return d is want if d is not None else None
        if t.op == "prodover":
            return None
        return None
    a, b = part(c, False), part(e, True)
    if a is None or b is None:
        return None
    return a and b
