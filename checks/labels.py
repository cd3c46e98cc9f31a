"""The labels of a multi-index (partial orders of a derivative): which ones are accepted and which orders they denote.

The constructor is read into terms and evaluated on labels of each form; the orders denoted by a label are counted here
independently (the orders of a tuple, the couples (coordinate, order), the occurrences in a sequence)."""
from fractions import Fraction
from .base import *
from engine.shape import Shape, Sym, Text, Unknown, Raised

CLS = "PartialOrderDerivative"
REFUSED = "refused"


class Tup(list):
    """a tuple among the values of the evaluation"""


def tup(x):
    return Tup(map(tup, x)) if isinstance(x, tuple) else [tup(y) for y in x] if isinstance(x, list) else x


def orders(coords, label):
    """the oracle: tuple of orders, or REFUSED"""
    isint = lambda x: isinstance(x, int) and not isinstance(x, bool)
    pair = lambda c: isinstance(c, tuple) and len(c) == 2 and c[0] in coords and isint(c[1])
    if isinstance(label, tuple) and label and all(isint(x) for x in label):
        return label if len(label) == len(coords) else REFUSED
    if pair(label):
        return tuple(label[1] if c == label[0] else 0 for c in coords)
    if isinstance(label, list) and label and all(pair(c) for c in label):
        return tuple(sum(o for x, o in label if x == c) for c in coords)
    if all(not isinstance(x, tuple) and x in coords for x in label):
        return tuple(sum(x == c for x in label) for c in coords)
    return REFUSED


class Labels:
    def __init__(self, ctx):
        self.ctx = ctx
        self.c = ctx.cls(CLS)
        self.me = mk("self", self.c.qual)
        self.init = ctx.method(CLS, "__init__")
        self.I, v, self.s = ctx.run_method(CLS, "__init__")
        self.pars = [mk("param", a.arg) for a in self.init.node.args.args[1:3]]
        self.others = {}

    def effects(self):
        return self.I.effects

    def value(self, attr, coords, label):
        """value of an attribute of the multi-index of the label; Raised when it is refused"""
        S = Shape(self.hook, self.I.nexts, lambda a, b: None)
        env = {self.pars[0]: tup(coords), self.pars[1]: tup(label)}
        self.trying, self.depth = {}, 0
        for e in self.effects():
            if e.kind == "raise" and not e.loops and all(S.truth(S.val(self.I.fz(c, self.s), env)) for c in e.pc):
                raise Raised(short(e.target, 60))
        return S.val(mk("attr", self.me, attr), env)

    def hook(self, t, env, S):
        op = t.op
        if op == "exc" and t.args and isinstance(t.args[0], T) and t.args[0].op == "trysite":
            return self.trying.get(t, False)
        if op in ("phi", "and", "or", "not") and any(x.op == "exc" for x in walk(t)) and not getattr(self, "inside", False):
            # a value of a try block: as if nothing was raised, otherwise that of the handler
            self.inside = True
            try:
                return S.val_(t, env)
            except Raised:
                sites = {x for x in walk(t) if x.op == "exc"}
                S2 = Shape(self.hook, S.nexts, S.compare)
                self.trying = {x: True for x in sites}
                try:
                    return S2.val_(t, env)
                finally:
                    self.trying = {}
            finally:
                self.inside = False
        if op == "isinstance":
            o = S.val(t.args[0], env)
            names = [str(x.args[-1]).split(".")[-1] for x in walk(t.args[1]) if x.op in ("global", "cls", "ext")] or [str(t.args[1])]
            kinds = {"tuple": Tup, "list": list, "int": int, "dict": dict, "str": Text, "Symbol": Sym, "float": Fraction, "Integer": ()}
            if all(n in kinds for n in names):
                return any(isinstance(o, kinds[n]) and not (n == "list" and isinstance(o, Tup)) for n in names)
            if isinstance(o, (tuple, list, int, Fraction)) and all(n[:1].isupper() for n in names):
                return False
        if op == "attr" and t.args[0] is self.me:
            e = [x for x in self.I.effects if x.kind == "attr" and x.key == t.args[1] and self.I.fz(x.target, self.s) is self.me]
            r = NotImplemented
            for x in e:
                if all(S.truth(S.val(self.I.fz(c, self.s), env)) for c in x.pc):
                    r = S.val(self.I.fz(x.value, self.s), env)
            if r is not NotImplemented:
                return r
            m = self.ctx.pkg.find_method(self.c, t.args[1])
            if m is not None and m.is_property:
                return self.method(t.args[1], [], env, S)
        if op == "call" and not t.args[2]:
            f, args, _ = t.args
            name = None
            if f.op == "getattr" and f.args[0] is self.me:
                x = S.val(f.args[1], env)
                name = repr(x) if isinstance(x, Text) and x.literal else None
            elif f.op == "attr" and f.args[0] is self.me:
                name = f.args[1]
            if name is not None:
                return self.method(name, [S.val(a, env) for a in args], env, S)
            if f.op == "attr" and f.args[1] in ("index", "count") and len(args) == 1:
                o, x = S.val(f.args[0], env), S.val(args[0], env)
                if isinstance(o, (tuple, list)):
                    same = [k for k, y in enumerate(o) if self.same(x, y)]
                    if f.args[1] == "count":
                        return len(same)
                    if not same:
                        raise Raised("index")
                    return same[0]
        if op == "setitem":
            o, k, x = (S.val(a, env) for a in t.args[:3])
            if isinstance(o, list) and isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise Raised("out of range")
                o = list(o)
                o[k] = x
                return o
        if op == "indexof":
            o, x = S.val(t.args[0], env), S.val(t.args[1], env)
            same = [k for k, y in enumerate(o) if self.same(x, y)]
            if not same:
                raise Raised("index")
            return same[0]
        if op == "in":
            x, o = S.val(t.args[0], env), S.val(t.args[1], env)
            if isinstance(o, (tuple, list)):
                return any(self.same(x, y) for y in o)
        if op == "sub" and t.args[1].op != "slice":
            o, k = S.val(t.args[0], env), S.val(t.args[1], env)
            if isinstance(o, (tuple, list)) and isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise Raised("out of range")
                return o[k]
            if isinstance(o, (int, Fraction, Sym)) and isinstance(k, int):
                raise Raised("not a sequence")
        if op in ("eq", "is"):
            x, y = S.val(t.args[0], env), S.val(t.args[1], env)
            if all(isinstance(z, (tuple, list, int, Fraction, Sym, bool, type(None))) for z in (x, y)):
                return self.same(x, y)
        return NotImplemented

    def same(self, a, b):
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.kind == b.kind and a.data == b.data
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        return a == b

    def method(self, name, args, env, S):
        self.depth += 1
        if self.depth > 20:
            raise Unknown("depth")
        try:
            if name not in self.others:
                I, v, s = self.ctx.run_method(CLS, name)
                self.others[name] = (I, I.fz(v, s), s)
            I, v, s = self.others[name]
            f = self.ctx.method(CLS, name)
            S2 = Shape(self.hook, I.nexts, S.compare)
            e2 = dict(env)
            for a, x in zip([a.arg for a in f.node.args.args][0 if f.is_static else 1:], args):
                e2[mk("param", a)] = x
            return S2.val(v, e2)
        finally:
            self.depth -= 1


def labels_of(coords):
    """labels of every form, right and wrong"""
    n = len(coords)
    w = Sym("sym", "w")
    out = []
    for k in range(0, n + 2):
        if k:
            out.append(("tuple", tuple(range(1, k + 1))))
            out.append(("tuple", (0,) * k))
    if n > 1:
        out.append(("tuple", (2,) + (0,) * (n - 2) + (1,)))
    out.append(("tuple with a fraction", (1,) * (n - 1) + (Fraction(1, 2),)))
    out.append(("empty", []))
    for c in coords:
        out += [("couple", (c, 2)), ("couple", (c, 0)), ("couples", [(c, 3)]), ("sequence", [c]), ("sequence", [c, c])]
        out += [("couple with a fraction", (c, Fraction(1, 2))), ("couples with a fraction", [(c, 1), (c, Fraction(1, 2))])]
        out.append(("couples", [(c, 1), (c, 2)]))
    out += [("couple of another coordinate", (w, 1)), ("couples of another coordinate", [(coords[0], 1), (w, 1)]),
            ("couples of another coordinate", [(w, 1)]), ("sequence of another coordinate", [coords[0], w]),
            ("sequence of another coordinate", [w]), ("mixed", [coords[0], (coords[0], 1)]), ("mixed", [coords[-1], 1])]
    if n > 1:
        a, b = coords[0], coords[-1]
        out += [("couples", [(b, 1), (a, 2)]), ("couples", [(a, 1), (b, 2), (a, 3)]), ("sequence", [b, a]), ("sequence", [a, b, a]),
                ("sequence", [b, b, a]), ("couples", [(b, 0)])]
    seen, res = [], []
    for k, x in out:
        if (k, repr(x)) not in seen:
            seen.append((k, repr(x)))
            res.append((k, x))
    return res


def show(x):
    if isinstance(x, Sym):
        return str(x.data[0])
    if isinstance(x, (tuple, list)):
        return ("(%s)" if isinstance(x, tuple) else "[%s]") % ", ".join(map(show, x))
    return str(x)


def check_labels(ctx, rep, rule_refused, rule_accepted):
    L = Labels(ctx)
    for n in (1, 2, 3):
        coords = tuple(Sym("sym", c) for c in ("x", "y", "z")[:n])
        for kind, label in labels_of(coords):
            want = orders(coords, label)
            inst = f"label {show(label)} for {show(coords)}"
            rule = rule_refused if want == REFUSED else rule_accepted
            try:
                got = L.value("_as_tuple", coords, label)
                got = tuple(got) if isinstance(got, (tuple, list)) else got
            except Raised:
                got = REFUSED
            except Unknown as e:
                rep.unsure(rule, inst, L.init.where, str(e)[:200])
                continue
            ok = got == want
            rep.check(rule, inst, L.init.where, ok, f"{kind}: {show(got)}" + ("" if ok else f" in place of {show(want)}"))


def covariance_domain(ctx, rep, rule_refused, rule_accepted):
    """the covariance of two functions: refused when one is not prognostic or when the coordinates are not the same ones in the
    same order"""
    f = ctx.method("SymbolicPKF", "get_covariance")
    I, v, s = ctx.run_method("SymbolicPKF", "get_covariance", opaque=HEAVY - {"get_covariance"})
    me = mk("self", ctx.cls("SymbolicPKF").qual)
    fields = mk("attr", me, "fields")
    pa, pb = [mk("param", x.arg) for x in f.node.args.args[1:3]]
    coords, prognostic = {}, []

    def isset(t):
        return t.op == "coll" and t.args[0] in ("set", "frozenset") or \
            gcall(t, "set") is not None and gcall(t, "set") is not False and bool(gcall(t, "set"))

    def hook(t, env, S):
        op = t.op
        if t is fields:
            return {k: k for k in prognostic}
        if op == "attr" and t.args[1] in ("coordinates", "args", "spatial_coordinates", "free_symbols", "name", "func", "value"):
            o = S.val(t.args[0], env)
            if isinstance(o, Sym) and o in coords:
                if t.args[1] == "name":
                    return Text(o.data[0])
                if t.args[1] in ("value",):
                    return o
                if t.args[1] == "func":
                    return Sym("func", o.data[0])
                c = list(coords[o])
                return [x for x in c if x.data[0] != "t"] if t.args[1] == "spatial_coordinates" else c
        if op in ("eq",) and any(isset(x) for x in t.args):
            x, y = (S.val(z, env) for z in t.args)
            if isinstance(x, list) and isinstance(y, list) and all(isset(z) for z in t.args):
                return set(x) == set(y)
        if op == "sub" and t.args[1].op == "slice":
            o = S.val(t.args[0], env)
            ks = [None if z is NONE else numval(z) for z in t.args[1].args]
            if isinstance(o, list) and all(k is None or k == int(k) for k in ks):
                return o[slice(*[None if k is None else int(k) for k in ks])]
        return set_hook(t, env, S)

    def refused(F, G, known):
        S = Shape(hook, I.nexts, lambda a, b: a is b if isinstance(a, Sym) and isinstance(b, Sym) else None)
        prognostic[:] = known
        env = {pa: F, pb: G}
        for e in I.effects:
            if e.kind == "raise" and not e.loops:
                try:
                    if all(S.truth(S.val(I.fz(c, s), env)) for c in e.pc):
                        return True
                except Raised:
                    return True
        return False

    F, G = Sym("fun", "f"), Sym("fun", "g")
    t, x, y, z = (Sym("sym", c) for c in "txyz")
    cases = [((t, x), (t, x), 2), ((t, x, y), (t, x, y), 2), ((t, x, y, z), (t, x, y, z), 2), ((t, x), (t, y), 2), ((t, x), (t, x, y), 2),
             ((t, x, y), (t, x), 2), ((t, x, y), (t, y, x), 2), ((t, x, y), (t, x, z), 2), ((t, y), (t, x, y), 2), ((t, x, y), (t, x, y), 1),
             ((t, x, y), (t, x, y), 0), ((t, x, y, z), (t, x, z, y), 2)]
    for cf, cg, n in cases:
        coords.clear()
        coords.update({F: cf, G: cg})
        known = [F, G][:n]
        for A, B in ((F, G), (G, F)):
            want = cf != cg or n < 2
            inst = f"covariance of {A.data[0]}{show(coords[A])} and {B.data[0]}{show(coords[B])}, {n} prognostic"
            rule = rule_refused if want else rule_accepted
            try:
                got = refused(A, B, known)
            except Unknown as e:
                rep.unsure(rule, inst, f.where, str(e)[:200])
                continue
            rep.check(rule, inst, f.where, got == want, "refused" if got else "accepted")


def set_hook(t, env, S):
    """operations on sets of symbols"""
    if t.op == "call" and t.args[0].op == "attr" and not t.args[2] and len(t.args[1]) == 1:
        m = t.args[0].args[1]
        if m in ("issubset", "issuperset", "isdisjoint", "difference", "intersection", "union", "symmetric_difference"):
            a, b = S.val(t.args[0].args[0], env), S.val(t.args[1][0], env)
            if isinstance(a, list) and isinstance(b, (list, dict)):
                r = getattr(set(a), m)(set(b))
                return r if isinstance(r, bool) else [x for x in list(a) + list(b) if x in r]
    if t.op in ("le", "lt") or t.op == "bin" and t.args[0] in ("<=", ">=", "<", ">", "-", "&", "|"):
        o, x, y = (t.op, *t.args) if t.op != "bin" else t.args
        a, b = S.val(x, env), S.val(y, env)
        if isinstance(a, list) and isinstance(b, list):
            a, b = set(a), set(b)
            r = {"le": a <= b, "lt": a < b, "<=": a <= b, ">=": a >= b, "<": a < b, ">": a > b, "-": a - b, "&": a & b, "|": a | b}[o]
            return r if isinstance(r, bool) else sorted(r, key=repr)
    return NotImplemented


def coordinates_attr(ctx):
    init = ctx.method("CoordinateSystem", "__init__")
    J, _, js = ctx.run_method("CoordinateSystem", "__init__")
    return {e.key for e in J.effects if e.kind == "attr" and J.fz(e.value, js) is mk("param", init.node.args.args[1].arg)}


def compatible(ctx, rep, rule):
    """is_compatible: the function depends on all the coordinates of the system"""
    t, x, y, z = (Sym("sym", c) for c in "txyz")
    f = ctx.method("CoordinateSystem", "is_compatible")
    I, v, s = ctx.run_method("CoordinateSystem", "is_compatible")
    me = mk("self", ctx.cls("CoordinateSystem").qual)
    par = mk("param", f.node.args.args[1].arg)
    names = coordinates_attr(ctx)
    for co in ((x,), (x, y), (y, x), (x, y, z)):
        for args in ((t, x), (x,), (t, y), (t, x, y), (x, y), (t, y, x), (t, x, y, z), (x, z, y), (t, z), (t,)):
            def hook(q, env, S):
                if q.op == "attr" and q.args[0] is me and q.args[1] in names:
                    return list(co)
                if q.op == "attr" and q.args[0] is par and q.args[1] in ("args", "free_symbols"):
                    return list(args)
                return set_hook(q, env, S)
            S = Shape(hook, I.nexts, lambda a, b: a is b if isinstance(a, Sym) and isinstance(b, Sym) else None)
            want = set(co) <= set(args)
            inst = f"u{show(args)} compatible with {show(co)}"
            try:
                got = S.truth(S.val(v, {par: Sym("fun", "u", *args)}))
            except (Unknown, Raised) as e:
                rep.unsure(rule, inst, f.where, str(e)[:200])
                continue
            rep.check(rule, inst, f.where, got == want, str(got))


def conversions(ctx, rep, rule):
    """the three descriptions of a multi-index and its degree"""
    L = Labels(ctx)
    for n in (1, 2, 3):
        coords = tuple(Sym("sym", c) for c in ("x", "y", "z")[:n])
        for kind, label in labels_of(coords):
            want = orders(coords, label)
            if want == REFUSED:
                continue
            seq = [c for c, k in zip(coords, want) for _ in range(k)]
            for attr, val in (("as_tuple", want), ("as_couples", list(zip(coords, want))), ("as_sequence", seq), ("_degree", sum(want))):
                m = ctx.pkg.find_method(L.c, attr)
                inst = f"{attr.strip('_')} of {show(label)} for {show(coords)}"
                where = m.where if m is not None else L.init.where
                try:
                    got = L.value(attr, coords, label)
                except (Unknown, Raised) as e:
                    rep.unsure(rule, inst, where, str(e)[:200])
                    continue
                ok = L.same(tup(list(val)) if isinstance(val, (list, tuple)) else val, got)
                if not ok and attr == "as_couples" and isinstance(got, list):
                    # the coordinates which are not derived may be left out
                    ok = L.same([[c, k] for c, k in val if k], [x for x in got if isinstance(x, list) and len(x) == 2 and x[1]])
                rep.check(rule, inst, where, ok, f"{show(got)}")


def coordinate_domain(ctx, rep, rule_refused, rule_accepted):
    """gradient and divergence: each function of each component depends on each coordinate of the system, or it is refused"""
    t, x, y, z, w = (Sym("sym", c) for c in "txyzw")
    fn = lambda *c: Sym("fun", "u", *c)
    # coordinates of the system, functions of each component of the argument, refused
    good1, good2 = fn(t, x, y), fn(y, x)
    bad1, bad2 = fn(t, x), fn(t, y, z)
    cases = [((x,), [[fn(t, x)], [fn(x)]], False), ((x,), [[fn(t, y)], [fn(x)]], True), ((x,), [[], []], False)]
    for a, b in (([good1], [good2]), ([good1, good2], [good1]), ([good2], [])):
        cases.append(((x, y), [a, b], False))
    for b in (bad1, bad2, fn(t), fn(t, w, z), fn(x), fn(y), fn(x, z)):
        for comp in ([b], [good1, b], [b, good1]):
            cases.append(((x, y), [comp, [good1]], True))
            cases.append(((x, y), [[good1], comp], "div"))
    for m in ("gradient", "div"):
        f = ctx.method("CoordinateSystem", m)
        I, v, s = ctx.run_method("CoordinateSystem", m)
        me = mk("self", ctx.cls("CoordinateSystem").qual)
        par = mk("param", f.node.args.args[1].arg)
        names = coordinates_attr(ctx)
        for co, comps, want in cases:
            if m == "gradient":
                if want == "div":
                    continue
                arg = Sym("field", *comps[0])
            else:
                arg = [Sym("field", *c) for c in comps]
            want = bool(want)

            def hook(q, env, S):
                if q.op == "attr" and q.args[0] is me and q.args[1] in names:
                    return list(co)
                if q.op == "call" and q.args[0].op == "attr" and q.args[0].args[1] in ("atoms", "find"):
                    o = S.val(q.args[0].args[0], env)
                    if isinstance(o, Sym) and o.kind == "field" and len(q.args[1]) == 1 and short(q.args[1][0]).split(".")[-1].startswith(
                            ("Function", "AppliedUndef")):
                        return list(o.data)
                if q.op == "attr" and q.args[1] in ("args", "free_symbols"):
                    o = S.val(q.args[0], env)
                    if isinstance(o, Sym) and o.kind == "fun":
                        return list(o.data[1:])
                if q.op == "isinstance":
                    # a component with one function is this function, a component with several ones is their sum
                    o = S.val(q.args[0], env)
                    if isinstance(o, Sym) and o.kind in ("field", "fun"):
                        ks = {str(y.args[-1]).split(".")[-1] for y in TT.walk(q.args[1]) if y.op in ("global", "attr")}
                        k = len(o.data) if o.kind == "field" else 1
                        return bool(ks & {"Expr", "Basic"}) or bool(ks & {"Function", "AppliedUndef"}) and k == 1 or "Add" in ks and k > 1
                return set_hook(q, env, S)

            S = Shape(hook, I.nexts, lambda a, b: a is b if isinstance(a, Sym) and isinstance(b, Sym) else None)

            def go(e, k, en):
                if k == len(e.loops):
                    return all(S.truth(S.val(I.fz(c, s), en)) for c in e.pc)
                return any(go(e, k + 1, {**en, e.loops[k]: i}) for i in range(S.count(e.loops[k], en)))
            inst = f"{m} in {show(co)} of " + "; ".join("+".join("u" + show(q.data[1:]) for q in c) or "constant"
                                                        for c in (comps if m == "div" else comps[:1]))
            rule = rule_refused if want else rule_accepted
            try:
                got = any(go(e, 0, {par: arg}) for e in I.effects if e.kind == "raise")
            except (Unknown, Raised) as e:
                rep.unsure(rule, inst, f.where, str(e)[:200])
                continue
            rep.check(rule, inst, f.where, got == want, "refused" if got else "accepted")


def equality(ctx, rep, rule):
    """two multi-indices are equal exactly when their coordinates and their orders are; copies and changes of orders keep the coordinates"""
    L = Labels(ctx)
    x, y = Sym("sym", "x"), Sym("sym", "y")
    f = ctx.pkg.find_method(L.c, "__eq__")
    if f is not None:
        I, v, s = ctx.run_method(CLS, "__eq__")
        rhs = mk("param", f.node.args.args[1].arg)
        sets = [((x,), (0,)), ((x,), (2,)), ((y,), (2,)), ((x, y), (1, 0)), ((x, y), (0, 1)), ((y, x), (1, 0))]
        for a in sets:
            for b in sets:
                def hook(q, env, S):
                    if q.op == "attr" and q.args[0] in (L.me, rhs):
                        return L.value(q.args[1], *(a if q.args[0] is L.me else b))
                    if q.op == "isinstance" and q.args[0] in (L.me, rhs):
                        return True
                    if q.op == "is" and set(q.args) == {L.me, rhs}:
                        return a is b
                    if q.op == "type" and q.args[0] in (L.me, rhs):
                        return Sym("sym", "class")
                    return NotImplemented
                S = Shape(hook, I.nexts, lambda p, q: p is q if isinstance(p, Sym) and isinstance(q, Sym) else None)
                inst = f"{show(a[1])} for {show(a[0])} = {show(b[1])} for {show(b[0])}"
                try:
                    got = S.truth(S.val(v, {}))
                except (Unknown, Raised) as e:
                    rep.unsure(rule, inst, f.where, str(e)[:200])
                    continue
                rep.check(rule, inst, f.where, got == (a is b), str(got))
    for name in ("new", "copy"):
        f = ctx.pkg.find_method(L.c, name)
        if f is None:
            continue
        I, v, s = ctx.run_method(CLS, name, opaque={CLS})
        made = [q for q in walk(v) if q.op == "obj" and q.args[0].endswith(CLS) or gcall(q, CLS) or
                q.op == "call" and (q.args[0].op == "type" or q.args[0].op == "attr" and q.args[0].args[1] == "__class__")]
        if len(made) != 1 or len(made[0].args[1]) != 2:
            rep.notes.append(f"{name} of a multi-index is not decided: {short(v, 100)}")
            continue
        for co, lab in (((x,), (2,)), ((x, y), (1, 0)), ((y, x), (1, 2))):
            given = (4,) * len(co)
            def hook(q, env, S):
                if q.op == "attr" and q.args[0] is L.me:
                    return L.value(q.args[1], co, lab)
                return NotImplemented
            S = Shape(hook, I.nexts, lambda p, q: p is q if isinstance(p, Sym) and isinstance(q, Sym) else None)
            inst = f"{name} of {show(lab)} for {show(co)}"
            try:
                c2, l2 = [S.val(q, {mk("param", f.node.args.args[1].arg): tup(given)} if name == "new" else {}) for q in made[0].args[1]]
                got = orders(tuple(c2), tuple(l2) if isinstance(l2, Tup) else l2)
            except (Unknown, Raised) as e:
                rep.unsure(rule, inst, f.where, str(e)[:200])
                continue
            want = list(given) if name == "new" else list(lab)
            rep.check(rule, inst, f.where, L.same(tup(c2), tup(co)) and list(got) == want, f"{show(got)} for {show(c2)}")
