"""The generated program, computed from the source of a builder and of its templates for an abstract system of equations.

The code of the builder is read into terms (see engine.interp) through a small probe function, and these terms are evaluated on systems
whose functions, derivatives, constants and right hand sides are tokens: only their number, names and places are fixed.  The text obtained is
the one of the generated module, in which rhs<k>(...) stands for the right hand side of equation k and code<k>(...) for a derivative."""
from .base import *
from . import genmodel as G
from engine.index import ModuleInfo
from engine.shape import Shape, Sym, Text, Unknown, Raised, text, frozen, unify

CLEAN = "clean_latex_name"
SYSTEM = mk("param", "system")
OPAQUE = {"get_derivative_partial_orders", "get_trend", "finite_difference", "code_finite_difference"}


class ObjVal:
    """object built by the code under analysis"""

    def __init__(self, term, env):
        self.term, self.env = term, env
        self.ixs = frozenset(x for x in TT.walk(term) if x.op == "ix")

    def ident(self):
        return (self.term,) + tuple((x, self.env.get(x)) for x in sorted(self.ixs, key=str) if isinstance(self.env.get(x), int))

    def __eq__(self, o):
        return isinstance(o, ObjVal) and o.ident() == self.ident()

    def __hash__(self):
        return hash(self.ident())

    def __repr__(self):
        return f"<{short(self.term, 60)}>"


class Opposite:
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return o.x < self.x

    def __eq__(self, o):
        return isinstance(o, Opposite) and self.x == o.x

    def __hash__(self):
        return hash(self.x)


class System:
    """abstract system of equations"""

    def __init__(self, prog, exo=(), cfun=(), con=(), coords=("xa",), ders=(), eqs=(), raw=lambda n: "\\" + n, keys=None, time="t", name="", scrambled=False, reverse=False, rawco=lambda n: n):
        self.rawco = rawco
        self.reverse = reverse                # another canonical order
        self.names = {}                       # symbol -> raw name
        self.raw = raw
        self.time = Sym("co", time)
        self.coords = [Sym("co", c) for c in coords]
        self.fn = {}
        for n, deps in list(prog) + list(exo) + list(cfun):
            self.fn[n] = Sym("fn", n, tuple(deps))
        self.prog = [self.fn[n] for n, _ in prog]
        self.exo = [self.fn[n] for n, _ in exo]
        self.cfun = [self.fn[n] for n, _ in cfun]
        self.con = [Sym("con", n) for n in con]
        self.ders = [Sym("der", n, tuple(o)) for n, o in ders]
        self.eqs = [(Sym("trend", self.fn[p].data[0]), Sym("expr", k, tuple(atoms))) for k, (p, atoms) in enumerate(eqs)]
        self.name = name
        self.keys = keys or {}
        self.scrambled = scrambled

    def sortkey(self, x):
        """rank of a symbol in the canonical order of sympy: any fixed order will do"""
        n = len(x.data[1]) if x.kind == "der" else 0       # as sympy, which counts the arguments first
        k = self.keys.get(x, (x.kind, n, tuple(str(d) for d in x.data)))
        return k if not self.reverse else tuple(Opposite(y) for y in k)

    def attribute(self, n):
        def unordered(xs):
            xs = list(xs)
            if isinstance(self.scrambled, int) and not isinstance(self.scrambled, bool):
                # one of the orders a set may have
                k = (self.scrambled * 7 + len(n)) % max(len(xs), 1)
                xs = xs[k:] + xs[:k]
                return xs[::-1] if self.scrambled % 2 else xs
            return xs[::-1] if self.scrambled else xs
        if n == "prognostic_functions":
            return list(self.prog)
        if n == "functions":
            return unordered(self.exo + self.prog + self.cfun)
        if n == "exogenous_functions":
            return unordered(self.exo)
        if n == "constant_functions":
            return unordered(self.cfun)
        if n == "constants":
            return unordered(self.con)
        if n == "spatial_derivatives":
            return unordered(self.ders)
        if n == "spatial_coordinates":
            return list(self.coords)
        if n == "coordinates":
            return [self.time] + list(self.coords)
        if n in ("time_coordinate", "_time_symbol", "time_symbol"):
            return self.time
        if n == "derivative_max_order":
            return max([sum(o for _, o in d.data[1]) for d in self.ders], default=0)
        if n == "equations":
            return [Sym("eqn", l, r) for l, r in self.eqs]
        if n == "name":
            return Text(self.name)
        if n in ("trainable_scalars",):
            return []
        raise Unknown(f"attribute {n} of the system")


def literal_atom(a, sysm):
    if a.kind == "named":
        return a.data[0]
    if a.kind == "fn":
        return f"{sysm.raw(a.data[0])}({', '.join(map(sysm.rawco, a.data[1]))})"
    if a.kind == "der":
        return f"Derivative({sysm.raw(a.data[0])}(), {a.data[1]})"
    if a.kind == "con":
        return sysm.raw(a.data[0])
    if a.kind == "co":
        return sysm.rawco(a.data[0])
    if a.kind == "train":
        return a.data[0]
    return f"{a.kind}<{a.data}>"


def literal(v, sysm):
    """plain text of a value"""
    if isinstance(v, str):
        return v
    if isinstance(v, Text):
        return "".join(p if isinstance(p, str) else literal(p, sysm) for p in v.parts)
    if isinstance(v, Sym):
        if v.kind == "expr":
            return f"rhs{v.data[0]}({', '.join(literal_atom(a, sysm) for a in v.data[1])})"
        if v.kind == "code":
            return f"code{v.data[0]}({', '.join(v.data[1])})"
        return literal_atom(v, sysm)
    if isinstance(v, (int,)) or v is None:
        return str(v)
    raise Unknown(f"text of {v!r}")


def substitute(atoms, old, new):
    out = []
    for a in atoms:
        if a is old:
            out.append(new)
        elif a.kind == "der" and isinstance(old, Sym) and (
                old.kind == "fn" and old.data[0] == a.data[0]
                or old.kind == "der" and old.data[0] == a.data[0] and all(dict(a.data[1]).get(c, 0) >= o for c, o in old.data[1])):
            out.append(Sym("broken", a, old))
        elif a.kind == "broken":
            out.append(a)
        else:
            out.append(a)
    return tuple(out)


class FillObjects(G.Fill):
    """template evaluator on the objects of the builder"""

    def __init__(self, values, getattr_, lit):
        super().__init__(values)
        self.getattr_, self.lit = getattr_, lit

    def plain(self, v):
        return self.lit(v) if isinstance(v, (Text, Sym)) else v

    def expr(self, n, env):
        if type(n).__name__ == "Getattr":
            o = self.expr(n.node, env)
            if isinstance(o, ObjVal):
                self.attrs.add(n.attr)
                try:
                    return self.plain(self.getattr_(o, n.attr))
                except KeyError:
                    self.undefined.add(n.attr)
                    return ""
        r = super().expr(n, env)
        return self.plain(r)


class Pipeline:
    """evaluation of a probe on abstract systems"""

    def __init__(self, ctx, body, opaque=OPAQUE, params="system, name", tag="builder", assume=True):
        src = ("from sympkf.symbolic.model_builder_FD import FDModelBuilder\n"
               "from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder\n"
               f"def probe({params}):\n" + "".join("    " + l + "\n" for l in body))
        m = ModuleInfo(f"probe_{tag}", f"<probe_{tag}>", f"<probe {tag}>", False, src)
        ctx.pkg.modules[m.name] = m
        st = State({})
        for p in [x.strip() for x in params.split(",")]:
            if p.startswith("system"):
                st = st.assume(mk("isinstance", mk("param", p), mk("global", "sympkf.symbolic.util.PDESystem")))
        self.ctx = ctx
        self.I, v, self.s = ctx.run(m.funcs["probe"], opaque=set(opaque) | {CLEAN}, st=st)
        self.v = self.I.fz(v, self.s)
        self.attrs = {k: (self.I.fz(x, self.s) if isinstance(x, T) else x) for k, x in self.s.attrs.items()}

    # evaluation
    def run(self, systems, clean=None, name=None):
        """value of the probe for abstract systems (dict parameter -> System); `clean` gives the sanitised form of a symbol"""
        self.systems = {mk("param", p): x for p, x in systems.items()}
        self.one = next(iter(systems.values()))
        self.fn = {}
        for x in systems.values():
            for k, f in x.fn.items():
                if self.fn.setdefault(k, f) != f:
                    raise ValueError(f"two functions {k}")
        self.clean = clean or (lambda sym: Text(str(sym.data[0])))
        self.fills = []
        self.busy = set()
        S = Shape(self.hook, self.I.nexts, self.compare)
        S.text = text
        env = {mk("param", "name"): name if name is None else Text(name)}
        self.S = S
        self.env = env
        for e in self.I.effects:
            if e.kind == "raise":
                if self.raises(e, env):
                    raise Raised(short(e.target, 100))
        return S.val(self.v, env)

    def raises(self, e, env):
        def go(k, en):
            if k == len(e.loops):
                try:
                    return all(self.S.truth(self.S.val(self.I.fz(c, self.s), en)) for c in e.pc)
                except Raised:
                    return False
            ix = e.loops[k]
            return any(go(k + 1, {**en, ix: i}) for i in range(self.S.count(ix, en)))
        return go(0, dict(env))

    @staticmethod
    def compare(a, b):
        if isinstance(a, (Sym, ObjVal)) and isinstance(b, (Sym, ObjVal)):
            return a == b
        if isinstance(a, (Sym, ObjVal)) != isinstance(b, (Sym, ObjVal)):
            return False
        return None

    def lit(self, v):
        return literal(v, self.one)

    def getattr(self, o, n):
        """attribute of an object built by the code"""
        at = mk("attr", o.term, n)
        env = o.env
        val = self.attrs.get((o.term, n))
        if val is None:
            # the same construction, under the index of another loop
            for key, x in self.attrs.items():
                if key[1] == n and isinstance(key[0], T) and key[0].op == "obj" and key[0].args[0] == o.term.args[0]:
                    b = unify(key[0], o.term)
                    if b:
                        env = dict(o.env)
                        for ix, y in b.items():
                            env[ix] = self.S.val(y, o.env)
                        o, at, val = ObjVal(key[0], env), mk("attr", key[0], n), x
                        break
            else:
                raise KeyError(n)
        if not isinstance(val, T):
            return val
        return self.attr_value(val, o, at, env)

    def attr_value(self, val, o, at, env):
        if val.op == "lastof" and len(val.args) == 2:
            j, body = val.args
            if j in o.ixs:
                if j in env:
                    return self.attr_value(body, o, at, env)
                raise Unknown("object of a loop")
            r = None
            n = self.S.count(j, env)
            for k in range(n):
                e = {**env, j: k}
                if r is not None:
                    e[at] = r
                r = self.attr_value(body, o, at, e)
            return r
        if val.op == "phi":
            return self.attr_value(val.args[1] if self.S.truth(self.S.val(val.args[0], env)) else val.args[2], o, at, env)
        return self.S.val(val, env)

    def hook(self, t, env, S):
        op = t.op
        if op == "param" and t in self.systems:
            return self.systems[t]
        if op == "obj":
            return ObjVal(t, env)
        if op == "attr":
            o, n = S.val(t.args[0], env), t.args[1]
            return self.attribute(o, n)
        if op == "isinstance":
            o = S.val(t.args[0], env)
            cl = t.args[1].args[0].split(".")[-1] if t.args[1].op == "global" else None
            if isinstance(o, System):
                return cl == "PDESystem"
            if isinstance(o, list):
                return cl in ("list", "tuple")
            raise Unknown("isinstance")
        if op == "tostr":
            v = S.val(t.args[0], env)
            return Text(self.raw(v)) if isinstance(v, Sym) else text(v)
        if op == "sumover":
            ix, body = t.args
            vs = [S.val(body, {**env, ix: i}) for i in range(S.count(ix, env))]
            if vs and isinstance(vs[0], Text):
                return Text(*vs)
            return sum(S.num_(v) for v in vs)
        if op == "sub" and t.args[1].op != "slice":
            o = S.val(t.args[0], env)
            if isinstance(o, Text):
                k = S.val(t.args[1], env)
                x = self.lit(o)
                return Text(x[k])
        if op == "len":
            o = S.val(t.args[0], env)
            if isinstance(o, Text):
                return len(self.lit(o))
        if op == "sortedT":
            xs = S.seq(t.args[0], env)
            k = t.args[1]
            if k.op == "global" and k.args[0].endswith("default_sort_key") and all(isinstance(x, Sym) for x in xs):
                r = sorted(xs, key=self.one.sortkey, reverse=S.truth(S.val(t.args[2], env)))
                return r
        if op == "call":
            return self.call(t, env, S)
        return NotImplemented

    def raw(self, v):
        return self.one.raw(v.data[0]) if v.kind in ("func", "con") else self.lit(v)

    def attribute(self, o, n):
        if isinstance(o, System):
            return o.attribute(n)
        if isinstance(o, ObjVal):
            try:
                return self.getattr(o, n)
            except KeyError:
                raise Unknown(f"attribute {n} of {o}")
        if isinstance(o, Sym):
            if o.kind == "fn":
                if n == "func":
                    return Sym("func", o.data[0])
                if n == "args":
                    return [Sym("co", c) for c in o.data[1]]
                if n == "name":
                    return Text(self.one.raw(o.data[0]))
            if o.kind in ("con", "co") and n == "name":
                return Text(self.lit(o))
            if o.kind == "func" and n in ("name", "__name__"):
                return Text(self.raw(o))
            if o.kind == "der":
                if n == "args":
                    return [self.fn[o.data[0]]] + [[Sym("co", c), k] for c, k in o.data[1]]
                if n in ("expr",):
                    return self.fn[o.data[0]]
            if o.kind == "trend":
                if n == "args":
                    return [self.fn[o.data[0]], [self.one.time, 1]]
                if n == "expr":
                    return self.fn[o.data[0]]
            if o.kind == "eqn":
                if n == "args":
                    return list(o.data)
                if n == "lhs":
                    return o.data[0]
                if n == "rhs":
                    return o.data[1]
        raise Unknown(f"attribute {n} of {o!r}")

    def call(self, t, env, S):
        f, args, kw = t.args
        n = f.args[0].split(".")[-1] if f.op == "global" else f.args[1] if f.op == "attr" else None
        if f.op == "attr" and n == "render":
            tx = self.template(f.args[0], env, S)
            values = {}
            for a in args:
                d = S.val(a, env)
                if not isinstance(d, dict):
                    raise Unknown("render")
                values.update({self.lit(k): v for k, v in d.items()})
            for k, b in kw:
                v = S.val(b, env)
                if k in ("**", None):
                    values.update({self.lit(q): x for q, x in v.items()})
                else:
                    values[k] = v
            values = {k: (self.lit(v) if isinstance(v, (Text, Sym)) else v) for k, v in values.items()}
            fill = FillObjects(values, self.getattr, self.lit)
            self.fills.append(fill)
            return Text(fill.run(self.lit(tx)))
        if n == "_set_as_code" and f.op == "attr":
            o = S.val(f.args[0], env)
            return self.code_of(o)
        if n in ("subs", "xreplace", "replace") and f.op == "attr":
            o = S.val(f.args[0], env)
            if isinstance(o, Sym) and o.kind == "expr":
                xs = [S.val(a, env) for a in args]
                if len(xs) == 2:
                    pairs = [tuple(xs)]
                elif len(xs) == 1 and isinstance(xs[0], dict):
                    pairs = sorted(xs[0].items(), key=self.complexity)
                elif len(xs) == 1 and isinstance(xs[0], list) and n == "subs":
                    pairs = [tuple(p) for p in xs[0]]
                else:
                    raise Unknown(n)
                atoms = o.data[1]
                for a, b in pairs:
                    if not isinstance(a, Sym) or not isinstance(b, Sym):
                        raise Unknown(f"{n} {a!r} {b!r}")
                    atoms = substitute(atoms, a, b)
                return Sym("expr", o.data[0], atoms)
        if f.op == "global":
            if n == CLEAN and len(args) == 1:
                x = S.val(args[0], env)
                if isinstance(x, Sym):
                    return self.clean(x)
                if isinstance(x, Text):
                    return self.clean(Sym("raw", self.lit(x)))
            if n == "get_trend":
                x = S.val(args[0], env)
                if isinstance(x, Sym) and x.kind == "eqn":
                    return x.data[0] if x.data[0].kind == "trend" else Sym("trend", x.data[0].data[0])
            if n == "get_derivative_partial_orders":
                x = S.val(args[0], env)
                if isinstance(x, Sym) and x.kind == "der":
                    return {Sym("co", c): k for c, k in x.data[1]}
            if n in ("FunctionSymbol", "ScalarSymbol", "Symbol") and len(args) == 1:
                return Sym("named", self.lit(S.val(args[0], env)), n)
            if n == "Function" and len(args) == 1:
                return Sym("named", self.lit(S.val(args[0], env)), n)
            if n in ("Eq", "Equality") and len(args) == 2:
                return Sym("eqn", *[S.val(a, env) for a in args])
            if n == "default_sort_key" and len(args) == 1:
                x = S.val(args[0], env)
                if isinstance(x, Sym):
                    return Sym("sortkey", self.one.sortkey(x))
            if n == "code_finite_difference":
                ders = self.derivatives_in(t, env, S)
                if len(ders) == 1:
                    return self.code_sym(ders[0])
        if f.op == "global" and n == "repr" and len(args) == 1:
            o = S.val(args[0], env)
            if isinstance(o, Text):
                return Text(repr(self.lit(o)))
        if f.op == "attr" and n == "splitlines":
            o = S.val(f.args[0], env)
            keep = S.truth(S.val(args[0], env)) if args else any(k == "keepends" and S.truth(S.val(b, env)) for k, b in kw)
            if isinstance(o, Text):
                return [Text(x) for x in self.lit(o).splitlines(keep)]
        if f.op == "attr" and n in ("split", "replace", "startswith", "endswith", "isidentifier") and not kw:
            o = S.val(f.args[0], env)
            xs = [S.val(a, env) for a in args]
            if isinstance(o, Text) and all(isinstance(x, (Text, int)) for x in xs):
                r = getattr(self.lit(o), n)(*[self.lit(x) if isinstance(x, Text) else x for x in xs])
                return [Text(x) for x in r] if isinstance(r, list) else Text(r) if isinstance(r, str) else r
        if f.op == "attr" and n in ("lower", "upper", "strip", "rstrip", "lstrip", "title") and not kw:
            o = S.val(f.args[0], env)
            if isinstance(o, Text):
                return Text(getattr(self.lit(o), n)(*[self.lit(S.val(a, env)) for a in args]))
        return NotImplemented

    def complexity(self, p):
        """sympy replaces the most complex expressions first"""
        a = p[0]
        return (0, -sum(o for _, o in a.data[1])) if a.kind == "der" else (1, 0) if a.kind == "fn" else (2, 0)

    def derivatives_in(self, t, env, S):
        out = []
        for a in TT.walk(t):
            if a.op in ("attr", "sub"):
                try:
                    v = S.val(a, env)
                except (Unknown, Raised, KeyError):
                    continue
                if isinstance(v, Sym) and v.kind == "der" and v not in out:
                    out.append(v)
        return out

    def code_of(self, o):
        v = self.getattr(o, "as_symbolic")
        return self.code_sym(v)

    def code_sym(self, der):
        k = self.one.ders.index(der)
        f = self.fn[der.data[0]]
        return Sym("code", k, (self.lit(self.clean(Sym("func", f.data[0]))),))

    def template(self, t, env, S):
        if t.op == "call" and t.args[0].op == "global" and t.args[0].args[0].split(".")[-1] == "Template" and len(t.args[1]) == 1 and not t.args[2]:
            return S.val(t.args[1][0], env)
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "from_string" and len(t.args[1]) == 1 \
                and gcall(t.args[0].args[0], "Environment") and not t.args[0].args[0].args[1] and not t.args[0].args[0].args[2]:
            return S.val(t.args[1][0], env)
        raise Unknown(f"template {short(t, 100)}")
