"""C20: names put in generated code are sanitised identifiers, the same ones everywhere."""
import ast
import itertools
import keyword
from .base import *
from .pipeline import Pipeline, System, Raised, Unknown
from .cleaning import Cleaner, CLEAN, SPECIAL, reference, identifier
from engine.shape import Sym, Text
from engine.defuse import ModuleScope
from . import c19, c21
from .c21 import BUILDERS, where_of, generated, BUILTIN_CODE


# ------------------------------------------------------------------ the function
def cleaning(ctx, rep, tier):
    C = Cleaner(ctx)
    where = C.f.where
    rep.saw(C.f.qual)

    def one(label, raws, what):
        """all of these names"""
        bad = unk = None
        n = 0
        for raw, symbol in raws:
            try:
                r = C.name(raw, symbol)
            except Unknown as e:
                unk = unk or f"{raw}: {e}"
                continue
            except Raised as e:
                bad = bad or f"{raw} raises {e}"
                continue
            n += 1
            w = what(raw, r)
            if w:
                bad = bad or f"{raw} becomes {r!r}: {w}"
        if bad:
            rep.bad("cleaning", label, where, bad)
        elif unk:
            rep.unsure("cleaning", label, where, unk)
        else:
            rep.ok("cleaning", label, where, f"{n} names")

    def valid(raw, r):
        ref = reference(raw)
        if keyword.iskeyword(ref):
            return "" if identifier(r) and r.startswith(ref) else "no identifier which may be assigned"
        return "" if r == ref else f"{ref!r} expected"
    alphabet = ["a", "Z", "1", "_", "λ"] + list(SPECIAL)
    for n in range(1, 4 if tier == "quick" else 5):
        for c in alphabet:
            raws = ["".join(p) for p in itertools.product(alphabet, repeat=n) if p[0] == c]
            raws = [x for x in raws if reference(x).isidentifier()]
            if raws:
                one(f"names of {n} characters, the first one is {c}", [(x, y) for x in raws for y in ((True, False) if n < 3 else (True,))], valid)
    for k in keyword.kwlist:
        one(f"keyword {k}", [(d.format(k), y) for d in ("{}", "\\{}", "{{{}}}", "{{\\{}}}", "\\{{{}}}") for y in (True, False)], valid)
    one("names of the filter", [(x, True) for x in FILTER], valid)

    def again(raw, r):
        q = C.name(r, False)
        return "" if q == r else f"cleaned again it becomes {q!r}"
    one("names cleaned twice", [(x, True) for x in FILTER + ["\\" + k for k in keyword.kwlist] + ["".join(p) for p in itertools.product("a_^\\{", repeat=3)
                                                                                            if reference("".join(p)).isidentifier()]], again)
    st = C.steps()
    if st:
        whole = all(len(a) == 1 for a, b in st)
        img = {c: c for c in alphabet}
        for a, b in st:
            img = {c: "".join(b if x == a else x for x in v) for c, v in img.items()}
        if whole and all(img[c] == reference(c) for c in alphabet) and all(a in SPECIAL for a, b in st):
            rep.ok("all names", "the name goes through replacements of single characters, each image is the expected one", where,
                   f"{len(st)} replacements: the obligations above hold for names of any length")


FILTER = ["u", "\\kappa", "{V_{u}}", "{\\varepsilon_{u}}", "{e_{u}}", "{\\sigma_{u}}", "{g_{u,xy}}", "{\\nu_{u,xx}}", "{s_{u,yx}}", "V_{uv}", "f^u", "u^{n}",
          "x_{1}", "x_{1,2}", "\\Psi^{\\alpha,\\beta}", "{\\mathcal{L}}", "{\\bf u}".replace(" ", "_"), "k^{2}"]


# ------------------------------------------------------------------ programs
SETS = {
    "LaTeX": (["{V_{u}}", "\\psi", "f^u", "{g_{u,xy}}", "{\\nu_{u,x}}", "\\Phi^{a,b}", "{s_{u,y}}", "{\\varepsilon_{u}}"], ["\\kappa", "k^{2}", "{c_{0,1}}"],
              ["\\theta", "x_{1}", "{y_{1,2}}"]),
    "keywords": (["lambda", "\\in", "{\\is}", "as", "{\\or}", "\\and", "pass", "yield"], ["not", "\\if", "{\\None}"], ["for", "\\def", "{\\with}"]),
    "prefixes of keywords": (["el", "ef", "\\el_{u}", "{a}", "s", "\\i", "{r}", "w"], ["o", "n", "q"], ["x", "y", "z"]),
    "parts of other names": (["u", "uu", "u_{1}", "u_{1}^{2}", "\\mu", "mu_{u}", "V", "{V_{V}}"], ["k", "kk", "k_{u}"], ["x", "xx", "x_{x}"]),
}


def named(sets, clean, **shape):
    """system with these names, and the same one with the sanitised names"""
    fs, ks, cs = sets
    plain = c21.system(**shape)
    m = {}
    tokens = [f.data[0] for f in plain.prog + plain.exo + plain.cfun]
    for k, n in enumerate(tokens):
        m[n] = fs[k % len(fs)]
    for k, s in enumerate(plain.con):
        m[s.data[0]] = ks[k % len(ks)]
    for k, s in enumerate(plain.coords):
        m[s.data[0]] = cs[k % len(cs)]
    m["t"] = "t"
    raw = lambda n: m.get(n, n)
    sy = c21.system(raw=raw, **shape)
    sy.rawco = raw
    q = {n: clean(r) for n, r in m.items()}
    return sy, twin(sy, q), raw


def twin(sy, q):
    def atom(a):
        if a.kind == "fn":
            return Sym("fn", q[a.data[0]], tuple(q[c] for c in a.data[1]))
        if a.kind == "der":
            return Sym("der", q[a.data[0]], tuple((q[c], o) for c, o in a.data[1]))
        if a.kind in ("con", "co"):
            return Sym(a.kind, q[a.data[0]])
        return a
    fn = lambda fs: [(q[f.data[0]], tuple(q[c] for c in f.data[1])) for f in fs]
    out = System(fn(sy.prog), fn(sy.exo), fn(sy.cfun), [q[k.data[0]] for k in sy.con], [q[c.data[0]] for c in sy.coords],
                 [(q[d.data[0]], tuple((q[c], o) for c, o in d.data[1])) for d in sy.ders], (), name=sy.name)
    out.time = sy.time
    out.eqs = [(Sym("trend", q[l.data[0]]), Sym("expr", r.data[0], tuple(atom(a) for a in r.data[1]))) for l, r in sy.eqs]
    return out


def shapes(tier):
    out = [("1 coordinate", dict(np_=2, nx=1, ncf=1, nk=2, nc=1, orders=(1, 2))), ("3 coordinates", dict(np_=3, nx=2, ncf=2, nk=3, nc=3, rotate=0, orders=(1,)))]
    if tier == "thorough":
        out += [(f"{n} functions, {c} coordinates", dict(np_=n, nx=2, ncf=2, nk=3, nc=c, rotate=0)) for n in (1, 2, 3, 4) for c in (1, 2, 3)]
    return out


def programs(ctx, rep, tier):
    C = Cleaner(ctx)
    sets = dict(SETS)
    if tier == "thorough":
        ks = [k for k in keyword.kwlist]
        for j in range(0, len(ks), 5):
            w = ks[j:] + ks[:j]
            sets[f"keywords from {w[0]}"] = (w[:8], ["\\" + x for x in w[8:11]], ["{" + x + "}" for x in w[11:14]])
    nsrc = 0
    for kind, b in BUILDERS.items():
        where = where_of(ctx, b)
        P = Pipeline(ctx, [f"b = {b}(system, name)", "return b.code"], tag=f"names_{kind}")
        for label, s in sets.items():
            for slabel, shape in shapes(tier):
                inst = f"{kind} model, {label}, {slabel}"
                try:
                    sy, tw, raw = named(s, C.name, **shape)
                    src = P.lit(P.run({"system": sy}, clean=lambda x: Text(C.name(raw(x.data[0])))))
                except Unknown as e:
                    rep.unsure("program", inst, where, e)
                    continue
                except Raised as e:
                    rep.bad("program", inst, where, f"raises {e}")
                    continue
                nsrc += 1
                m, err = generated(ctx, f"names_{kind}_{nsrc}", src)
                if err is not None:
                    rep.bad("program", inst, where, f"the program is not valid: {err}; {(err.text or '').strip()[:120]}")
                    continue
                left = decorated(src, [raw(n) for n in names_of(sy)])
                rep.check("program", inst, where, not left, f"the name {left[0]} is in the program as {left[1]}" if left else f"{len(src.splitlines())} lines")
                if left:
                    continue
                c = c21.closed(ctx, rep, inst, where, m, src)
                if c is None:
                    continue
                c21.layout(rep, inst, where, c, tw)
                c21.trend_rule(ctx, rep, inst, where, c, tw, kind)
    rep.saw(*[f.qual for b in ("ModelBuilder", *BUILDERS.values(), "MetaFunction", "MetaPrognosticFunction", "MetaDerivative", "MetaConstant", "MetaCoordinate")
              for f in ctx.cls(b).methods.values()])


def names_of(sy):
    return [f.data[0] for f in sy.prog + sy.exo + sy.cfun] + [k.data[0] for k in sy.con] + [c.data[0] for c in sy.coords]


def decorated(src, raws):
    """a name with its LaTeX decorations in the code of the program (texts of documentation are free)"""
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body[0].value.value = ""
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            for r in raws:
                if r in n.value and any(c in r for c in SPECIAL):
                    return r, repr(n.value)
    return None


# ------------------------------------------------------------------ distinct names
def distinct(ctx, rep):
    """different symbols are different variables of the program"""
    C = Cleaner(ctx)
    one = dict(np_=2, nx=0, ncf=0, nk=1, nc=1, rotate=0, orders=(1,))
    plain = (["u", "v"], ["k"], ["x"])
    pairs = {"names which differ by decorations only": (["f^u", "f_u"], ["k"], ["x"]),
             "a function named as a trend": (["u", "du"], ["k"], ["x"]),
             "a constant named as a derivative": (["u", "v"], ["Du_x_o1"], ["x"]),
             "a constant named as a variable of the trend": (["u", "v"], ["state"], ["x"]),
             "a constant named as an attribute of the model": (["u", "v"], ["x"], ["y"]),
             "a function and a constant": (["u", "v"], ["{u}_k"], ["x"]),
             "functions with a common prefix": (["u", "uu"], ["uuu"], ["u_x"]),
             "tensors of two fields": (["{g_{u,xy}}", "{g_{ux,y}}"], ["k"], ["x"]),
             "a derivative and a function": (["u_x", "u"], ["k"], ["x_x"])}
    for kind, b in BUILDERS.items():
        where = where_of(ctx, b)
        P = Pipeline(ctx, [f"b = {b}(system, name)", "return b.code"], tag=f"distinct_{kind}")

        def run(s):
            sy, tw, raw = named(s, C.name, **one)
            return P.lit(P.run({"system": sy}, clean=lambda x: Text(C.name(raw(x.data[0])))))
        try:
            ref = bound(ctx, run(plain), f"{kind}_plain")
        except (Unknown, Raised, SyntaxError) as e:
            rep.unsure("distinct", f"{kind} model", where, e)
            continue
        for what, s in pairs.items():
            inst = f"{kind} model, {what}"
            try:
                got = bound(ctx, run(s), f"{kind}_{what}")
            except (Unknown, Raised) as e:
                # refused, or not decided
                (rep.ok if isinstance(e, Raised) else rep.unsure)("distinct", inst, where, f"refused: {e}" if isinstance(e, Raised) else e)
                continue
            except SyntaxError as e:
                rep.bad("distinct", inst, where, f"the program is not valid: {e}")
                continue
            lost = [k for k in ref if len(got.get(k, ())) < len(ref[k])]
            new = sorted(x for x in got["hidden"] if x not in ref["hidden"])
            rep.check("distinct", inst, where, not lost and not new,
                      f"{len(got[lost[0]])} different names in the {lost[0]} for {len(ref[lost[0]])}" if lost else
                      f"the attribute {new[0]} of the model is hidden" if new else "")


def bound(ctx, src, tag):
    """names bound in the trend, and attributes of the model hidden by those of the symbols"""
    m, err = generated(ctx, "distinct_" + re_name(tag), src)
    if err is not None:
        raise err
    c = c21.model_class(m)
    f = c.methods["trend"]
    names = {a.arg for a in f.node.args.args} | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    cls = set(c21.class_tuple(c, "constants") or ()) | set(c21.class_tuple(c, "constant_functions") or ())
    base = set()
    for k in ctx.pkg.mro(c):
        base |= set(k.methods)
        for q in k.methods.values():
            base |= {x.attr for x in ast.walk(q.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"
                     and isinstance(x.ctx, ast.Store)} if k is not c or q.name != "__init__" else set()
    init = c.methods.get("__init__")
    if init is not None:
        stored = [x.attr for x in ast.walk(init.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"
                  and isinstance(x.ctx, ast.Store)]
        base |= {x for x in stored if stored.count(x) > 1 or x not in cls}
    return {"trend": names, "hidden": cls & base}


def re_name(x):
    return "".join(c if c.isalnum() else "_" for c in x)


# ------------------------------------------------------------------ names are never parsed
PARSERS = {"symbols", "var", "sympify", "parse_expr", "eval", "S", "parse_latex"}


def parsed(ctx, rep):
    """symbols('d' + str(x)) splits the name at commas, colons and spaces"""
    n = 0
    for f in sorted(ctx.pkg.functions(), key=lambda f: f.qual):
        ints = counters(f.node)
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call):
                nm = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
                if nm in ("Symbol", "Function", "Dummy", "FunctionSymbol", "ScalarSymbol") and c.args and dynamic(c.args[0], ints, f.node):
                    rep.ok("whole names", f"{f.qual.split('sympkf.', 1)[-1]}: {ast.unparse(c)[:70]}", f"{f.module.rel}:{c.lineno}", "a name, taken whole")
                    continue
                if nm not in PARSERS or not c.args or isinstance(c.func, ast.Attribute) and not (isinstance(c.func.value, ast.Name) and c.func.value.id in ("sympy", "sp")):
                    continue
                n += 1
                d = dynamic(c.args[0], ints, f.node)
                inst = f"{f.qual.split('sympkf.', 1)[-1]}: {ast.unparse(c)[:70]}"
                rep.check("whole names", inst, f"{f.module.rel}:{c.lineno}", not d, f"the text of {d} is parsed: a name with a comma, a colon or a space is split" if d else "")
    return n


def counters(fn):
    """names which are numbers"""
    out = set()
    for x in ast.walk(fn):
        g = x if isinstance(x, (ast.For, ast.comprehension)) else None
        if g is not None and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name):
            if g.iter.func.id == "range" and isinstance(g.target, ast.Name):
                out.add(g.target.id)
            if g.iter.func.id == "enumerate" and isinstance(g.target, ast.Tuple) and isinstance(g.target.elts[0], ast.Name):
                out.add(g.target.elts[0].id)
    return out


def dynamic(x, ints, fn, depth=0):
    """part of a text which is the name of something"""
    if isinstance(x, ast.Constant):
        return None
    if isinstance(x, ast.JoinedStr):
        for v in x.values:
            if isinstance(v, ast.FormattedValue):
                d = dynamic(v.value, ints, fn, depth)
                if d:
                    return ast.unparse(v.value)
        return None
    if isinstance(x, ast.BinOp):
        return dynamic(x.left, ints, fn, depth) or dynamic(x.right, ints, fn, depth)
    if isinstance(x, ast.Name):
        if x.id in ints:
            return None
        vals = [s.value for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets)]
        if vals and depth < 3:
            return next((d for d in (dynamic(v, ints, fn, depth + 1) for v in vals) if d), None)
        return x.id
    if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
        return dynamic(x.elt, ints, fn, depth)
    if isinstance(x, ast.Call):
        n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
        if n in ("str", "join", "format", "repr", "list", "tuple"):
            xs = list(x.args) + ([x.func.value] if isinstance(x.func, ast.Attribute) else [])
            return next((ast.unparse(a) for a in xs if dynamic(a, ints, fn, depth)), None)
        return ast.unparse(x)[:40]
    if isinstance(x, (ast.List, ast.Tuple)):
        return next((d for d in (dynamic(a, ints, fn, depth) for a in x.elts) if d), None)
    return ast.unparse(x)[:40]


def run(ctx, rep, tier):
    rep.rule("cleaning", "the sanitised form of a name drops \\ { } and shows ^ and , as _, keeps the rest, and is an identifier and no keyword", 60)
    rep.rule("all names", "the term is a replacement of single characters: what holds for each character holds for names of any length", 0)
    rep.rule("program", "a program for decorated names is valid, and has none of them as they are", 16)
    rep.rule("closed", "each name of the program is bound", 16)
    rep.rule("layout", "the lists of names have the sanitised forms", 40)
    rep.rule("trend", "each symbol reads the variable which has its sanitised name", 16)
    rep.rule("distinct", "different symbols are different variables", 10)
    rep.rule("shifted function", "the code of a shifted function has the sanitised names of the function and of its coordinates", 60)
    rep.rule("replacement", "the names of an expression are replaced as a whole by their sanitised forms", 4)
    rep.rule("whole names", "a name made of another one is never parsed", 3)
    cleaning(ctx, rep, tier)
    programs(ctx, rep, tier)
    distinct(ctx, rep)
    c19.function_codes(ctx, rep, "quick")
    c19.replacement(ctx, rep)
    parsed(ctx, rep)
