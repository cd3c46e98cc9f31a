"""C25: the predefined dynamics are the equations of their names; the ready-made Burgers model closes and runs the right system.

The statements of the modules of dynamics are read with the value graph, then every expression is brought to a normal
form of differential expressions (Laurent polynomials over symbols and partial derivatives of fields, product rule
applied), compared with the equation of reference up to the names of fields, coefficients and spatial coordinates."""
import ast
import itertools
from fractions import Fraction

from engine import index as ix, terms
from .base import *

# reference: dimension, unknown fields (name, depends on time), constants, right-hand side, symmetric conditions.
# U = evolving field; D(f, i, j..) derivative along the coordinates of these ranks
REF = {
    "burgers": dict(dim=1, const=["k"], fields=[], rhs="-U*D(U,0) + k*D(U,0,0)"),
    "kuramoto": dict(dim=1, const=["k", "e"], fields=[], rhs="-U*D(U,0) - k*D(U,0,0) - e*D(U,0,0,0,0)"),
    "diffusion": dict(dim=1, const=["k"], fields=[], rhs="k*D(U,0,0)"),
    "advection": dict(dim=1, const=[], fields=["u"], rhs="-u*D(U,0)"),
    "advection_in_2D": dict(dim=2, const=[], fields=["u", "v"], rhs="-u*D(U,0) - v*D(U,1)"),
    "advection_in_3D": dict(dim=3, const=[], fields=["u", "v", "w"], rhs="-u*D(U,0) - v*D(U,1) - w*D(U,2)"),
    "diffusion_in_2D": dict(dim=2, const=[], fields=["a", "b", "d"],
                            rhs="D(a*D(U,0),0) + D(b*D(U,1),0) + D(b*D(U,0),1) + D(d*D(U,1),1)"),
}


class Unsure(Exception):
    pass


# ------------------------------------------------------------------ differential expressions
# {monomial: coefficient}, monomial = sorted tuple of (atom, exponent); atom = ('s', name) | ('f', name, args, orders)
def P(c=0):
    return {(): Fraction(c)} if c else {}


def atom(a):
    return {((a, 1),): Fraction(1)}


def padd(*ps):
    out = {}
    for p in ps:
        for m, c in p.items():
            out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def pmul(p, q):
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            e = dict(m)
            for a, k in n:
                e[a] = e.get(a, 0) + k
            key = tuple(sorted((a, k) for a, k in e.items() if k))
            out[key] = out.get(key, 0) + c * d
    return {m: c for m, c in out.items() if c}


def ppow(p, n):
    if n < 0:
        if len(p) != 1:
            raise Unsure("power of a sum")
        (m, c), = p.items()
        p, n = {tuple((a, -k) for a, k in m): 1 / c}, -n
    out = P(1)
    for _ in range(n):
        out = pmul(out, p)
    return out


def pdiff(p, x):
    out = {}
    for m, c in p.items():
        for a, k in m:
            if a[0] == "s":
                if a[1] == x:
                    d = P(1)
                else:
                    continue
            elif x in a[2]:
                o = list(a[3])
                o[a[2].index(x)] += 1
                d = atom(a[:3] + (tuple(o),))
            else:
                continue
            rest = {tuple(sorted((b, j) for b, j in [(b, j - (b == a)) for b, j in m] if j)): c * k}
            out = padd(out, pmul(rest, d))
    return out


def psubst(p, old, new):
    """replace the field of atom `old` by the expression `new`, in its derivatives too"""
    out = {}
    for m, c in p.items():
        q = P(c)
        for a, k in m:
            if a == old:
                e = new
            elif a[0] == "f" and a[:3] == old[:3]:
                e = new
                for x, o in zip(a[2], a[3]):
                    for _ in range(o):
                        e = pdiff(e, x)
            else:
                e = atom(a)
            q = pmul(q, ppow(e, k))
        out = padd(out, q)
    return out


class Conv:
    """terms to differential expressions"""
    def __init__(self, fields=None):
        self.fields = fields or (lambda t: None)

    def sym(self, t):
        if t.op == "sym":
            return t.args[0]
        if t.op == "sub" and gcall(t.args[0], "symbols") and numval(t.args[1]) is not None:
            s = t.args[0].args[1][0]
            if s.op == "str":
                return s.args[0].replace(",", " ").split()[int(numval(t.args[1]))]
        if gcall(t, "Symbol", "symbols") and t.args[1] and t.args[1][0].op == "str":
            return t.args[1][0].args[0]
        return None

    def pw(self, x, e):
        e = e if isinstance(e, (int, Fraction)) else numval(e)
        if e is None or Fraction(e).denominator != 1:
            raise Unsure("power of " + short(x, 100))
        return ppow(self(x), int(e))

    def coords(self, ts):
        out = [self.sym(t) for t in ts]
        if None in out:
            raise Unsure("coordinates " + ", ".join(short(t, 60) for t in ts))
        return tuple(out)

    def matrix(self, t):
        """matrix of differential expressions"""
        if gcall(t, "Matrix", "ImmutableMatrix") and len(t.args[1]) == 1 and t.args[1][0].op == "coll":
            rows = t.args[1][0].args[1]
            if all(r.op == "coll" for r in rows):
                return [[self(x) for x in r.args[1]] for r in rows]
            if all(r.op not in ("for", "when", "splat", "kv") for r in rows):
                return [[self(x)] for x in rows]
        if gcall(t, "Matrix", "ImmutableMatrix") and len(t.args[1]) == 3 and t.args[1][2].op == "coll":
            r, c = [numval(y) for y in t.args[1][:2]]
            xs = t.args[1][2].args[1]
            if None not in (r, c) and len(xs) == r * c and all(x.op not in ("for", "when", "splat") for x in xs):
                r, c = int(r), int(c)
                return [[self(xs[i * c + j]) for j in range(c)] for i in range(r)]
        if t.op == "matmul":
            ms = [self.matrix(x) for x in t.args]
            if None not in ms:
                out = ms[0]
                for k in ms[1:]:
                    out = mprod(out, k)
                return out
        if t.op in ("poly", "matmulchain"):
            tot = None
            for (comm, nc), c in terms.to_poly(t).items():
                prod, scal = None, P(c)
                for f, e in [x for x in comm] + [(x, 1) for x in nc]:
                    k = self.matrix(f)
                    if k is None:
                        scal = pmul(scal, self.pw(f, e))
                    elif e != 1:
                        raise Unsure("power of a matrix")
                    else:
                        prod = k if prod is None else mprod(prod, k)
                if prod is None:
                    return None
                prod = [[pmul(scal, x) for x in r] for r in prod]
                tot = prod if tot is None else [[padd(a, b) for a, b in zip(r, s)] for r, s in zip(tot, prod)]
            return tot
        if mcall(t, "doit", "expand", "simplify", "as_immutable", "as_mutable") and not t.args[1]:
            return self.matrix(t.args[0].args[0])
        if t.op == "attr" and t.args[1] == "T":
            k = self.matrix(t.args[0])
            return k and [list(r) for r in zip(*k)]
        return None

    def length(self, t):
        n = numval(t)
        if n is not None:
            return int(n)
        if t.op == "min":
            ns = [self.length(x) for x in t.args]
            return None if None in ns else min(ns)
        if t.op == "len":
            x = t.args[0]
            if x.op == "coll" and all(p.op not in ("for", "when", "splat") for p in x.args[1]):
                return len(x.args[1])
            k = self.matrix(x)
            if k is not None:
                return sum(len(r) for r in k)
        return None

    def __call__(self, t):
        n = numval(t)
        if n is not None:
            return P(n)
        s = self.sym(t)
        if s is not None:
            return atom(("s", s))
        f = self.fields(t)
        if f is not None:
            return atom(f)
        if t.op == "grp":
            return self(t.args[0])
        if t.op == "poly":
            out = {}
            for (comm, nc), c in terms.to_poly(t).items():
                q = P(c)
                for x, e in list(comm) + [(x, 1) for x in nc]:
                    q = pmul(q, self.pw(x, e))
                out = padd(out, q)
            return out
        if t.op == "call" and gcall(t.args[0], "Function") and t.args[0].args[1][0].op == "str":
            a = self.coords(t.args[1])
            return atom(("f", t.args[0].args[1][0].args[0], a, (0,) * len(a)))
        if gcall(t, "Derivative", "diff") or mcall(t, "diff", "Derivative"):
            base, rest = (t.args[1][0], list(t.args[1][1:])) if gcall(t, "Derivative", "diff") else \
                (t.args[0].args[0], list(t.args[1]))
            p = self(base)
            last = None
            todo = []
            for r in rest:
                if r.op == "coll" and len(r.args[1]) == 2:
                    x, k = r.args[1]
                    todo += [self.coords([x])[0]] * int(numval(k))
                    last = None
                elif numval(r) is not None and last is not None:
                    todo += [last] * (int(numval(r)) - 1)
                    last = None
                else:
                    last = self.coords([r])[0]
                    todo.append(last)
            for x in todo:
                p = pdiff(p, x)
            return p
        if mcall(t, "doit", "expand", "simplify", "factor", "evalf") and not t.args[1] or gcall(t, "expand", "simplify") and len(t.args[1]) == 1:
            return self(t.args[0].args[0] if mcall(t, "doit", "expand", "simplify", "factor", "evalf") else t.args[1][0])
        if mcall(t, "subs") and not t.args[2]:
            a = t.args[1]
            if len(a) == 2:
                pairs = [a]
            elif len(a) == 1 and a[0].op == "coll" and all(k.op == "kv" for k in a[0].args[1]) and len(a[0].args[1]) == 1:
                pairs = [k.args for k in a[0].args[1]]
            else:
                raise Unsure("substitution " + short(t, 200))
            p = self(t.args[0].args[0])
            for old, new in pairs:
                o = self(old)
                if len(o) != 1 or len(list(o)[0]) != 1 or list(o.values()) != [1] or list(o)[0][0][1] != 1:
                    raise Unsure("substitution of " + short(old, 100))
                p = psubst(p, list(o)[0][0][0], self(new))
            return p
        if t.op == "sumover":
            i, body = t.args
            k = self.length(i.args[0])
            if k is None:
                raise Unsure("sum " + short(t, 200))
            return padd(*[self(subst(body, {i: num(j)})) for j in range(k)])
        if t.op == "sub":
            j = numval(t.args[1])
            x = t.args[0]
            if j is not None and x.op == "coll" and all(p.op not in ("for", "when", "splat", "kv") for p in x.args[1]):
                return self(x.args[1][int(j)])
            k = self.matrix(x)
            if k is not None:
                flat = [e for r in k for e in r]
                if j is not None:
                    return flat[int(j)]
                if t.args[1].op == "coll" and len(t.args[1].args[1]) == 2:
                    a, b = [numval(y) for y in t.args[1].args[1]]
                    if a is not None and b is not None:
                        return k[int(a)][int(b)]
        raise Unsure(short(t, 300))


def mprod(a, b):
    if len(a[0]) != len(b):
        raise Unsure("shapes of matrices")
    return [[padd(*[pmul(x, y) for x, y in zip(r, c)]) for c in zip(*b)] for r in a]


# ------------------------------------------------------------------ comparison with the reference
def reference(ref, U, coords, names):
    """differential expression of a reference for the field U and the parameters `names`"""
    env = {"U": atom(U)}
    for n, a in names.items():
        env[n] = atom(a)

    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Add):
                return padd(a, b)
            if isinstance(n.op, ast.Sub):
                return padd(a, pmul(P(-1), b))
            return pmul(a, b)
        if isinstance(n, ast.UnaryOp):
            return pmul(P(-1), ev(n.operand))
        if isinstance(n, ast.Name):
            return env[n.id]
        p = ev(n.args[0])
        for a in n.args[1:]:
            p = pdiff(p, coords[a.value])
        return p
    return ev(ast.parse(ref["rhs"], mode="eval"))


def show(p):
    def at(a):
        if a[0] == "s":
            return a[1]
        d = "".join(x * o for x, o in zip(a[2], a[3]))
        return a[1] + (f"_{d}" if d else "")
    return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + [at(a) + (f"**{k}" if k != 1 else "") for a, k in m])
                      for m, c in sorted(p.items())) or "0"


def same_equation(ref, lhs, rhs, time):
    """(verdict, detail)"""
    if len(lhs) != 1 or list(lhs.values()) != [1] or len(list(lhs)[0]) != 1 or list(lhs)[0][0][1] != 1 or list(lhs)[0][0][0][0] != "f":
        return False, f"the left-hand side is {show(lhs)}"
    a = list(lhs)[0][0][0]
    if time not in a[2] or a[3] != tuple(int(x == time) for x in a[2]):
        return False, f"the left-hand side is {show(lhs)}, no trend of a field"
    U = a[:3] + ((0,) * len(a[2]),)
    space = tuple(x for x in a[2] if x != time)
    if len(space) != ref["dim"]:
        return False, f"{len(space)} spatial coordinates instead of {ref['dim']}"
    used = {b for m in rhs for b, _ in m}
    consts = sorted({b for b in used if b[0] == "s"})
    fields = sorted({b[:3] + ((0,) * len(b[2]),) for b in used if b[0] == "f" and b[:3] != U[:3]})
    for f in fields:
        if set(f[2]) - {time} != set(space):
            return False, f"coefficient {f[1]} does not depend on the coordinates {space}"
        if time in f[2]:
            return False, f"coefficient {f[1]} depends on time: it would be an unknown of the system"
    if len(consts) != len(ref["const"]) or len(fields) != len(ref["fields"]):
        return False, f"{show(lhs)} = {show(rhs)}"
    # components (u, v, w or k11, k12, k22) are in the order of their names and of the coordinates
    for cp in itertools.permutations(consts):
        names = dict(zip(ref["const"], cp))
        names.update(zip(ref["fields"], fields))
        if reference(ref, U, space, names) == rhs:
            return True, f"{show(lhs)} = {show(rhs)}"
    return False, f"{show(lhs)} = {show(rhs)}"


# ------------------------------------------------------------------ reading of the modules
def namespace(ctx, m, body, names, opaque=()):
    """values of names at the end of a sequence of statements"""
    f = ast.parse("def statements(): pass").body[0]
    r = ast.parse("def f():\n return (%s,)" % ", ".join(names)).body[0].body[0]
    f.body = [s for s in body if not isinstance(s, (ast.Import, ast.ImportFrom))
              and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] + [r]
    ast.fix_missing_locations(f)
    I = ctx.interp(opaque=set(opaque))
    v, s = I.run_function(ix.FuncInfo(f, m), {})
    v = I.fz(v, s)
    ctx.visited |= I.visited
    if v.op != "coll" or len(v.args[1]) != len(names):
        raise Unsure("values of the module: " + short(v, 200))
    return dict(zip(names, v.args[1])), I, s


def bound(body):
    return {x.id for s in body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) for x in ast.walk(s)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def equations(v):
    """equations of a system / of an equation"""
    if gcall(v, "PDESystem") or v.op == "obj" and v.args[0].endswith("PDESystem"):
        a = v.args[1]
        if len(a) == 1 and a[0].op == "coll":
            a = a[0].args[1]
        return [e for x in a for e in equations(x)]
    if gcall(v, "Eq", "Equality") or v.op == "obj" and v.args[0].endswith(".Eq"):
        return [v]
    if v.op == "coll":
        return [e for x in v.args[1] for e in equations(x)]
    raise Unsure(short(v, 200))


def equation(rep, rule, name, where, v, ref, conv=None):
    conv = conv or Conv()
    try:
        es = equations(v)
        if len(es) != 1:
            rep.check(rule, name, where, False, f"{len(es)} equations")
            return
        lhs, rhs = [conv(x) for x in es[0].args[1]]
        ok, why = same_equation(ref, lhs, rhs, "t")
        rep.check(rule, name, where, ok, why)
    except Unsure as e:
        rep.unsure(rule, name, where, str(e))


def run(ctx, rep, tier):
    rep.rule("equation", "a predefined dynamics is the equation of its name, up to the names of its fields, coefficients and coordinates", len(REF) + 1)
    rep.rule("closure", "the ready-made Burgers system is closed with P18 in the variable of the system that is run", 3)
    rep.rule("model", "the ready-made Burgers model is generated from the closed system", 1)
    m = next((m for n, m in ctx.pkg.modules.items() if n.endswith("symbolic.dynamics")), None)
    if m is None:
        raise AnalysisBroken("module of the predefined dynamics not found")
    names = sorted(n for n in REF if n in bound(m.tree.body))
    try:
        env, _, _ = namespace(ctx, m, m.tree.body, names)
    except Unsure as e:
        raise AnalysisBroken(str(e))
    for n in names:
        line = next((s.lineno for s in m.tree.body if n in bound([s])), 1)
        equation(rep, "equation", n, f"{m.rel}:{line}", env[n], REF[n])
    burgers(ctx, rep)


def burgers(ctx, rep):
    k = ctx.cls("Burgers")
    m = k.module
    body = k.node.body
    names = sorted({"dynamics", "pkf", "p18_closure", "closed_pkf"} & bound(body))
    opaque = {"SymbolicPKF", "set_closure", "unclosed_terms", "fields", "FDModelBuilder"}
    env, I, s = namespace(ctx, m, body, names, opaque)
    where = f"{m.rel}:{k.node.lineno}"
    equation(rep, "equation", "Burgers", where, env.get("dynamics", mk("missing")), REF["burgers"])

    def field(t):
        """component of a statistic of the field: pkf.fields[u].metric[0]"""
        if t.op == "sub" and numval(t.args[1]) == 0:
            t = t.args[0]
            if t.op == "attr" and t.args[1] in ("metric", "aspect", "diffusion"):
                f = t.args[0]
                if f.op == "sub" and f.args[0].op == "attr" and f.args[0].args[1] == "fields" and gcall(f.args[0].args[0], "SymbolicPKF"):
                    a = Conv()(f.args[1])
                    (mono, c), = a.items()
                    u = mono[0][0]
                    return ("f", t.args[1], u[2], u[3])
    conv = Conv(field)
    try:
        (mono, c), = Conv()(equations(env["dynamics"])[0].args[1][0]).items()
        u = mono[0][0]
    except (Unsure, ValueError, KeyError, IndexError) as e:
        rep.unsure("closure", "field", where, str(e))
        return
    args, zero = u[2], (0,) * len(u[2])
    x = next(y for y in args if y != "t")
    g = atom(("f", "metric", args, zero))
    want = padd(pmul(P(3), ppow(g, 2)), pmul(P(-2), pdiff(pdiff(g, x), x)))
    inv = {"metric": want,
           "aspect": psubst(want, list(g)[0][0][0], ppow(atom(("f", "aspect", args, zero)), -1)),
           }
    d = env.get("p18_closure")
    entries = {kv.args[0].args[0]: kv.args[1] for kv in d.args[1] if kv.op == "kv" and kv.args[0].op == "str"} \
        if d is not None and d.op == "coll" else {}
    for n, w in inv.items():
        if n not in entries:
            rep.unsure("closure", n, where, "entry not found")
            continue
        try:
            got = conv(entries[n])
            rep.check("closure", n, where, got == w, f"{show(got)}" + ("" if got == w else f" instead of {show(w)}"))
        except Unsure as e:
            rep.unsure("closure", n, where, str(e))
    # what is given to set_closure
    calls_ = [e for e in I.effects if e.kind == "call" and mcall(e.target, "set_closure")]
    if len(calls_) != 1:
        rep.unsure("closure", "used", where, f"{len(calls_)} closures are set")
    else:
        e = calls_[0]
        a = e.target.args[1]
        ok = None
        why = short(e.target, 300)
        if len(a) == 1 and a[0].op == "coll" and len(a[0].args[1]) == 1 and a[0].args[1][0].op == "kv":
            key, val = a[0].args[1][0].args
            unclosed = [y for y in walk(key) if y.op == "attr" and y.args[1] == "unclosed_terms"]
            try:
                got = conv(val)
                ok = bool(unclosed) and got == inv["aspect"]
                why = f"{show(got)} for {short(key, 100)}"
            except Unsure as ex:
                why = str(ex)
        rep.check("closure", "used", e.where, ok, why) if ok is not None else rep.unsure("closure", "used", e.where, why)
    # closed system, aspect form
    f = ctx.pkg.find_method(k, "__init__")
    hits, scope = [], None
    for g in k.methods.values() if isinstance(k.methods, dict) else k.methods:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "FDModelBuilder" and n.args:
                hits.append(n)
                scope = g.node
    recv = [c.func.value.id for s_ in body for c in ast.walk(s_) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
            and c.func.attr == "set_closure" and isinstance(c.func.value, ast.Name)]
    if len(hits) != 1 or len(recv) != 1:
        rep.unsure("model", "system", f.where, "generation of the model not found")
        return
    arg = hits[0].args[0]
    for n in ast.walk(scope):
        if isinstance(arg, ast.Name) and isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == arg.id:
            arg = n.value
    txt = ast.unparse(arg)
    if isinstance(arg, ast.Attribute) and isinstance(arg.value, ast.Attribute):
        rep.check("model", "system", f"{m.rel}:{arg.lineno}", arg.attr == "in_aspect" and arg.value.attr == recv[0], txt)
    else:
        rep.unsure("model", "system", f"{m.rel}:{arg.lineno}", txt)
    # number of grid points asked for
    par = [a.arg for a in f.node.args.args[1:]]
    stored = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for n in ast.walk(f.node):
        for kw in n.keywords if isinstance(n, ast.Call) else ():
            if kw.arg == "shape" and par and par[0] not in stored:
                v = kw.value
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == 1:
                    x = v.elts[0]
                    ok = True if isinstance(x, ast.Name) and x.id == par[0] else False if isinstance(x, ast.Constant) else None
                    if ok is None and par[0] in {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}:
                        ok = False if isinstance(x, ast.BinOp) else None
                    if ok is not None:
                        rep.check("model", "grid", f"{m.rel}:{n.lineno}", ok, f"{ast.unparse(kw)} for {par[0]} points")
