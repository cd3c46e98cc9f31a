"""Skeletons of the generated models: the templates of a builder filled with placeholder names, read as a module of the package."""
import itertools
from .base import *
from engine.index import ModuleInfo

KINDS = {"fd": "FDModelBuilder", "manifold": "ManifoldModelBuilder"}


def template_texts(ctx, builder):
    """texts of the templates of a builder, in order"""
    c = ctx.cls(builder)
    if ctx.pkg.find_method(c, "templates") is None:
        raise AnalysisBroken(f"{builder}.templates not found")
    I, v, s = ctx.run_method(builder, "templates")
    v = I.fz(v, s)
    out = []
    if v.op == "coll":
        for p, gs, ixs in parts_flat(v.args[1]):
            if p.op == "str" and not gs and not ixs:
                out.append(p.args[0])
            else:
                raise AnalysisBroken(f"{builder}.templates: {short(p)} is not a constant text")
    if not out:
        raise AnalysisBroken(f"{builder}.templates: {short(v)}")
    return out


def properties(ctx, builder):
    c = ctx.cls(builder)
    return {n for k in ctx.pkg.mro(c) for n, f in k.methods.items() if f.is_property}


def render_context(ctx, builder):
    """(variables of the templates: name -> term, where, problems)"""
    c = ctx.cls(builder)
    f = ctx.method(builder, "_render")
    I, v, s = ctx.run_method(builder, "_render", opaque=properties(ctx, builder))
    calls_ = []
    for e in I.effects:
        if e.kind == "call":
            t = e.target
            t = t if isinstance(t, T) else None
    seen = []
    for x in all_terms(I, s):
        if mcall(x, "render"):
            seen.append(x)
    return f, seen, s, I


def all_terms(I, s):
    roots = []

    def add_(x):
        if isinstance(x, T):
            roots.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                add_(y)
        elif isinstance(x, dict):
            for y in x.values():
                add_(y)
    for e in I.effects:
        add_((e.target, e.key, e.value, e.extra))
    for v in s.attrs.values():
        add_(I.fz(v, s))
    for v in s.heap.values():
        add_(v)
    seen = set()
    for r in roots:
        for x in TT.walk(r):
            if x not in seen:
                seen.add(x)
                yield x


class Meta(dict):
    """placeholder object of the templates"""
    __getattr__ = dict.get


def placeholders(nc=2, np_=2, nx=2, ncf=2, nk=2, nd=2, flags=(1, 1, 1)):
    """values of the template variables for a shape; every text is a placeholder identifier"""
    ex, cf, ks = flags

    def fn(tag, n):
        return [Meta(as_keyvar=f"{tag}{i}", as_str=f"{tag}{i}_str", index=i, trend=f"trend_{tag}{i}", as_symbolic=f"{tag}{i}_sym")
                for i in range(n)]
    pro, exo, cfs = fn("prog", np_), fn("exog", nx if ex else 0), fn("cfun", ncf if cf else 0)
    con = [Meta(as_keyvar=f"con{i}", as_str=f"con{i}_str", as_symbolic="") for i in range(nk if ks else 0)]
    coo = [Meta(as_keyvar=f"co{i}", as_str=f"co{i}_str", index=i, as_symbolic="") for i in range(nc)]
    names = [m["as_keyvar"] for m in pro + exo + cfs]
    der = [Meta(as_keyvar=f"Dder{i}", as_str=f"Dder{i}_str", order=1, as_symbolic="", as_code=f"code{i}({', '.join(names)})",
                as_partial_orders=f"'co{i % max(nc, 1)}',1", function=pro[0] if pro else None) for i in range(nd)]
    rhs = [m["as_keyvar"] for m in pro + exo + cfs + con + der]
    lines = [f"{m['trend']}[:] = rhs{i}({', '.join(rhs)})" for i, m in enumerate(pro)]
    return {"prognostic_functions": pro, "exogenous_functions": exo, "constant_functions": cfs, "constants": con, "coordinates": coo,
            "spatial_derivatives": der, "trend_code": lines, "class_name": "GeneratedModel",
            "exogenous_functions_flag": bool(exo), "constant_functions_flag": bool(cfs), "constants_flag": bool(con)}


class Fill:
    """evaluator of the syntax tree of a template"""

    def __init__(self, values):
        self.values = values
        self.used = set()
        self.attrs = set()
        self.undefined = set()

    def run(self, text):
        import jinja2
        tree = jinja2.Environment().parse(text)
        return self.body(tree.body, dict(self.values))

    def body(self, nodes_, env):
        return "".join(self.node(n, env) for n in nodes_)

    def node(self, n, env):
        k = type(n).__name__
        if k == "Output":
            return "".join(x.data if type(x).__name__ == "TemplateData" else str(self.expr(x, env)) for x in n.nodes)
        if k == "For":
            out = []
            it = self.expr(n.iter, env)
            if not isinstance(it, (list, tuple, range)):
                raise AnalysisBroken(f"template: loop over {it!r}")
            its = list(it)
            for i, x in enumerate(its):
                e = dict(env)
                if type(n.target).__name__ == "Name":
                    e[n.target.name] = x
                else:
                    for t, y in zip(n.target.items, x):
                        e[t.name] = y
                e["loop"] = Meta(index0=i, index=i + 1, first=i == 0, last=i == len(its) - 1, length=len(its))
                if n.test is not None and not self.expr(n.test, e):
                    continue
                out.append(self.body(n.body, e))
            if not its:
                out.append(self.body(n.else_, env))
            return "".join(out)
        if k == "If":
            if self.expr(n.test, env):
                return self.body(n.body, env)
            for e in n.elif_:
                if self.expr(e.test, env):
                    return self.body(e.body, env)
            return self.body(n.else_, env)
        if k == "Assign":
            env[n.target.name] = self.expr(n.node, env)
            return ""
        raise AnalysisBroken(f"template: construct {k}")

    def expr(self, n, env):
        k = type(n).__name__
        if k == "Name":
            if n.name in self.values:
                self.used.add(n.name)
            if n.name not in env:
                self.undefined.add(n.name)
                return ""
            return env[n.name]
        if k == "Getattr":
            o = self.expr(n.node, env)
            if isinstance(o, dict):
                if n.attr not in o:
                    self.undefined.add(n.attr)
                    return ""
                self.attrs.add(n.attr)
                return o[n.attr]
            raise AnalysisBroken(f"template: attribute {n.attr}")
        if k == "Const":
            return n.value
        if k == "Not":
            return not self.expr(n.node, env)
        if k == "And":
            return self.expr(n.left, env) and self.expr(n.right, env)
        if k == "Or":
            return self.expr(n.left, env) or self.expr(n.right, env)
        if k in ("Add", "Sub", "Mul"):
            a, b = self.expr(n.left, env), self.expr(n.right, env)
            return a + b if k == "Add" else a - b if k == "Sub" else a * b
        if k == "Concat":
            return "".join(str(self.expr(x, env)) for x in n.nodes)
        if k == "Filter":
            o = self.expr(n.node, env)
            if n.name == "length":
                return len(o)
            if n.name in ("list", "string", "safe"):
                return list(o) if n.name == "list" else o
            if n.name == "count":
                return len(o)
            if n.name in ("trim", "lower", "upper") and isinstance(o, str) and not n.args:
                return getattr(o, {"trim": "strip"}.get(n.name, n.name))()
            if n.name == "join":
                return (self.expr(n.args[0], env) if n.args else "").join(str(x) for x in o)
            if n.name == "reverse":
                return list(o)[::-1]
            if n.name == "first":
                return o[0]
            if n.name == "last":
                return o[-1]
            if n.name == "sort":
                return ("sorted", o)
        if k == "Compare":
            a = self.expr(n.expr, env)
            for op in n.ops:
                b = self.expr(op.expr, env)
                r = {"eq": a == b, "ne": a != b}.get(op.op)
                if r is None:
                    r = {"gt": lambda: a > b, "lt": lambda: a < b, "gteq": lambda: a >= b, "lteq": lambda: a <= b}[op.op]()
                if not r:
                    return False
                a = b
            return True
        if k == "Slice":
            return slice(*[None if x is None else self.expr(x, env) for x in (n.start, n.stop, n.step)])
        if k == "Neg":
            return -self.expr(n.node, env)
        if k == "Pos":
            return self.expr(n.node, env)
        if k == "CondExpr":
            return self.expr(n.expr1, env) if self.expr(n.test, env) else self.expr(n.expr2, env) if n.expr2 is not None else ""
        if k in ("List", "Tuple"):
            return [self.expr(x, env) for x in n.items]
        if k == "Call" and type(n.node).__name__ == "Name" and n.node.name == "range" and "range" not in env:
            return list(range(*[self.expr(x, env) for x in n.args]))
        if k == "Getitem":
            o, i = self.expr(n.node, env), self.expr(n.arg, env)
            if isinstance(o, dict) and i not in o:
                self.undefined.add(str(i))
                return ""
            if isinstance(o, dict):
                self.attrs.add(i)
            try:
                return o[i]
            except (IndexError, TypeError):
                self.undefined.add(f"item {i}")
                return ""
        raise AnalysisBroken(f"template: expression {k}")


def skeleton(ctx, kind, tag, probes="", **shape):
    """(module name, source, Fill) of the model a builder generates for a shape; the module is added to the package"""
    texts = template_texts(ctx, KINDS[kind])
    fill = Fill(placeholders(**shape))
    src = "".join(fill.run(t) for t in texts) + probes
    name = f"generated_{kind}_{tag}"
    try:
        m = ModuleInfo(name, f"<{name}>", f"<generated {kind} model {tag}>", False, src)
    except SyntaxError as e:
        return name, src, fill, e
    ctx.pkg.modules[name] = m
    return name, src, fill, None
