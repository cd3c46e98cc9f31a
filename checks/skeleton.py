"""Source skeleton of the generated models: symbolic expansion of the templates (parsed, never rendered) with
placeholder identifiers for the substituted values; the skeletons are then analysed as source."""
import itertools
import jinja2
from jinja2 import nodes as J
from .base import *
from engine.index import ModuleInfo

OPAQUE = {"trend_code", "functions", "prognostic_functions", "exogenous_functions", "spatial_coordinates", "constants",
          "constant_functions", "spatial_derivatives", "pseudo_algebraic_system"}
BUILDERS = ("FDModelBuilder", "ManifoldModelBuilder")


class SkeletonError(Exception):
    pass


def segments(ctx, cname):
    """(template source, {variable: term}) in the order of the generated code"""
    I, v, s = ctx.run_method(cname, "code", opaque=OPAQUE)
    me = mk("self", ctx.cls(cname).qual)
    leaves = [x for x, g in phi_leaves(v) if not (x.op == "attr")]
    if len(leaves) != 1:
        raise AnalysisBroken(f"{cname}.code: form not understood: {short(v)}")
    v = leaves[0]
    out = []

    def rec(x):
        if x.op == "cat":
            for y in x.args:
                rec(y)
        elif x.op == "tostr":
            rec(x.args[0])
        elif x.op == "str":
            if x.args[0].strip():
                out.append((x.args[0], {}))
        elif x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "render":
            tpl = x.args[0].args[0]
            if tpl.op == "call" and tpl.args[0].op in ("global", "attr") and len(tpl.args[1]) >= 1 and \
                    tpl.args[1][0].op == "str":
                env = {}
                for a in x.args[1]:
                    if a.op == "coll" and a.args[0] == "dict":
                        for p in a.args[1]:
                            if p.op == "kv" and p.args[0].op == "str":
                                env[p.args[0].args[0]] = p.args[1]
                            else:
                                raise AnalysisBroken("render: context not understood")
                    else:
                        raise AnalysisBroken("render: context not understood")
                for k, a in x.args[2]:
                    if k is None or k.startswith("*"):
                        if a.op == "coll":
                            for p in a.args[1]:
                                env[p.args[0].args[0]] = p.args[1]
                            continue
                        raise AnalysisBroken("render: context not understood")
                    env[k] = a
                out.append((tpl.args[1][0].args[0], env, dict(tpl.args[2])))
            else:
                raise AnalysisBroken(f"template not understood: {short(tpl)}")
        elif x.op == "call" and gcall(x, "join") or mcall(x, "join"):
            raise AnalysisBroken(f"{cname}.code: form not understood: {short(x)}")
        else:
            raise AnalysisBroken(f"{cname}.code: form not understood: {short(x)}")
    rec(v)
    return [(o[0], o[1], o[2] if len(o) > 2 else {}) for o in out]


def flag_list(t):
    """list whose non emptiness a condition tests"""
    if t.op == "truth":
        return t.args[0]
    if t.op in ("lt", "le") and t.args[0] is num(0) and t.args[1].op == "len":
        return t.args[1].args[0]
    if t.op == "not" and t.args[0].op == "eq":
        for a, b in (t.args[0].args, t.args[0].args[::-1]):
            if b.op == "len" and a is num(0):
                return b.args[0]
            if b.op == "coll" and not b.args[1]:
                return a
    if t.op == "attr":
        return t
    return None


def trend_lookup(x):
    """name of the list of functions in which the trend variable of an equation is looked up"""
    while x.op == "tostr":
        x = x.args[0]
    if x.op not in ("sub", "dictget") or x.args[0].op != "coll":
        return None
    lv = list(parts_flat(x.args[0].args[1]))
    if len(lv) != 1 or lv[0][0].op != "kv":
        return None
    v = lv[0][0].args[1]
    if v.op == "attr" and v.args[1] == "trend" and v.args[0].op == "sub" and v.args[0].args[0].op == "attr":
        return v.args[0].args[0].args[1]
    return None


def line_terms(ctx, cname):
    """{list: term of the code line} for the lists of code lines"""
    I, v, s = ctx.run_method(cname, "trend_code", opaque=OPAQUE - {"trend_code"})
    for x, g in phi_leaves(v):
        if x.op == "coll":
            lv = list(parts_flat(x.args[1]))
            if len(lv) == 1 and not lv[0][1] and len(lv[0][2]) == 1:
                return {"trend_code": lv[0][0]}, lv[0][2][0]
    return {}, None


class Skeleton:
    """one expansion: which lists are empty"""

    def __init__(self, segs, empty=(), size=2, lines=None):
        self.segs, self.empty, self.size = segs, set(empty), size
        self.lines = lines or {}      # {list: term of its elements (text of a statement)}
        self.ph = {}        # placeholder -> (list name, k, attribute) or ("var", name)
        self.back = {}
        self.tests = []     # (list, branch)
        self.unbound = []
        self.uses = []
        self.text = "".join(self.expand(*s) for s in segs)

    def name_of(self, key):
        if key not in self.back:
            n = f"ph{len(self.back)}_" + "_".join(str(k) for k in key if isinstance(k, (str, int))).replace(" ", "")
            n = "".join(c if c.isalnum() or c == "_" else "_" for c in n)
            self.back[key] = n
            self.ph[n] = key
        return self.back[key]

    def expand(self, src, env, opts):
        if not env and "{{" not in src and "{%" not in src:
            return src
        kw = {k: True for k in ("trim_blocks", "lstrip_blocks", "keep_trailing_newline") if opts.get(k) is TRUE}
        tree = jinja2.Environment(**kw).parse(src)
        out = []
        self.body(tree.body, {k: ("term", v, k) for k, v in env.items()}, out)
        return "".join(out)

    def line(self, l, k):
        """text of the k-th element of a list of code lines, from the term which builds it"""
        out = []

        def rec(x):
            if x.op == "cat":
                for y in x.args:
                    rec(y)
            elif x.op == "str":
                out.append(x.args[0])
            else:
                n = trend_lookup(x)
                if n is not None:
                    self.uses.append((n, "trend"))
                    out.append(self.name_of((n, k, "trend")))
                else:
                    out.append(self.name_of((l, k, f"part{len(out)}")))
        rec(self.lines[l])
        return "".join(out)

    def lname(self, t):
        return t.args[1] if t.op == "attr" else short(t, 40)

    def expr(self, n, env):
        if isinstance(n, J.Name):
            if n.name not in env:
                self.unbound.append(n.name)
                return ("unbound", n.name)
            return env[n.name]
        if isinstance(n, J.Getattr) or (isinstance(n, J.Getitem) and isinstance(n.arg, J.Const) and isinstance(n.arg.value, str)):
            o = self.expr(n.node, env)
            a = n.attr if isinstance(n, J.Getattr) else n.arg.value
            if o[0] == "loop":
                if a in ("index0", "index", "first", "last", "length"):
                    k = o[1]
                    return ("const", {"index0": k, "index": k + 1, "first": k == 0, "last": k == self.size - 1,
                                      "length": self.size}[a])
                raise SkeletonError(f"loop.{a}")
            return ("attr", o, a)
        if isinstance(n, J.Const):
            return ("const", n.value)
        if isinstance(n, J.TemplateData):
            return ("const", n.data)
        if isinstance(n, J.Not):
            v = self.truth(self.expr(n.node, env))
            return ("const", not v)
        if isinstance(n, J.And):
            return ("const", self.truth(self.expr(n.left, env)) and self.truth(self.expr(n.right, env)))
        if isinstance(n, J.Or):
            return ("const", self.truth(self.expr(n.left, env)) or self.truth(self.expr(n.right, env)))
        if isinstance(n, J.Filter) and n.name in ("safe", "string", "trim") and n.node is not None:
            return self.expr(n.node, env)
        if isinstance(n, J.Filter) and n.name in ("length", "count"):
            o = self.expr(n.node, env)
            if o[0] == "term":
                return ("const", 0 if o[1] in self.empty else self.size)
        if isinstance(n, J.Filter) and n.name == "sort":
            return self.expr(n.node, env)
        if isinstance(n, J.Filter) and n.name in ("reverse", "list", "first", "last") and not n.args:
            o = self.items(self.expr(n.node, env))
            if o is not None:
                return ("list", o[::-1] if n.name == "reverse" else o) if n.name in ("reverse", "list") else \
                    (o or [("unbound", n.name)])[0 if n.name == "first" else -1]
        if isinstance(n, J.Getitem):
            o = self.items(self.expr(n.node, env))
            if o is not None and isinstance(n.arg, J.Slice):
                k = [None if x is None else self.expr(x, env) for x in (n.arg.start, n.arg.stop, n.arg.step)]
                if all(x is None or x[0] == "const" for x in k):
                    return ("list", o[slice(*[None if x is None else x[1] for x in k])])
            elif o is not None:
                k = self.expr(n.arg, env)
                if k[0] == "const" and isinstance(k[1], int):
                    return o[k[1]] if -len(o) <= k[1] < len(o) else ("unbound", str(k[1]))
        if isinstance(n, J.Neg):
            o = self.expr(n.node, env)
            if o[0] == "const":
                return ("const", -o[1])
        if isinstance(n, J.CondExpr):
            return self.expr(n.expr1, env) if self.truth(self.expr(n.test, env)) else \
                self.expr(n.expr2, env) if n.expr2 is not None else ("const", "")
        if isinstance(n, (J.Add, J.Sub)):
            a, b = self.expr(n.left, env), self.expr(n.right, env)
            if a[0] == b[0] == "const":
                return ("const", a[1] + b[1] if isinstance(n, J.Add) else a[1] - b[1])
        if isinstance(n, J.Compare) and len(n.ops) == 1:
            a, b = self.expr(n.expr, env), self.expr(n.ops[0].expr, env)
            if a[0] == b[0] == "const":
                op = n.ops[0].op
                import operator
                return ("const", {"eq": operator.eq, "ne": operator.ne, "gt": operator.gt, "lt": operator.lt,
                                  "gteq": operator.ge, "lteq": operator.le}[op](a[1], b[1]))
        raise SkeletonError(f"template expression {n!r}"[:200])

    def items(self, o):
        """elements of a list, None when they are not known"""
        if o[0] == "list":
            return o[1]
        if o[0] == "term" and o[1].op not in ("str", "num", "bool"):
            return [] if o[1] in self.empty else [("elem", o[1], k) for k in range(self.size)]

    def truth(self, v):
        if v[0] == "const":
            return bool(v[1])
        if v[0] == "list":
            return bool(v[1])
        if v[0] == "term":
            t = v[1]
            neg_ = False
            while t.op == "not":
                t, neg_ = t.args[0], not neg_
            l = flag_list(t)
            if l is None and t.op == "truth":
                l = t.args[0]
            if l is not None:
                self.tests.append(l)
                return (l not in self.empty) != neg_
            if t is TRUE or t is FALSE:
                return (t is TRUE) != neg_
        if v[0] == "unbound":
            return False
        raise SkeletonError(f"template test {v!r}"[:200])

    def text_of(self, v):
        if v[0] == "const":
            return str(v[1])
        if v[0] == "unbound":
            return ""
        if v[0] == "attr":
            path = []
            o = v
            while o[0] == "attr":
                path.append(o[2])
                o = o[1]
            a = ".".join(path[::-1])
            if o[0] == "elem":
                self.uses.append((self.lname(o[1]), a))
                if a == "index":
                    return str(o[2])
                return self.name_of((self.lname(o[1]), o[2], a))
            return self.name_of(("var", o[2] if len(o) > 2 else "?", a))
        if v[0] == "elem":
            self.uses.append((self.lname(v[1]), ""))
            l = self.lname(v[1])
            if l in self.lines:
                return self.line(l, v[2])
            return self.name_of((l, v[2], ""))
        if v[0] == "term":
            if v[1].op == "str":
                return v[1].args[0]
            return self.name_of(("var", v[2]))
        raise SkeletonError(str(v)[:100])

    def body(self, ns, env, out):
        for n in ns:
            if isinstance(n, J.Output):
                for x in n.nodes:
                    if isinstance(x, J.TemplateData):
                        out.append(x.data)
                    else:
                        out.append(self.text_of(self.expr(x, env)))
            elif isinstance(n, J.For):
                it = self.expr(n.iter, env)
                if it[0] == "unbound":
                    items = []
                elif it[0] == "list":
                    items = it[1]
                elif it[0] == "term":
                    items = [] if it[1] in self.empty else [("elem", it[1], k) for k in range(self.size)]
                else:
                    raise SkeletonError(f"loop over {it[0]}")
                for k, e in enumerate(items):
                    e2 = dict(env)
                    if isinstance(n.target, J.Name):
                        e2[n.target.name] = e
                    else:
                        raise SkeletonError("loop target")
                    e2["loop"] = ("loop", k)
                    if n.test is not None:
                        raise SkeletonError("filtered loop")
                    self.body(n.body, e2, out)
                if not items:
                    self.body(n.else_, env, out)
            elif isinstance(n, J.If):
                if self.truth(self.expr(n.test, env)):
                    self.body(n.body, env, out)
                else:
                    for e in n.elif_:
                        if self.truth(self.expr(e.test, env)):
                            self.body(e.body, env, out)
                            break
                    else:
                        self.body(n.else_, env, out)
            elif isinstance(n, J.Assign) and isinstance(n.target, J.Name):
                env[n.target.name] = self.expr(n.node, env)
            else:
                raise SkeletonError(f"template statement {type(n).__name__}")


def variants(ctx, cname):
    """skeletons for every combination of empty / non empty optional lists: [(label, Skeleton)]"""
    segs = segments(ctx, cname)
    lines, _ = line_terms(ctx, cname)
    lists = []
    for src, env, opts in segs:
        for v in env.values():
            l = flag_list(v) if v.op != "attr" else None
            if l is not None and l not in lists:
                lists.append(l)
    full = Skeleton(segs, lines=lines)
    for l in full.tests:
        if l not in lists:
            lists.append(l)
    out = []
    for r in range(len(lists) + 1):
        for e in itertools.combinations(lists, r):
            sk = Skeleton(segs, e, lines=lines)
            out.append(("without " + ", ".join(sk.lname(x) for x in e) if e else "full", sk))
    return out


def module_of(ctx, cname, label, sk):
    name = f"generated_{cname}_{len([m for m in ctx.pkg.modules if m.startswith('generated_')])}"
    m = ModuleInfo(name, f"<generated by {cname}>", f"<model generated by {cname}, {label}>", False, sk.text)
    ctx.pkg.modules[name] = m
    return m
