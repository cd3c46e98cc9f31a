"""One-shot iterators (generators, map, zip, ...): where they are made, how many times a path reads them."""
import ast
from engine.index import walk_scope

MAKERS = {"map", "filter", "zip", "iter", "reversed", "enumerate"}
MANY = 99


def is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(fn.body))


def makes(expr, pkg, module, cls, local=()):
    """does the expression build a one-shot iterator"""
    if isinstance(expr, ast.GeneratorExp):
        return True
    if isinstance(expr, ast.IfExp):
        return makes(expr.body, pkg, module, cls, local) or makes(expr.orelse, pkg, module, cls, local)
    if isinstance(expr, ast.NamedExpr):
        return makes(expr.value, pkg, module, cls, local)
    if isinstance(expr, ast.Name):
        return expr.id in local
    if isinstance(expr, ast.Call):
        f = expr.func
        if isinstance(f, ast.Name):
            if f.id in MAKERS and pkg.resolve(module.name, f.id) is None:
                return True
            r = pkg.resolve(module.name, f.id)
            return bool(r) and r[0] == "func" and is_generator(r[1].node)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and cls is not None:
                g = pkg.find_method(cls, f.attr)
                return g is not None and not g.is_property and is_generator(g.node)
            if isinstance(f.value, ast.Name):
                r = pkg.resolve(module.name, f.value.id)
                if r and r[0] == "class":
                    g = pkg.find_method(r[1], f.attr)
                    return g is not None and is_generator(g.node)
    if isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name) and expr.value.id == "self" and cls is not None:
        g = pkg.find_method(cls, expr.attr)
        return g is not None and g.is_property and returns_oneshot(g, pkg)
    return False


def returns_oneshot(g, pkg, seen=()):
    if g.qual in seen:
        return False
    if is_generator(g.node):
        return True
    loc = locals_of(g, pkg)
    return any(isinstance(n, ast.Return) and n.value is not None and makes(n.value, pkg, g.module, None, loc)
               for n in walk_scope(g.node.body))


def locals_of(fi, pkg):
    """local names only ever bound to one-shot iterators"""
    bound, other = {}, set()
    for n in walk_scope(fi.node.body):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and getattr(n, "value", None) is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name):
                    if makes(n.value, pkg, fi.module, fi.cls, ()):
                        bound.setdefault(t.id, n)
                    else:
                        other.add(t.id)
                else:
                    other |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(n, (ast.For, ast.comprehension)):
            other |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            other.add(n.target.id)
    return {k: v for k, v in bound.items() if k not in other}


def reads(expr, name, loop=False):
    """number of times an expression reads the elements of the iterator"""
    n = 0
    if expr is None:
        return 0
    if isinstance(expr, ast.Name):
        return 1 if expr.id == name and isinstance(expr.ctx, ast.Load) else 0
    if isinstance(expr, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in expr.ops):
        return 0
    if isinstance(expr, ast.Call):
        f = expr.func
        if isinstance(f, ast.Name) and f.id in ("isinstance", "hasattr", "type", "id", "next", "callable"):
            return 0
        return sum(reads(a, name) for a in [f] + [x.value if isinstance(x, ast.Starred) else x for x in expr.args] +
                   [k.value for k in expr.keywords])
    if isinstance(expr, ast.IfExp):
        return reads(expr.test, name) + max(reads(expr.body, name), reads(expr.orelse, name))
    if isinstance(expr, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        tot = reads(expr.generators[0].iter, name)
        inner = [c for g in expr.generators for c in g.ifs] + [g.iter for g in expr.generators[1:]]
        inner += [expr.key, expr.value] if isinstance(expr, ast.DictComp) else [expr.elt]
        bound = {x.id for g in expr.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if name not in bound and any(reads(x, name) for x in inner):
            return MANY
        return tot
    if isinstance(expr, ast.Lambda):
        return MANY if reads(expr.body, name) else 0
    for c in ast.iter_child_nodes(expr):
        if isinstance(c, ast.expr):
            n += reads(c, name)
        elif isinstance(c, ast.keyword):
            n += reads(c.value, name)
    return n


class Counter:
    """most reads on a path while the name is still bound to the iterator"""

    def __init__(self, name):
        self.name, self.worst, self.line = name, 0, None

    def see(self, states, expr):
        k = reads(expr, self.name)
        if not k:
            return states
        out = set()
        for n, alive in states:
            if alive:
                n = min(MANY, n + k)
                if n > self.worst:
                    self.worst, self.line = n, expr.lineno
            out.add((n, alive))
        return out

    def block(self, body, states):
        for s in body:
            states = self.stmt(s, states)
            if not states:
                break
        return states

    def stmt(self, s, states):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                states = self.see(states, s.value)
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                if isinstance(t, ast.Name):
                    if t.id == self.name:
                        states = {(n, False) for n, a in states}
                else:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Subscript):
                            states = self.see(states, x.slice)
            return states
        if isinstance(s, ast.If):
            states = self.see(states, s.test)
            return self.block(s.body, set(states)) | self.block(s.orelse, set(states))
        if isinstance(s, (ast.For, ast.While)):
            states = self.see(states, s.iter if isinstance(s, ast.For) else s.test)
            a = self.block(s.body, set(states))
            a |= self.block(s.body, set(a))          # a second turn
            return self.block(s.orelse, states | a) if s.orelse else states | a
        if isinstance(s, ast.Try):
            out = self.block(s.body, set(states))
            for h in s.handlers:
                out |= self.block(h.body, set(states) | out)
            out = self.block(s.orelse, out) if s.orelse else out
            return self.block(s.finalbody, out) if s.finalbody else out
        if isinstance(s, ast.With):
            for i in s.items:
                states = self.see(states, i.context_expr)
            return self.block(s.body, states)
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.see(states, x)
            return set()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return states
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                states = self.see(states, x)
        return states


def count(body, name):
    c = Counter(name)
    c.block(body, {(0, True)})
    return c.worst, c.line


def after(fn, node):
    """statements of the function, starting after the one binding the iterator (same block), enclosing blocks kept"""
    def find(body):
        for k, s in enumerate(body):
            if s is node or any(x is node for x in ast.walk(s)):
                if s is node or isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr)):
                    return body[k + 1:], False
                for field in ("body", "orelse", "finalbody"):
                    b = getattr(s, field, None)
                    if b:
                        r = find(b)
                        if r is not None:
                            rest, loop = r
                            return rest + ([] if loop or isinstance(s, (ast.For, ast.While)) else body[k + 1:]), \
                                loop or isinstance(s, (ast.For, ast.While))
                return None
        return None
    r = find(fn.body)
    return r[0] if r else []


def param_readers(pkg):
    """calls of package functions with a one-shot argument: [(caller, call node, callee, parameter)]"""
    for fi in pkg.functions():
        loc = locals_of(fi, pkg)
        for n in walk_scope(fi.node.body):
            if not isinstance(n, ast.Call):
                continue
            g = None
            if isinstance(n.func, ast.Name):
                r = pkg.resolve(fi.module.name, n.func.id)
                g = r[1] if r and r[0] == "func" else (pkg.find_method(r[1], "__init__") if r and r[0] == "class" else None)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and \
                    fi.cls is not None:
                g = pkg.find_method(fi.cls, n.func.attr)
            if g is None:
                continue
            names = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
            if g.cls is not None and not g.is_static:
                names = names[1:]
            for k, a in enumerate(n.args):
                if isinstance(a, ast.Starred):
                    break
                if k < len(names) and makes(a, pkg, fi.module, fi.cls, loc):
                    yield fi, n, g, names[k]
            for kw in n.keywords:
                if kw.arg and makes(kw.value, pkg, fi.module, fi.cls, loc):
                    yield fi, n, g, kw.arg
