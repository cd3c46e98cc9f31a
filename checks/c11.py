"""C11: no decision on the identity of an object (is, is not, id, operator.is_) other than against a singleton."""
import ast
from .base import *
from .skeleton import BUILDERS, variants, module_of

SAFE_ATTRS = {"nan", "S", "newaxis", "Ellipsis", "NotImplemented"}
CLASS_ATTRS = {"func", "__class__"}


class Scope(ast.NodeVisitor):
    """assignments of the names of a function"""

    def __init__(self, fn):
        self.assigned = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigned.setdefault(t.id, []).append(n.value)
            elif isinstance(n, (ast.AugAssign, ast.For)):
                for y in ast.walk(n.target):
                    if isinstance(y, ast.Name):
                        self.assigned.setdefault(y.id, []).append(None)


def singleton(x, scope, mod, pkg, depth=0):
    """is the expression a singleton (None, True, ..., a class, a sentinel object)"""
    if isinstance(x, ast.Constant):
        return x.value is None or isinstance(x.value, bool) or x.value is Ellipsis
    if isinstance(x, ast.Call):
        f = x.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        return n in ("type", "object")
    if isinstance(x, ast.Attribute):
        if x.attr in SAFE_ATTRS or x.attr in CLASS_ATTRS:
            return True
        if isinstance(x.value, ast.Name) and x.value.id == "S" or isinstance(x.value, ast.Attribute) and x.value.attr == "S":
            return True
        return False
    if isinstance(x, ast.Name):
        if x.id in ("NotImplemented", "Ellipsis"):
            return True
        vals = scope.assigned.get(x.id)
        if vals:
            return depth < 5 and all(v is not None and singleton(v, scope, mod, pkg, depth + 1) for v in vals)
        r = pkg.resolve(mod.name, x.id)
        if r and r[0] == "class":
            return True
        if r and r[0] == "assign":
            return depth < 5 and singleton(r[2], Scope(r[1].tree), r[1], pkg, depth + 1)
        q = r[1] if r and r[0] == "ext" and isinstance(r[1], str) else None
        if x.id in ("int", "float", "str", "list", "tuple", "dict", "set", "bool", "complex"):
            return True
        return x.id[:1].isupper() and r is not None and r[0] not in ("func", "assign")
    return False


def shortcut(node, parents):
    """identity as a fast path of equality:  a is b or a == b"""
    p = parents.get(node)
    a, b = ast.dump(node.left), ast.dump(node.comparators[0])
    if isinstance(p, ast.BoolOp):
        for y in p.values:
            if isinstance(y, ast.Compare) and len(y.ops) == 1 and isinstance(y.ops[0], (ast.Eq, ast.NotEq)):
                if {ast.dump(y.left), ast.dump(y.comparators[0])} == {a, b}:
                    want = ast.Or if isinstance(node.ops[0], ast.Is) else ast.And
                    return isinstance(p.op, want)
    return False


def identity_tests(tree):
    parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    yield n, left, right, shortcut(n, parents) if len(n.ops) == 1 else False
                left = right
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "id" and len(n.args) == 1:
            yield n, None, n.args[0], False
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if nm in ("is_", "is_not") and len(n.args) == 2 and not (
                    isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "operator")):
                yield n, n.args[0], n.args[1], False


def functions_of(tree):
    """(name, node) of the outermost functions and of the module body"""
    out = []

    def rec(body, prefix):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((prefix + st.name, st))
            elif isinstance(st, ast.ClassDef):
                rec(st.body, prefix + st.name + ".")
            else:
                out.append((prefix + "<body>", st))
    rec(tree.body, "")
    return out


def run(ctx, rep, tier):
    rep.rule("identity", "an identity test has None, a boolean, a class or a sentinel on one side", 15)
    rep.rule("no-address", "no function uses the address of an object", 100)
    mods = [(m, m.tree, m.rel) for m in ctx.pkg.modules.values() if ".test" not in m.name]
    for cname in BUILDERS:
        for label, sk in variants(ctx, cname):
            m = module_of(ctx, cname, label, sk)
            mods.append((m, m.tree, f"generated by {cname} ({label})"))
            break
    for m, tree, rel in mods:
        for name, fn in functions_of(tree):
            scope = Scope(fn)
            addr = []
            cnt = {}
            for n, a, b, fast in identity_tests(fn):
                where = f"{rel}:{n.lineno}"
                if a is None:
                    if name.split(".")[-1] not in ("__repr__", "__str__"):
                        addr.append(n)
                    continue
                text = ast.unparse(n)
                if singleton(a, scope, m, ctx.pkg) or singleton(b, scope, m, ctx.pkg) or fast:
                    v = True
                else:
                    v = False
                k = f"{m.name}.{name}"
                cnt[k] = cnt.get(k, 0) + 1
                rep.check("identity", f"{k}#{cnt[k]}", where, v, text)
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                rep.check("no-address", f"{m.name}.{name}", f"{rel}:{fn.lineno}", not addr,
                          "; ".join(ast.unparse(x) for x in addr))
                rep.saw(f"{m.name}.{name}")
    # the rule can fire
    t = ast.parse("def f(a, b):\n    return a is b or id(a) == id(b)\n")
    hits = [h for h in identity_tests(t.body[0])]
    rep.selftest(len(hits) == 3, "identity tests are found")
    rep.selftest(not singleton(hits[0][1], Scope(t.body[0]), mods[0][0], ctx.pkg), "parameters are not singletons")
    if any(i["verdict"] == "violated" for i in rep.items):
        rep.floors = {}
