"""C05: no function of the package changes an object received from its caller, directly or through an attribute in
which it was stored, nor a container shared by the instances of a class."""
import ast
from .base import *
from .skeleton import BUILDERS, variants, module_of
from engine.index import walk_scope

ARRAY_MODULES = ("sympkf.model",)
SCALARS = {"t", "time", "dt", "h", "start", "end", "nb_pool", "order", "degree", "step", "next_time"}
NP_INPLACE = {"copyto", "put", "place", "putmask", "fill_diagonal", "shuffle", "put_along_axis"}


def mutations(I, s):
    for e in I.effects:
        if e.kind in ("sub", "mut", "attr", "aug"):
            yield e, I.fz(e.target, s)
        elif e.kind == "call":
            c = e.target
            if not isinstance(c, T):
                continue
            c = I.fz(c, s)
            if c.op != "call":
                continue
            for k, v in c.args[2]:
                if k == "out":
                    yield e, v
            if gcall(c, *NP_INPLACE) and c.args[1]:
                yield e, c.args[1][0]
            if c.args[0].op == "attr" and c.args[0].args[1] in ("append", "extend", "insert", "update", "clear", "remove",
                                                                 "sort", "setdefault", "popitem", "discard", "add", "fill",
                                                                 "pop", "difference_update", "intersection_update",
                                                                 "reverse", "move_to_end", "symmetric_difference_update",
                                                                 "resize", "partition", "itemset", "row_op", "col_op",
                                                                 "row_del", "col_del", "row_swap", "col_swap", "zip_row_op",
                                                                 "copyin_matrix"):
                # '.add' and the like on symbolic objects do not exist; the result of an in place method is not used
                yield e, c.args[0].args[0]


def array_like(fi, e):
    """in place operator on a bare parameter: in place only for arrays and containers"""
    v = e.value
    if v is not None and isinstance(v, T) and v.op == "coll":
        return True
    if e.extra in ("BitOr", "BitAnd", "BitXor"):
        return True
    return fi.module.name.startswith(ARRAY_MODULES) or fi.module.name.startswith("generated_")


def analyse(ctx, rep, fi, stored, muts, cls=None):
    I = ctx.interp(opaque=HEAVY - {fi.name})
    owner = cls or fi.cls
    me = mk("self", owner.qual) if owner is not None and not fi.is_static and not fi.is_class else None
    v, s = I.run_function(fi, self_obj=me)
    ctx.visited |= I.visited
    bad = []
    for e in I.effects:
        if e.kind == "attr" and e.target.op in ("self", "obj") and isinstance(e.value, T):
            for r, p in alias_paths(e.value):
                if r.op == "param" and not r.args[0].startswith("*"):
                    stored.setdefault((e.target.args[0], e.key), []).append((r.args[0], fi.qual))
    for e, tgt in mutations(I, s):
        for r, p in alias_paths(tgt):
            if r.op == "param":
                n = r.args[0]
                if n.startswith("*"):
                    if not p:
                        continue          # **kwargs is a fresh dictionary
                if me is None and fi.cls is not None and fi.node.args.args and n == fi.node.args.args[0].arg and fi.name == "__new__":
                    continue
                if e.kind == "aug" and not p and (n in SCALARS or not array_like(fi, e)):
                    continue
                if e.kind == "aug" and p and p[-1] not in ("[]",) and not array_like(fi, e) and e.kind == "aug":
                    pass
                bad.append(f"{e.where}: changes its argument `{n}`{'.' if p and p[0] != '[]' else ''}{'.'.join(p)} ({e.kind} "
                           f"{e.key if isinstance(e.key, str) else ''})")
            elif r.op == "self" and p:
                if e.kind == "attr":
                    if len(p) >= 1:
                        muts.append((r.args[0], p, e))
                else:
                    muts.append((r.args[0], p, e))
    return sorted(set(bad))


def class_mutables(ctx):
    """class level containers and whether an instance or class method changes them"""
    for m in ctx.pkg.modules.values():
        for c in m.classes.values():
            for n, v in c.attrs.items():
                mutable = isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)) or \
                    isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set",
                                                                                              "defaultdict", "OrderedDict")
                if not mutable:
                    continue
                yield c, n


def module_mutables(ctx):
    for m in ctx.pkg.modules.values():
        for n, (v, path) in m.assigns.items():
            if n.startswith("__"):
                continue
            mutable = isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)) or \
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set")
            if mutable:
                yield m, n


INPLACE = {"append", "extend", "insert", "update", "clear", "remove", "sort", "setdefault", "popitem", "discard", "add", "pop",
           "difference_update", "intersection_update", "reverse"}


def changed_names(node, match):
    """sites of a function body changing in place an expression accepted by match"""
    for n in ast.walk(node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                if isinstance(t, ast.Subscript) and match(t.value):
                    yield n.lineno
                if isinstance(n, ast.AugAssign) and match(t):
                    yield n.lineno
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in INPLACE and match(n.func.value):
            yield n.lineno


def shared(ctx, rep):
    # self test
    tree = ast.parse("class A:\n  c = {}\n  def f(self, k):\n    self.c[k] = 1\n    self.c.update(k)\n")
    fn = tree.body[0].body[1]
    ismine = lambda names: lambda x: isinstance(x, ast.Attribute) and x.attr == "c" and isinstance(x.value, ast.Name) and \
        x.value.id in names
    rep.selftest(len(list(changed_names(fn, ismine({"self"})))) == 2, "in place change of a class container is seen")
    n = 0
    for c, name in class_mutables(ctx):
        n += 1
        rebound = any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store)
                      for f in c.methods.values() if f.name in ("__init__", "__new__") for x in ast.walk(f.node))
        sites = []
        users = [c] + [k for m in ctx.pkg.modules.values() for k in m.classes.values() if c in ctx.pkg.mro(k) and k is not c]
        for k in users:
            for f in k.methods.values():
                def match(x, k=k, f=f):
                    if isinstance(x, ast.Attribute) and x.attr == name:
                        b = x.value
                        if isinstance(b, ast.Name):
                            first = f.node.args.args[0].arg if f.node.args.args else None
                            return b.id in (first, c.name, k.name)
                        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type":
                            return True
                        if isinstance(b, ast.Attribute) and b.attr == "__class__":
                            return True
                    return False
                sites += [f"{f.module.rel}:{l}" for l in changed_names(f.node, match)]
        rep.check("shared", f"{c.name}.{name}", f"{c.module.rel}:{c.node.lineno}", not (sites and not rebound),
                  f"container of the class changed at {sites}" if sites else "class level container, read only")
    for m, name in module_mutables(ctx):
        sites = []
        for f in ctx.pkg.functions():
            if f.module is not m:
                continue
            local = {a.arg for a in f.node.args.args} | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)
                                                        and isinstance(x.ctx, ast.Store)}
            if name in local and not any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(f.node)):
                continue
            sites += [f"{m.rel}:{l}" for l in changed_names(f.node, lambda x: isinstance(x, ast.Name) and x.id == name)]
        rep.check("shared", f"{m.name}.{name}", m.rel, not sites, f"module level container changed at {sites}" if sites else
                  "module level container, read only")
        n += 1


def run(ctx, rep, tier):
    rep.rule("argument", "no in place change reaches an object received as argument", 120)
    rep.rule("stored", "an object received from the caller and kept in an attribute is never changed through it", 30)
    rep.rule("shared", "containers shared by all the instances or calls are read only", 1)
    stored, muts = {}, []
    # self test: a function changing its argument through an alias
    from engine.index import ModuleInfo
    m = ModuleInfo("generated_selftest", "<selftest>", "<selftest>", False,
                   "def f(state, d=None):\n    u = state[0]\n    u += 1\n    d = {} if d is None else d\n    d.update({1: 2})\n")
    ctx.pkg.modules["generated_selftest"] = m
    rep.selftest(len(analyse(ctx, rep, m.funcs["f"], {}, [])) >= 2, "changes of an argument through an alias are seen")
    del ctx.pkg.modules["generated_selftest"]
    for fi in ctx.pkg.functions():
        bad = analyse(ctx, rep, fi, stored, muts)
        rep.check("argument", fi.qual, fi.where, not bad, "; ".join(bad[:3]))
    for b in BUILDERS:
        label, sk = variants(ctx, b)[0]
        mod = module_of(ctx, b, label, sk)
        for c in mod.classes.values():
            for f in c.methods.values():
                bad = analyse(ctx, rep, f, stored, muts, cls=c)
                rep.check("argument", f"{b}:generated.{f.name}", f"{mod.rel}", not bad, "; ".join(bad[:3]))
    # stored then changed
    fam = {}
    for m in ctx.pkg.modules.values():
        for c in m.classes.values():
            fam[c.qual] = {x.qual for x in ctx.pkg.mro(c)}
    for (q, a), src in sorted(stored.items()):
        hits = []
        for q2, p, e in muts:
            if p[0] == a and (q2 == q or q2 in fam.get(q, ()) or q in fam.get(q2, ())):
                if e.kind == "aug" and len(p) == 1 and not (isinstance(e.value, T) and e.value.op == "coll"):
                    # rebinding of an attribute unless the value is a container or an array
                    if not q.startswith(ARRAY_MODULES):
                        continue
                hits.append(e.where)
        short_q = ".".join(q.split(".")[-1:])
        rep.check("stored", f"{short_q}.{a}", src[0][1], not hits,
                  f"argument `{src[0][0]}` of {src[0][1]} kept in {a} and changed in place at {sorted(set(hits))}" if hits else
                  f"kept from `{src[0][0]}`, never changed in place")
    shared(ctx, rep)
    if any(i["verdict"] == "violated" for i in rep.items):
        rep.floors = {}
