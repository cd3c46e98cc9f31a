"""C24: names, attributes, imports, calls and iterations of every path are valid."""
import ast
import importlib
import os
import builtins as B
from .base import *
from engine.defuse import ModuleScope, BUILTINS
from engine.index import walk_scope


# ------------------------------------------------------------------ names
class Externals:
    """what the installed libraries define (their documented objects, not the code under analysis)"""

    def __init__(self):
        self.cache = {}

    def module(self, name):
        if name not in self.cache:
            try:
                self.cache[name] = importlib.import_module(name)
            except Exception:
                self.cache[name] = None
        return self.cache[name]

    def get(self, qual):
        """(known, object)"""
        parts = qual.split(".")
        for k in range(len(parts), 0, -1):
            m = self.module(".".join(parts[:k])) if parts[0] in ("sympy", "numpy", "jinja2", "keyword", "itertools", "functools", "math", "re",
                                                                "operator", "collections", "copy", "os", "sys", "string", "warnings",
                                                                "multiprocessing", "typing", "abc", "types", "time", "datetime") else None
            if m is not None:
                o = m
                for p in parts[k:]:
                    if not hasattr(o, p):
                        return True, None
                    o = getattr(o, p)
                return True, o
        return False, None


def source_modules(ctx):
    return [m for m in ctx.pkg.modules.values() if not m.name.startswith("generated_")]


def module_extra(ctx, m):
    """names that star imports bring"""
    out = set()
    for s in m.stars:
        if s in ctx.pkg.modules:
            out |= set(ctx.pkg.exports(s))
            if ctx.pkg.modules[s].is_pkg:
                out |= {n.rsplit(".", 1)[1] for n in ctx.pkg.modules if n.startswith(s + ".")}
        else:
            k, o = EXT.get(s)
            if o is not None:
                out |= set(getattr(o, "__all__", dir(o)))
            else:
                return None
    return out


EXT = Externals()


def names_rule(ctx, rep):
    n = 0
    for m in source_modules(ctx):
        extra = module_extra(ctx, m)
        if extra is None:
            rep.unsure("names", m.name, m.rel, "names of a star import are not known")
            continue
        sc = ModuleScope(m.tree.body, extra)
        n += sc.uses
        for kind, name, line, what in sc.problems:
            rep.bad("names", f"{m.name}:{owner(m, line)}:{name}", f"{m.rel}:{line}", what)
        rep.ok("names", f"{m.name}: {sc.uses} uses of names", m.rel)
    if n < 500:
        raise AnalysisBroken(f"{n} uses of names only")


def owner(m, line):
    best = "module"
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.lineno <= line <= (x.end_lineno or x.lineno):
            best = x.name
    return best


def imports_rule(ctx, rep):
    for m in source_modules(ctx):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                base = m.abs_from(x)
                for a in x.names:
                    if a.name == "*":
                        continue
                    inst = f"{m.name}: from {base} import {a.name}"
                    where = f"{m.rel}:{x.lineno}"
                    if base == ctx.pkg.pkg or base.startswith(ctx.pkg.pkg + "."):
                        ok = base in ctx.pkg.modules and (a.name in ctx.pkg.exports(base) or f"{base}.{a.name}" in ctx.pkg.modules)
                        if not ok and base in ctx.pkg.modules:
                            ex = module_extra(ctx, ctx.pkg.modules[base])
                            ok = None if ex is None else a.name in ex
                        rep.check("imports", inst, where, ok, "" if ok else f"{base} does not define {a.name}")
                    else:
                        known, o = EXT.get(f"{base}.{a.name}")
                        if known:
                            rep.check("imports", inst, where, o is not None, "" if o is not None else f"{base} does not define {a.name}")
            elif isinstance(x, ast.Import):
                for a in x.names:
                    known, o = EXT.get(a.name)
                    if known:
                        rep.check("imports", f"{m.name}: import {a.name}", f"{m.rel}:{x.lineno}", o is not None, "")


def library_attributes(ctx, rep):
    """module.attribute for modules of the libraries or of the package"""
    for m in source_modules(ctx):
        local = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    local[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    q = m.abs_from(x) + "." + a.name
                    if q in ctx.pkg.modules:
                        local[a.asname or a.name] = q
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in local:
                q = local[x.value.id]
                inst, where = f"{m.name}: {q}.{x.attr}", f"{m.rel}:{x.lineno}"
                if shadowed(m, x):
                    continue
                if q in ctx.pkg.modules:
                    ok = x.attr in ctx.pkg.exports(q) or f"{q}.{x.attr}" in ctx.pkg.modules
                    rep.check("imports", inst, where, ok, "" if ok else f"{q} does not define {x.attr}")
                else:
                    known, o = EXT.get(f"{q}.{x.attr}")
                    if known:
                        rep.check("imports", inst, where, o is not None, "" if o is not None else f"{q} does not define {x.attr}")


def shadowed(m, x):
    """the name is a parameter or a local variable of an enclosing function"""
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f.lineno <= x.lineno <= (f.end_lineno or f.lineno):
            ps = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
            if x.value.id in ps:
                return True
            if isinstance(f, ast.FunctionDef):
                for y in walk_scope(f.body):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == x.value.id:
                        return True
    return False


# ------------------------------------------------------------------ attributes
# the template class Model (its trend raises NotImplementedError) leaves these to the model of the user: size of the state, number of
# iterations of the initialisation
USER_ATTRIBUTES = {"Model": {"n", "nstart"}}


def ext_class(ctx, c):
    """library classes in the bases; None when one is not known"""
    out = []
    for k in ctx.pkg.mro(c):
        for b in k.base_nodes:
            r = ctx.pkg.base_of(k, b)
            if r is None:
                if isinstance(b, ast.Name) and hasattr(B, b.id):
                    out.append(getattr(B, b.id))
                    continue
                return None
            if r[0] == "ext":
                known, o = EXT.get(r[1])
                if o is None:
                    return None
                out.append(o)
    return out


def self_name(f):
    a = f.node.args.posonlyargs + f.node.args.args
    return a[0].arg if a and not f.is_static else None


def self_attrs(f, ctxs=(ast.Load,)):
    s = self_name(f)
    if s is None:
        return
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == s and isinstance(x.ctx, ctxs):
            yield x


def class_names(ctx, c):
    """attributes every instance has: methods, class attributes, and those bound on self in some method"""
    static, inst = set(), {}
    for k in ctx.pkg.mro(c):
        static |= {n for n in k.methods if not n.startswith("__setter__")} | set(k.attrs) | set(k.imports)
        for st in k.node.body:
            for x in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    static.add(x.id)
            if isinstance(st, ast.ClassDef):
                static.add(st.name)
        for f in k.methods.values():
            for x in self_attrs(f, (ast.Store,)):
                inst.setdefault(x.attr, set()).add(f.name)
    # instances built in __new__ / class methods
    for k in ctx.pkg.mro(c):
        for f in k.methods.values():
            if f.name == "__new__" or f.is_class:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                        inst.setdefault(x.attr, set()).add("__init__")
    return static, inst


def abstract_in(ctx, c, name):
    """the attribute is given by every concrete subclass (a mixin or abstract class)"""
    subs = ctx.pkg.subclasses(c)
    return bool(subs) and all(name in (lambda a: a[0] | set(a[1]))(class_names(ctx, k)) for k in subs)


def attributes_rule(ctx, rep):
    n = 0
    for c in ctx.classes():
        static, inst = class_names(ctx, c)
        ext = ext_class(ctx, c)
        ext_names = None if ext is None else set().union(set(dir(object)), *[set(dir(o)) for o in ext])
        for f in own_methods(c):
            if f.is_class or f.name == "__new__":
                ok_names = static | (ext_names or set())
            else:
                ok_names = static | set(inst) | (ext_names or set())
            for k in ctx.pkg.mro(c):
                ok_names = ok_names | USER_ATTRIBUTES.get(k.name, set())
            for x in self_attrs(f):
                n += 1
                i, where = f"{c.name}.{f.name}: self.{x.attr}", f"{c.module.rel}:{x.lineno}"
                if x.attr in ok_names or guarded(f, x):
                    rep.ok("attributes", i, where)
                elif ext_names is None:
                    rep.unsure("attributes", i, where, "the bases of the class are not known")
                elif "__getattr__" in static or abstract_in(ctx, c, x.attr):
                    rep.ok("attributes", i, where)
                else:
                    rep.bad("attributes", i, where, f"objects of class {c.name} have no attribute {x.attr}")
    if n < 100:
        raise AnalysisBroken(f"{n} attributes of self only")


def own_methods(c):
    return list(c.methods.values())


def guarded(f, x):
    """inside hasattr(self, name) or try/except AttributeError"""
    for y in ast.walk(f.node):
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("hasattr", "getattr", "setattr") and len(y.args) > 1 \
                and isinstance(y.args[1], ast.Constant) and y.args[1].value == x.attr:
            return True
        if isinstance(y, ast.Try) and y.lineno <= x.lineno <= (y.end_lineno or 0) \
                and any(h.type is None or "Attribute" in ast.unparse(h.type) or "Exception" in ast.unparse(h.type) for h in y.handlers):
            return True
    return False


# order of the attributes in the construction of an object
class Built:
    """attributes an object may have, in the order of the statements of its constructor"""

    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        self.static, self.inst = class_names(ctx, c)
        self.have = set()
        self.active = []
        self.missing = []
        self.reads = 0

    def run(self, name):
        f = self.ctx.pkg.find_method(self.c, name)
        if f is None or f in self.active or len(self.active) > 12:
            return
        self.method(f)

    def method(self, f):
        self.active.append(f)
        self.body(f.node.body, f, self_name(f))
        self.active.pop()

    def body(self, body, f, s):
        for st in body:
            self.stmt(st, f, s)

    def stmt(self, st, f, s):
        if isinstance(st, ast.If):
            # attributes are bound when one of the sides binds them: only the absence of any binding is reported
            self.expr(st.test, f, s)
            self.body(st.body, f, s)
            self.body(st.orelse, f, s)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self.expr(st.iter, f, s)
            self.expr(st.target, f, s)
            self.body(st.body, f, s)
            self.body(st.orelse, f, s)
        elif isinstance(st, ast.While):
            self.expr(st.test, f, s)
            self.body(st.body, f, s)
        elif isinstance(st, ast.Try):
            for b in (st.body, *[h.body for h in st.handlers], st.orelse, st.finalbody):
                self.body(b, f, s)
        elif isinstance(st, ast.With):
            for i in st.items:
                self.expr(i.context_expr, f, s)
            self.body(st.body, f, s)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            pass
        elif isinstance(st, ast.Assign):
            self.expr(st.value, f, s)
            for t in st.targets:
                self.expr(t, f, s)
        elif isinstance(st, ast.AugAssign):
            self.expr(st.value, f, s)
            if isinstance(st.target, ast.Attribute):
                self.expr(ast.copy_location(ast.Attribute(st.target.value, st.target.attr, ast.Load()), st.target), f, s)
            self.expr(st.target, f, s)
        else:
            for ch in ast.iter_child_nodes(st):
                self.expr(ch, f, s)

    def expr(self, n, f, s):
        if n is None or isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Call):
            for a in n.args:
                self.expr(a, f, s)
            for k in n.keywords:
                self.expr(k.value, f, s)
            g = n.func
            if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id == s:
                self.read(g, f)
                self.run(g.attr)
                return
            if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Call) and isinstance(g.value.func, ast.Name) and g.value.func.id == "super":
                owner_ = f.cls
                mro = self.ctx.pkg.mro(self.c)
                if owner_ in mro:
                    for k in mro[mro.index(owner_) + 1:]:
                        if g.attr in k.methods:
                            if k.methods[g.attr] not in self.active:
                                self.method(k.methods[g.attr])
                            break
                return
            self.expr(g, f, s)
            return
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == s:
            if isinstance(n.ctx, ast.Store):
                st = self.ctx.pkg.find_method(self.c, "__setter__" + n.attr)
                if st is not None:
                    self.method(st)
                self.have.add(n.attr)
            elif isinstance(n.ctx, ast.Load):
                self.read(n, f)
            return
        for ch in ast.iter_child_nodes(n):
            self.expr(ch, f, s)

    def read(self, n, f):
        self.reads += 1
        if n.attr in self.have:
            return
        m = self.ctx.pkg.find_method(self.c, n.attr)
        if m is not None:
            if m.is_property:
                self.run(n.attr)
            return
        if n.attr in self.static or n.attr not in self.inst:
            return
        if guarded(f, n):
            return
        self.missing.append((n.attr, f, n.lineno))
        self.have.add(n.attr)


def construction_rule(ctx, rep):
    for c in ctx.classes():
        f = ctx.pkg.find_method(c, "__init__")
        if f is None:
            continue
        b = Built(ctx, c)
        new = ctx.pkg.find_method(c, "__new__")
        if new is not None:
            b.have |= {n for n, ms in b.inst.items() if "__init__" in ms and new.name == "__new__" and any(
                isinstance(x, ast.Attribute) and x.attr == n for x in ast.walk(new.node))}
        ext = ext_class(ctx, c)
        for o in ext or ():
            b.have |= set(dir(o))
        b.run("__init__")
        for a, g, line in b.missing:
            rep.bad("construction", f"{c.name}.__init__: self.{a}", f"{g.module.rel}:{line}",
                    f"{g.name} reads self.{a}, which no earlier statement of the construction of a {c.name} binds")
        if not b.missing:
            rep.ok("construction", f"{c.name}.__init__", f.where)
        # attributes read by the methods, bound by the construction or before in the method
        have = set(b.have)
        for k in ctx.pkg.mro(c):
            for g in k.methods.values():
                if g.name == "__init__" or g.is_class or g.is_static or g.name == "__new__":
                    continue
                bb = Built(ctx, c)
                bb.have = set(have)
                bb.method(g)
                for a, gg, line in bb.missing:
                    if gg is g and not mutual(ctx, c, a, g):
                        rep.bad("construction", f"{c.name}.{g.name}: self.{a}", f"{g.module.rel}:{line}",
                                f"self.{a} is bound neither by the construction of a {c.name} nor before in {g.name}")


def mutual(ctx, c, attr, g):
    """attributes set by a method which the user calls first (setters, as set_dt)"""
    for k in ctx.pkg.mro(c):
        for f in k.methods.values():
            if not f.name.startswith("_") and f is not g and f.name != "__init__" and any(
                    x.attr == attr for x in self_attrs(f, (ast.Store,))):
                return True
    return False


# every attribute name used on any object exists in some class
def known_names(ctx):
    import sympy
    import numpy
    names = set()
    for c in ctx.classes():
        s, i = class_names(ctx, c)
        names |= s | set(i)
    for m in source_modules(ctx):
        names |= m.own_names()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                names.add(x.attr)
    for o in vars(B).values():
        if isinstance(o, type):
            names |= set(dir(o))
    seen = set()

    def subs(k):
        if k in seen:
            return
        seen.add(k)
        names.update(dir(k))
        for q in type.__subclasses__(k):
            subs(q)
    for k in (sympy.Basic, sympy.matrices.matrixbase.MatrixBase if hasattr(sympy.matrices, "matrixbase") else sympy.MatrixBase, sympy.printing.printer.Printer):
        subs(k)
    names |= set(dir(sympy.S)) | set().union(*USER_ATTRIBUTES.values())
    names |= set(dir(numpy.ndarray)) | set(dir(numpy)) | set(dir(sympy)) | set(dir(numpy.random)) | set(dir(numpy.linalg))
    import collections, itertools, functools, re, math, multiprocessing, types, jinja2
    for mod in (collections, itertools, functools, re, math, multiprocessing, jinja2, os, os.path):
        names |= set(dir(mod))
        for o in vars(mod).values():
            if isinstance(o, type):
                names |= set(dir(o))
    import multiprocessing.pool
    import io
    names |= set(dir(multiprocessing.pool.Pool)) | set(dir(io.TextIOWrapper)) | set(dir(types.FunctionType)) | set(dir(type))
    names |= set(dir(jinja2.Template)) | set(dir(re.Pattern)) | set(dir(re.Match)) | {"__class__", "__name__", "__module__", "__qualname__"}
    return names


def vocabulary_rule(ctx, rep):
    names = known_names(ctx)
    for m in source_modules(ctx):
        opaque_libs = {x.asname or x.name.split(".")[0] for y in ast.walk(m.tree) if isinstance(y, ast.Import) for x in y.names}
        n = 0
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                if isinstance(x.value, ast.Name) and x.value.id in opaque_libs:
                    continue
                n += 1
                if x.attr not in names:
                    rep.bad("vocabulary", f"{m.name}: .{x.attr}", f"{m.rel}:{x.lineno}", f"no class of the package or of its libraries has an attribute {x.attr}")
        rep.ok("vocabulary", f"{m.name}: {n} attributes", m.rel)


# attributes of objects whose class is known
def typed_rule(ctx, rep):
    n = 0
    for c in ctx.classes():
        types_, elems = attribute_classes(ctx, c), element_classes(ctx, c)
        for f in own_methods(c):
            s = self_name(f)
            local = local_classes(ctx, f, types_, s, elems)
            for x in ast.walk(f.node):
                if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                    continue
                k = class_of(ctx, f.module, x.value, types_, elems, local, s)
                if k is None:
                    continue
                n += 1
                static, inst = class_names(ctx, k)
                ext = ext_class(ctx, k)
                i, where = f"{c.name}.{f.name}: {ast.unparse(x)}", f"{c.module.rel}:{x.lineno}"
                if ext is None:
                    continue
                ok = x.attr in static or x.attr in inst or any(hasattr(o, x.attr) for o in ext) or hasattr(object, x.attr) or guarded(f, x) \
                    or "__getattr__" in static
                rep.check("attributes", i, where, ok, "" if ok else f"objects of class {k.name} have no attribute {x.attr}")
    return n


def class_of(ctx, m, v, types_, elems, local, s):
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == s:
        return types_.get(v.attr)
    if isinstance(v, ast.Name):
        return local.get(v.id)
    if isinstance(v, ast.Call):
        return constructed(ctx, m, v)
    if isinstance(v, ast.Subscript) and not isinstance(v.slice, ast.Slice) and isinstance(v.value, ast.Attribute) \
            and isinstance(v.value.value, ast.Name) and v.value.value.id == s:
        return elems.get(v.value.attr)
    return None


def element_classes(ctx, c):
    """attribute -> class of its values (a dictionary or list built once, by a comprehension)"""
    seen = {}
    for k in ctx.pkg.mro(c):
        for f in k.methods.values():
            s = self_name(f)
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == s:
                                if y is t and isinstance(x, ast.Assign):
                                    seen.setdefault(y.attr, []).append(element(ctx, k.module, x.value))
                                elif isinstance(t, ast.Subscript) and t.value is y and isinstance(x, ast.Assign):
                                    seen.setdefault(y.attr, []).append(constructed(ctx, k.module, x.value))
                                elif isinstance(t, (ast.Tuple, ast.AugAssign)) or not isinstance(x, ast.Assign):
                                    seen.setdefault(y.attr, []).append(None)
    return {a: qs[0] for a, qs in seen.items() if qs and all(q is not None and q is qs[0] for q in qs)}


def element(ctx, m, v):
    if isinstance(v, ast.Call) and len(v.args) == 1 and ast.unparse(v.func).split(".")[-1] in ("OrderedDict", "dict"):
        v = v.args[0]
        if isinstance(v, (ast.ListComp, ast.GeneratorExp)) and isinstance(v.elt, ast.Tuple) and len(v.elt.elts) == 2:
            return constructed(ctx, m, v.elt.elts[1])
    if isinstance(v, ast.DictComp):
        return constructed(ctx, m, v.value)
    if isinstance(v, ast.ListComp):
        return constructed(ctx, m, v.elt)
    return None


def constructed(ctx, m, v):
    """class of the object a call builds"""
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
        r = ctx.pkg.resolve(m.name, v.func.id)
        if r and r[0] == "class":
            k = r[1]
            if "__new__" in k.methods or ctx.pkg.find_method(k, "__new__") is not None:
                return None
            ext = ext_class(ctx, k)
            if ext and any(o.__new__ is not object.__new__ for o in ext if isinstance(o, type)):
                return None
            return k
    return None


def attribute_classes(ctx, c):
    """attribute -> class of the package, when every binding of the attribute builds an object of this class"""
    seen = {}
    for k in ctx.pkg.mro(c):
        for f in k.methods.values():
            s = self_name(f)
            local = None
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s:
                            q = constructed(ctx, k.module, x.value)
                            if q is None and isinstance(x.value, ast.Name):
                                if local is None:
                                    local = local_classes(ctx, f, {}, s)
                                q = local.get(x.value.id)
                            if isinstance(x.value, ast.Constant) and x.value.value is None:
                                continue
                            seen.setdefault(t.attr, []).append(q)
    return {a: qs[0] for a, qs in seen.items() if qs and all(q is not None and q is qs[0] for q in qs)}


def local_classes(ctx, f, types_, s, elems={}):
    """local variable -> class, when all its bindings agree; a parameter tested and converted (if not isinstance(p, C): p = C(p)) is a C"""
    binds = {}
    ps = {a.arg for a in f.node.args.args}
    conv = {}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                for nm in ast.walk(t):
                    if isinstance(nm, ast.Name) and isinstance(nm.ctx, ast.Store):
                        q = constructed(ctx, f.module, x.value) if nm is t else None
                        if q is None and nm is t:
                            q = class_of(ctx, f.module, x.value, types_, elems, {}, s)
                        if isinstance(t, ast.Tuple) and nm in t.elts and isinstance(x.value, ast.Tuple) and len(t.elts) == len(x.value.elts):
                            q = class_of(ctx, f.module, x.value.elts[t.elts.index(nm)], types_, elems, {}, s)
                        binds.setdefault(nm.id, []).append(q)
        elif isinstance(x, (ast.For, ast.comprehension)):
            it, vals = x.iter, None
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("values", "items") \
                    and isinstance(it.func.value, ast.Attribute) and isinstance(it.func.value.value, ast.Name) and it.func.value.value.id == s:
                vals = (it.func.attr, elems.get(it.func.value.attr))
            for nm in ast.walk(x.target):
                if isinstance(nm, ast.Name) and vals is not None and (vals[0] == "values" and nm is x.target or vals[0] == "items"
                                                                      and isinstance(x.target, ast.Tuple) and nm is x.target.elts[-1]):
                    binds.setdefault(nm.id, []).append(vals[1])
                elif isinstance(nm, ast.Name):
                    binds.setdefault(nm.id, []).append(None)
        elif isinstance(x, (ast.AugAssign, ast.NamedExpr)) and isinstance(x.target, ast.Name):
            binds.setdefault(x.target.id, []).append(None)
        elif isinstance(x, ast.withitem) and x.optional_vars is not None:
            for nm in ast.walk(x.optional_vars):
                if isinstance(nm, ast.Name):
                    binds.setdefault(nm.id, []).append(None)
        if isinstance(x, ast.If) and isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) and isinstance(x.test.operand, ast.Call) \
                and isinstance(x.test.operand.func, ast.Name) and x.test.operand.func.id == "isinstance":
            a = x.test.operand.args
            if len(a) == 2 and isinstance(a[0], ast.Name) and isinstance(a[1], ast.Name) and len(x.body) == 1 and isinstance(x.body[0], ast.Assign):
                q = constructed(ctx, f.module, x.body[0].value)
                r = ctx.pkg.resolve(f.module.name, a[1].id)
                if q is not None and r and r[0] == "class" and r[1] is q and isinstance(x.body[0].targets[0], ast.Name) \
                        and x.body[0].targets[0].id == a[0].id:
                    conv[a[0].id] = q
    out = {n: qs[0] for n, qs in binds.items() if n not in ps and all(q is not None and q is qs[0] for q in qs)}
    for n, q in conv.items():
        if len(binds.get(n, [])) == 1:
            out[n] = q
    return out


# ------------------------------------------------------------------ calls
def signature(f, bound):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and pos and not f.is_static:
        pos = pos[1:]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else pos
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, req, [x.arg for x in a.kwonlyargs], kwreq, a.vararg is not None, a.kwarg is not None


def call_ok(f, bound, call):
    """'' or what is wrong"""
    pos, req, kwo, kwreq, va, kw = signature(f, bound)
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    n = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    if not va and n > len(pos):
        return f"{n} arguments for the parameters ({', '.join(pos)})"
    names = [k.arg for k in call.keywords if k.arg]
    for k in names:
        if k not in pos and k not in kwo and not kw:
            return f"no parameter {k} among ({', '.join(pos + kwo)})"
        if k in pos and pos.index(k) < n and not star:
            return f"two values for the parameter {k}"
    if not star:
        for k, p in enumerate(req):
            if k >= n and p not in names:
                return f"no value for the parameter {p}"
        for p in kwreq:
            if p not in names:
                return f"no value for the parameter {p}"
    return ""


def calls_rule(ctx, rep):
    n = 0
    for m in source_modules(ctx):
        funcs = [(None, f) for f in m.funcs.values()] + [(c, f) for c in m.classes.values() for f in c.methods.values()]
        tree_calls = {id(x): x for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
        inside = {}
        for c, f in funcs:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    inside[id(x)] = (c, f)
        for i, x in tree_calls.items():
            c, f = inside.get(i, (None, None))
            where = f"{m.rel}:{x.lineno}"
            lab = (f"{c.name}." if c else "") + (f.name if f else m.name)
            for g, bound, what in callees(ctx, m, c, f, x):
                n += 1
                w = call_ok(g, bound, x)
                rep.check("calls", f"{lab}: {ast.unparse(x.func)} -> {what}"[:150], where, not w, w and f"{ast.unparse(x)[:100]}: {w} of {g.qual}")
    if n < 60:
        raise AnalysisBroken(f"{n} calls of functions of the package only")


def local_binding(f, name):
    if f is None:
        return False
    ps = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
    ps |= {a.arg for a in (f.node.args.vararg, f.node.args.kwarg) if a}
    return name in ps or any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == name for y in ast.walk(f.node)) \
        or any(isinstance(y, (ast.FunctionDef, ast.ClassDef)) and y is not f.node and y.name == name for y in ast.walk(f.node))


def callees(ctx, m, c, f, x):
    g = x.func
    if isinstance(g, ast.Name):
        if local_binding(f, g.id):
            # nested function with one definition
            defs = [y for y in ast.walk(f.node) if isinstance(y, ast.FunctionDef) and y is not f.node and y.name == g.id]
            stores = [y for y in ast.walk(f.node) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == g.id]
            if len(defs) == 1 and not stores:
                from engine.index import FuncInfo
                fi = FuncInfo(defs[0], m)
                if not fi.decorators:
                    yield fi, False, g.id
            return
        # function-level import
        q = None
        if f is not None:
            for y in ast.walk(f.node):
                if isinstance(y, ast.ImportFrom):
                    for a in y.names:
                        if (a.asname or a.name) == g.id:
                            q = m.abs_from(y) + "." + a.name
        r = ctx.pkg.resolve_qual(q) if q else ctx.pkg.resolve(m.name, g.id)
        if r is None:
            return
        if r[0] == "func":
            if all(d.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "wraps") for d in r[1].decorators):
                yield r[1], False, r[1].name
        elif r[0] == "class":
            yield from constructor(ctx, r[1])
        return
    if isinstance(g, ast.Attribute):
        v = g.value
        if isinstance(v, ast.Name) and f is not None and c is not None and v.id == self_name(f) and not f.is_static:
            fam = [c] + ctx.pkg.subclasses(c)
            seen = set()
            for k in fam:
                h = ctx.pkg.find_method(k, g.attr)
                if h is not None and h not in seen and not h.is_property and plain(h):
                    if any(x_.attr == g.attr for kk in ctx.pkg.mro(k) for mm in kk.methods.values() for x_ in self_attrs(mm, (ast.Store,))):
                        continue
                    seen.add(h)
                    yield h, True, f"{k.name}.{g.attr}"
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and c is not None:
            for k in ctx.pkg.mro(c)[1:]:
                if g.attr in k.methods and plain(k.methods[g.attr]):
                    yield k.methods[g.attr], g.attr != "__new__", f"{k.name}.{g.attr}"
                    break
        elif isinstance(v, ast.Name) and not local_binding(f, v.id):
            r = ctx.pkg.resolve(m.name, v.id)
            if r and r[0] == "class":
                h = ctx.pkg.find_method(r[1], g.attr)
                if h is not None and plain(h) and not h.is_property:
                    yield h, h.is_class, f"{r[1].name}.{g.attr}"
            elif r and r[0] == "module" and r[1] in ctx.pkg.modules:
                q = ctx.pkg.resolve(r[1], g.attr)
                if q and q[0] == "func":
                    yield q[1], False, q[1].name
                elif q and q[0] == "class":
                    yield from constructor(ctx, q[1])
        elif isinstance(v, ast.Call):
            k = constructed(ctx, m, v)
            if k is not None:
                h = ctx.pkg.find_method(k, g.attr)
                if h is not None and plain(h) and not h.is_property:
                    yield h, True, f"{k.name}.{g.attr}"


def plain(h):
    return all(d.split("(")[0].split(".")[-1] in ("staticmethod", "classmethod", "lru_cache", "cache", "abstractmethod") for d in h.decorators)


def constructor(ctx, k):
    new, init = ctx.pkg.find_method(k, "__new__"), ctx.pkg.find_method(k, "__init__")
    mro = ctx.pkg.mro(k)
    if new is not None:
        yield new, True, f"{k.name}()"
    if init is not None and (new is None or mro.index(init.cls) <= mro.index(new.cls)):
        ext = ext_class(ctx, k)
        yield init, True, f"{k.name}()"
    if new is None and init is None and ext_class(ctx, k) == []:
        import engine.index as ix
        fi = ix.FuncInfo(ast.parse("def __init__(self): pass").body[0], k.module, k)
        yield fi, True, f"{k.name}()"


# methods called by the libraries with their own arguments
PROTOCOL = {"_latex": [["printer"], ["printer", "exp="]], "__iter__": [[]], "__len__": [[]], "__getitem__": [["k"]], "__repr__": [[]], "__str__": [[]],
            "__add__": [["o"]], "__radd__": [["o"]], "__mul__": [["o"]], "__imul__": [["o"]], "__rmul__": [["o"]], "__neg__": [[]], "__sub__": [["o"]],
            "__eq__": [["o"]], "__hash__": [[]], "subs": [["old", "new"], ["pairs"]], "doit": [[], ["deep="]], "expand": [[], ["deep="]],
            "_eval_derivative": [["s"]]}


def protocol_rule(ctx, rep):
    for c in ctx.classes():
        for f in own_methods(c):
            if f.name not in PROTOCOL:
                continue
            if f.name in ("subs", "doit", "expand", "_latex", "_eval_derivative"):
                ext = ext_class(ctx, c)
                if not ext:
                    continue
            for args in PROTOCOL[f.name]:
                call = ast.parse(f"f({', '.join(a + '0' if a.endswith('=') else a for a in args)})").body[0].value
                w = call_ok(f, True, call)
                rep.check("calls", f"{c.name}.{f.name} called by the library with ({', '.join(args)})", f.where, not w, w)


# ------------------------------------------------------------------ containers
RESIZE = {"pop", "popitem", "clear", "remove", "discard", "add", "append", "extend", "insert", "update", "setdefault", "difference_update",
          "intersection_update", "symmetric_difference_update"}


def base_iter(n):
    """(text of the container iterated in place, kind)"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("items", "keys", "values") and not n.args:
        return ast.unparse(n.func.value)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("enumerate", "zip", "iter", "map", "filter", "reversed"):
        out = [base_iter(a) for a in n.args]
        return [y for x in out for y in (x if isinstance(x, list) else [x]) if y]
    if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
        return ast.unparse(n)
    return None


def loops_rule(ctx, rep):
    for m in source_modules(ctx):
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.For):
                continue
            b = base_iter(x.iter)
            cs = [c for c in (b if isinstance(b, list) else [b]) if c]
            keys = {nm.id for nm in ast.walk(x.target) if isinstance(nm, ast.Name)}
            inst, where = f"{m.name}: {owner(m, x.lineno)}: for {ast.unparse(x.target)} in {ast.unparse(x.iter)}"[:150], f"{m.rel}:{x.lineno}"
            hit = None
            for c in cs:
                # the name is bound anew in the body: another object
                if any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == c for y in ast.walk(ast.Module(x.body, []))):
                    continue
                for y, last in statements(x.body):
                    w = resizes(y, c, keys)
                    if w and not last:
                        hit = (y.lineno, w)
            rep.check("loops", inst, where, hit is None, hit and f"line {hit[0]}: {hit[1]} while the container is iterated over")


def statements(body, last=False):
    """statements of a loop, with a flag when the loop is left just after"""
    for k, st in enumerate(body):
        leave = last or any(isinstance(y, (ast.Break, ast.Return, ast.Raise)) for y in body[k + 1:])
        yield st, leave
        for fld in ("body", "orelse", "finalbody"):
            if isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                yield from statements(getattr(st, fld, []) or [], leave and not isinstance(st, (ast.For, ast.While)))
        for h in getattr(st, "handlers", []):
            yield from statements(h.body, leave)


def resizes(st, c, keys):
    if isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
        return None
    for y in ast.walk(st):
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in RESIZE and ast.unparse(y.func.value) == c:
            return f"{ast.unparse(y)[:80]}"
        if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Del) and ast.unparse(y.value) == c:
            return f"del {ast.unparse(y)[:80]}"
        if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and ast.unparse(y.value) == c and not (
                isinstance(y.slice, ast.Name) and y.slice.id in keys) and not isinstance(y.slice, (ast.Constant, ast.Slice)):
            return f"{ast.unparse(y)[:80]} = .."
    return None


# ------------------------------------------------------------------ raised objects
def raise_rule(ctx, rep):
    for m in source_modules(ctx):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Raise) and x.exc is not None:
                e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                inst, where = f"{m.name}: {owner(m, x.lineno)}: raise {ast.unparse(e)}", f"{m.rel}:{x.lineno}"
                if isinstance(e, ast.Name):
                    o = getattr(B, e.id, None)
                    r = ctx.pkg.resolve(m.name, e.id)
                    if r is None and o is not None:
                        rep.check("raise", inst, where, isinstance(o, type) and issubclass(o, BaseException), f"{e.id} is not an exception")
                    elif r is not None and r[0] == "class":
                        ext = ext_class(ctx, r[1])
                        ok = None if ext is None else any(isinstance(q, type) and issubclass(q, BaseException) for q in ext)
                        rep.check("raise", inst, where, ok, f"{e.id} is not an exception")
                elif isinstance(e, (ast.Constant, ast.JoinedStr, ast.Tuple, ast.List, ast.Dict)):
                    rep.bad("raise", inst, where, "a constant is raised")


def run(ctx, rep, tier):
    rep.rule("names", "every name is bound on every path to its use", 10)
    rep.rule("imports", "every imported name and every attribute of a module exists", 60)
    rep.rule("attributes", "every attribute read on self, or on an object whose class is known, is one of its class", 150)
    rep.rule("construction", "the construction of an object binds its attributes before they are read", 10)
    rep.rule("vocabulary", "every attribute name exists in some class of the package or of its libraries", 10)
    rep.rule("calls", "the arguments of every call of a function of the package match its parameters", 80)
    rep.rule("loops", "no container changes its size while it is iterated over", 50)
    rep.rule("raise", "what is raised is an exception", 10)
    names_rule(ctx, rep)
    imports_rule(ctx, rep)
    library_attributes(ctx, rep)
    attributes_rule(ctx, rep)
    typed_rule(ctx, rep)
    construction_rule(ctx, rep)
    vocabulary_rule(ctx, rep)
    calls_rule(ctx, rep)
    protocol_rule(ctx, rep)
    loops_rule(ctx, rep)
    raise_rule(ctx, rep)
    ctx.visited |= {f.qual for f in ctx.pkg.functions() if not f.module.name.startswith("generated_")}
