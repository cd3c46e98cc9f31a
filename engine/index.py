"""Index of the analysed package: modules, classes, functions, imports (syntax only)."""
import ast
import os
import warnings

from .desugar import desugar


class AnalysisBroken(Exception):
    """the analysis lost an anchor: reported as an error exit, never as a pass"""


class FuncInfo:
    def __init__(self, node, module, cls=None, outer=None):
        self.node, self.module, self.cls, self.outer = node, module, cls, outer
        self.name = getattr(node, "name", "<lambda>")
        base = cls.qual if cls else module.name
        self.qual = f"{base}.{self.name}"
        decs = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.decorators = decs
        last = [d.split("(")[0].split(".")[-1] for d in decs]
        self.is_property = any(d in ("property", "cached_property") for d in last)
        self.is_static = "staticmethod" in last
        self.is_class = "classmethod" in last
        self.is_setter = any(d.endswith((".setter", ".deleter")) for d in decs)
        body = node.body if isinstance(node.body, list) else []
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(body))

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"


def walk_scope(body):
    """nodes of a function body, without entering nested function scopes"""
    stack = list(body) if isinstance(body, list) else [body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.append(c)


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.qual = f"{module.name}.{node.name}"
        self.methods, self.attrs, self.imports = {}, {}, {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(st, module, self)
                if f.is_setter:
                    self.methods.setdefault("__setter__" + f.name, f)
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.imports[a.asname or a.name] = module.abs_from(st) + "." + a.name
        self.base_nodes = node.bases
        self._mro = None

    def __repr__(self):
        return f"<class {self.qual}>"


class ModuleInfo:
    def __init__(self, name, path, rel, is_pkg, src):
        self.name, self.path, self.rel, self.is_pkg, self.src = name, path, rel, is_pkg, src
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = desugar(ast.parse(src, path))
        self.classes, self.funcs, self.imports, self.assigns, self.stars = {}, {}, {}, {}, []
        self.all = None
        self._collect(self.tree.body)

    def abs_from(self, node):
        if node.level == 0:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = self.abs_from(st)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._target(t, st.value, ())
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._target(st.target, st.value, ())
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    self._collect(getattr(st, f, []) or [])
                for h in getattr(st, "handlers", []):
                    self._collect(h.body)

    def _target(self, t, value, path):
        if isinstance(t, ast.Name):
            self.assigns[t.id] = (value, path)
            if t.id == "__all__":
                try:
                    self.all = list(ast.literal_eval(value))
                except Exception:
                    self.all = None
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, e in enumerate(t.elts):
                self._target(e, value, path + (k,))

    def own_names(self):
        return set(self.classes) | set(self.funcs) | set(self.imports) | set(self.assigns)


class Package:
    def __init__(self, repo, pkg="sympkf", skip=("test",)):
        self.repo, self.modules = repo, {}
        root = os.path.join(repo, "src", pkg)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} not found")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in skip and x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, repo)
                parts = os.path.relpath(path, os.path.join(repo, "src"))[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                name = ".".join(parts[:-1] if is_pkg else parts)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    self.modules[name] = ModuleInfo(name, path, rel, is_pkg, src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {rel}: {e}")
        self.pkg = pkg

    # -- names
    def exports(self, modname, seen=None):
        """names bound in a repo module, following star imports: name -> qualified origin"""
        seen = seen or set()
        if modname in seen or modname not in self.modules:
            return {}
        seen.add(modname)
        m = self.modules[modname]
        out = {}
        for s in m.stars:
            sm = self.modules.get(s)
            if sm is None:
                continue
            e = self.exports(s, seen)
            names = sm.all if sm.all is not None else [n for n in e if not n.startswith("_")]
            for n in names:
                if n in e:
                    out[n] = e[n]
        for n in m.own_names():
            out[n] = f"{modname}.{n}"
        return out

    def resolve(self, modname, name, depth=0):
        """('class',ClassInfo)|('func',FuncInfo)|('assign',module,value,path)|('module',name)|('ext',qual)|None"""
        if depth > 20:
            return None
        m = self.modules.get(modname)
        if m is None:
            return None
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.imports:
            return self.resolve_qual(m.imports[name], depth + 1)
        if name in m.assigns:
            v, p = m.assigns[name]
            return ("assign", m, v, p)
        for s in m.stars:
            if s in self.modules:
                sm = self.modules[s]
                if sm.all is not None and name not in sm.all:
                    continue
                if sm.all is None and name.startswith("_"):
                    continue
                r = self.resolve(s, name, depth + 1)
                if r:
                    return r
        if f"{modname}.{name}" in self.modules:
            return ("module", f"{modname}.{name}")
        return None

    def resolve_qual(self, qual, depth=0):
        if qual in self.modules:
            return ("module", qual)
        if qual == self.pkg or qual.startswith(self.pkg + "."):
            mod, _, name = qual.rpartition(".")
            return self.resolve(mod, name, depth + 1)
        return ("ext", qual)

    def cls(self, qual):
        mod, _, name = qual.rpartition(".")
        m = self.modules.get(mod)
        if m and name in m.classes:
            return m.classes[name]
        # moved class: accept any module of the package that defines or re-exports it
        for mm in self.modules.values():
            if name in mm.classes:
                return mm.classes[name]
        raise AnalysisBroken(f"class {qual} not found")

    def mro(self, cls):
        if cls._mro is None:
            out, todo = [], [cls]
            while todo:
                c = todo.pop(0)
                if c in out:
                    continue
                out.append(c)
                for b in c.base_nodes:
                    r = self.base_of(c, b)
                    if r and r[0] == "class":
                        todo.append(r[1])
            cls._mro = out
        return cls._mro

    def base_of(self, c, b):
        if isinstance(b, ast.Name):
            if b.id in c.module.imports or b.id in c.module.classes or b.id in c.module.assigns:
                r = self.resolve(c.module.name, b.id)
                if r and r[0] == "assign":
                    if isinstance(r[2], ast.Name):
                        return self.resolve(r[1].name, r[2].id)
                    return None
                return r
            r = self.resolve(c.module.name, b.id)
            return r
        if isinstance(b, ast.Attribute):
            txt = ast.unparse(b)
            head, _, rest = txt.partition(".")
            r = self.resolve(c.module.name, head)
            if r and r[0] == "ext":
                return ("ext", f"{r[1]}.{rest}")
            if r and r[0] == "module":
                return self.resolve_qual(f"{r[1]}.{rest}")
        return None

    def ext_bases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.base_nodes:
                r = self.base_of(c, b)
                if r and r[0] == "ext":
                    out.append(r[1])
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return (c, c.attrs[name])
            if name in c.imports:
                return (c, c.imports[name])
        return None

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not cls and cls in self.mro(c):
                    out.append(c)
        return out

    def functions(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
