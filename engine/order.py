"""What depends on the iteration order of sets (or on hashes, addresses, clocks, random draws): abstract interpretation of the
syntax tree, interprocedural, field based.

A value V has
  kind   set, dict, list, tuple, str, num, obj, any
  order  False; "ties" (sequence sorted by a key which does not separate its elements); True (sequence in the order of a set)
  dep    why the value itself depends on an arbitrary order (None: it does not)
  it     unordered loops whose current element the value is made of
  elem   value of the elements, items: values of the components of a tuple
  num    made of numbers only (their hash is the same in every run)
  one    container known to have one element at most
"""
import ast

MAXDEPTH = 12


class V:
    __slots__ = ("kind", "order", "dep", "it", "elem", "items", "num", "one", "cls", "what", "src", "lenof", "born", "keyv")

    def __init__(self, kind="any", order=False, dep=None, it=frozenset(), elem=None, items=None, num=False, one=False, cls=None,
                 what=None, src=None, lenof=None, born=frozenset(), keyv=None):
        self.born = born                      # loops in which the container was made
        self.keyv = keyv                      # keys of a dictionary
        self.kind, self.order, self.dep, self.it, self.elem, self.items = kind, order, dep, it, elem, items
        self.num, self.one, self.cls, self.what, self.src, self.lenof = num, one, cls, what, src, lenof

    def but(self, **k):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(k)
        return V(**d)

    def key(self, depth=2):
        return (self.kind, self.order, bool(self.dep), bool(self.it), self.num, self.one, self.what, self.cls.qual if self.cls else None,
                self.elem.key(depth - 1) if self.elem is not None and depth else None,
                self.keyv.key(depth - 1) if self.keyv is not None and depth else None,
                tuple(x.key(depth - 1) for x in self.items) if self.items and depth else None)

    def same(self, o):
        return self.key(3) == o.key(3) and self.it == o.it

    def unlooped(self, L):
        """value once the loop L is over: made of one of its elements, whichever"""
        return self

    def __repr__(self):
        f = [self.kind]
        if self.order:
            f.append("unordered" if self.order is True else "ties")
        if self.dep:
            f.append(f"dep({self.dep[1]})")
        if self.it:
            f.append("it")
        if self.num:
            f.append("num")
        if self.one:
            f.append("one")
        return "<" + " ".join(f) + (f" of {self.elem}" if self.elem is not None else "") + ">"


ANY = V()
NUM = V("num", num=True)
STR = V("str")
NONE = V("none")


def order_or(a, b):
    return True if a is True or b is True else ("ties" if "ties" in (a, b) else False)


def join(a, b):
    if a is None or a.kind == "none":
        return b if b is not None else a
    if b is None or b is a or b.kind == "none":
        return a
    kind = a.kind if a.kind == b.kind else ("any" if {a.kind, b.kind} - {"tuple", "list"} else "list")
    if "any" in (a.kind, b.kind):
        # an unknown alternative does not hide the known one
        kind = b.kind if a.kind == "any" else a.kind
    items = None
    if a.items and b.items and len(a.items) == len(b.items):
        items = tuple(join(x, y) for x, y in zip(a.items, b.items))
    return V(kind, order_or(a.order, b.order), a.dep or b.dep, a.it | b.it, join(a.elem, b.elem), items,
             a.num and b.num, a.one and b.one, a.cls or b.cls, a.what or b.what, a.src or b.src, a.lenof if a.lenof == b.lenof else None, a.born & b.born,
             join(a.keyv, b.keyv))


UNORDERED_ATTRS = {"free_symbols", "atoms", "expr_free_symbols", "bound_symbols"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SET_UPDATES = {"add", "update", "discard", "remove", "difference_update", "intersection_update", "symmetric_difference_update", "clear"}
COMMUTATIVE = {"Add", "Mul", "And", "Or", "Min", "Max", "FiniteSet", "Union", "max", "min", "gcd", "lcm", "set", "frozenset", "sum", "any", "all", "len"}
TOTAL_KEYS = {"default_sort_key", "str", "repr", "srepr", "sstr", "sort_key", "class_key", "_sort_key"}
HASH_KEYS = {"hash", "id", "__hash__"}
PARTIAL_KEYS = {"len", "count_ops", "derivative_count", "hash", "id", "total_order", "get_total_order", "degree", "type", "bool"}
SOURCES = {"hash": "hash", "id": "the address of an object", "random": "a random draw", "uuid": "uuid", "time": "the clock", "getpid": "the process",
           "listdir": "the order of a directory", "urandom": "a random draw", "glob": "the order of a directory"}
CLOCK = ("time.time", "datetime.now", "datetime.datetime.now", "datetime.today", "date.today", "time.localtime", "time.ctime", "datetime.date.today")


class Loop:
    n = 0

    def __init__(self, order, has_break, src, what):
        Loop.n += 1
        self.id, self.order, self.has_break, self.src, self.what = Loop.n, order, has_break, src, what


class Orders:
    def __init__(self, pkg, proven=()):
        self.pkg = pkg
        self.memo, self.busy = {}, []
        self.fields = {}            # (class qual, attribute) -> V
        self.sites = {}             # (file:line, text) -> what is iterated
        self.proven = set(proven)   # functions whose result was shown not to depend on the order of the sets they read
        self.sinks = []
        self.by_method = {}
        for m in pkg.modules.values():
            for c in m.classes.values():
                for f in c.methods.values():
                    self.by_method.setdefault(f.name, []).append(f)

    # ------------------------------------------------------------ whole package
    def run(self, rounds=3):
        funcs = list(self.pkg.functions())
        for k in range(rounds):
            before = {a: v.key(3) for a, v in self.fields.items()}
            self.memo = {}
            self.results = {f.qual: self.call_function(f, None) for f in funcs}
            if before == {a: v.key(3) for a, v in self.fields.items()}:
                break
        return self.results

    def call_function(self, fi, args, kw=None, self_v=None):
        """value returned; args None: unknown arguments"""
        key = (fi.qual, fi.node.lineno, None if args is None else tuple(a.key() for a in args),
               None if not kw else tuple((k, v.key()) for k, v in sorted(kw.items(), key=lambda p: str(p[0]))),
               self_v.cls.qual if self_v is not None and self_v.cls else None)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or len(self.busy) > MAXDEPTH:
            return ANY
        self.busy.append(key)
        try:
            r = Body(self, fi, args, kw or {}, self_v).result()
            if fi.name in self.proven:
                r = strip(r)
        finally:
            self.busy.pop()
        self.memo[key] = r
        return r

    def store_field(self, cls, name, v):
        k = (cls.qual, name)
        v = v.but(it=frozenset())
        old = self.fields.get(k)
        self.fields[k] = v if old is None else join(old, v)

    def field(self, cls, name):
        for c in self.pkg.mro(cls):
            if (c.qual, name) in self.fields:
                return self.fields[(c.qual, name)]
        r = None
        for c in self.pkg.subclasses(cls):
            if (c.qual, name) in self.fields:
                r = join(r, self.fields[(c.qual, name)])
        return r


def strip(v):
    if v is None:
        return None
    return v.but(dep=None, order=False if v.kind != "set" else v.order, elem=strip(v.elem), items=tuple(strip(x) for x in v.items) if v.items else None)


class Body:
    """one function, for given kinds of arguments"""

    def __init__(self, A, fi, args, kw, self_v):
        self.A, self.fi = A, fi
        self.env = {}
        self.loops = []
        self.inlining = []
        self.conds = {}                       # names of tests: ok = len(x) == 1
        self.ret = None
        self.yields = None
        self.busy_if = None
        self.locals_ = {}
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if fi.cls is not None and not fi.is_static and names:
            self.self_name = names[0]
            c = self_v.cls if self_v is not None and self_v.cls else fi.cls
            self.env[names[0]] = V("obj", cls=c) if not fi.is_class and fi.name != "__new__" else V("class", cls=c)
            names = names[1:]
        else:
            self.self_name = None
        for n in names + [x.arg for x in a.kwonlyargs]:
            self.env[n] = self.param(n)
        if a.vararg:
            self.env[a.vararg.arg] = V("list")
        if a.kwarg:
            self.env[a.kwarg.arg] = V("dict")
        if args is not None:
            for n, v in zip(names, args):
                self.env[n] = v
            if a.vararg and len(args) > len(names):
                e = None
                for v in args[len(names):]:
                    e = join(e, v)
                self.env[a.vararg.arg] = V("list", elem=e)
            for k, v in kw.items():
                if k in self.env:
                    self.env[k] = v
            for n, d in list(zip(reversed(names), reversed(a.defaults))):
                if names.index(n) >= len(args) and n not in kw:
                    self.env[n] = self.ev(d)

    def param(self, n):
        """a parameter named after a class of the package"""
        t = n.replace("_", "").lower()
        for m in self.A.pkg.modules.values():
            for c in m.classes.values():
                if c.name.lower() == t and len(t) > 3:
                    return V("obj", cls=c)
        return ANY

    def result(self):
        body = self.fi.node.body
        if isinstance(body, list):
            self.block(body)
            r = self.ret
        else:
            r = self.ev(body)
        # attributes of self
        if self.fi.cls is not None:
            for k, v in self.env.items():
                if k.startswith("self."):
                    self.A.store_field(self.fi.cls, k[5:], v)
        if self.yields is not None:
            y = self.yields
            return V("list", order=y.order, elem=y.elem, dep=y.dep)
        if r is None:
            return NONE
        return r.but(it=frozenset())

    # ------------------------------------------------------------ statements
    def block(self, body):
        """True if the end is reached"""
        for k, s in enumerate(body):
            r = self.stmt(s)
            if r is False:
                return False
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body):
                self.assume(s.test, False)
            if isinstance(s, ast.Assert):
                self.assume(s.test, True)
        return True

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            return m(s)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c)
        return True

    def s_FunctionDef(self, s):
        from .index import FuncInfo
        self.env[s.name] = V("func", cls=None, what=None, src=None)
        self.locals_[s.name] = s

    s_AsyncFunctionDef = s_FunctionDef

    def s_Expr(self, s):
        b = self.inlined(s)
        if b is not None:
            self.inlining.append(s)
            self.block(b)
            self.inlining.pop()
            return
        self.ev(s.value)

    def inlined(self, s):
        """body of a helper in the place of its call, in a loop: x = helper(x, e), helper(x, e)"""
        c = s.value
        if not isinstance(c, ast.Call) or len(self.inlining) > 3:
            return None
        r = self.callee(c.func)
        if r is None or r[0] not in ("func", "local") or len(r) > 3:
            return None
        fn = r[1] if r[0] == "local" else r[1].node
        if not isinstance(fn, ast.FunctionDef) or not (self.loops or r[0] == "local" or fn.name.startswith("_")):
            return None
        if r[0] == "func" and (r[1].is_property or getattr(r[1], "is_class", False)):
            return None
        b = inline_body(fn, c, s, method=r[0] == "func" and r[1].cls is not None and not r[1].is_static)
        if b is None or r[0] == "func" and r[1].module is not self.fi.module and r[1].module.name != self.fi.module.name:
            return None
        return b

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        here = v.it & {L.id for L in self.loops}
        if here:
            v = v.but(dep=v.dep or self.why(s, "the first element met"), it=v.it - here)
        self.ret = join(self.ret, v)
        return False

    def s_Raise(self, s):
        if s.exc is not None:
            self.ev(s.exc)
        return False

    def s_Continue(self, s):
        return False

    s_Break = s_Continue

    def s_Assign(self, s):
        b = self.inlined(s)
        if b is not None:
            self.inlining.append(s)
            self.block(b)
            self.inlining.pop()
            return
        v = self.ev(s.value)
        es = accumulated(s) if self.loops else None
        if es and v.kind not in ("str", "list", "tuple", "set", "dict"):
            old = self.ev(copy_load(s.targets[0]))
            vs = [self.ev(e) for e in es]
            L = self.loops[-1]
            if old.kind not in ("str", "list", "tuple", "set", "dict") and not any(e.kind in ("str", "list", "tuple") for e in vs) \
                    and not L.has_break:
                dep = old.dep
                for e in vs:
                    dep = dep or e.dep
                self.assign(s.targets[0], V(old.kind if old.kind == "num" else "any", dep=dep, it=old.it, num=old.num and all(e.num for e in vs)), s)
                return
        for t in s.targets:
            self.assign(t, v, s)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            self.conds[s.targets[0].id] = s.value

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        load = copy_load(s.target)
        old = self.ev(load)
        v = self.ev(s.value)
        if old.kind == "str" or v.kind == "str":
            r = V("str", dep=old.dep or v.dep, it=old.it | v.it, born=old.born)
            out = (v.it & {L.id for L in self.loops}) - old.born
            if out:
                what = next(L.what for L in self.loops if L.id in out)
                r = r.but(dep=r.dep or self.why(s, f"text made in the order of {what}"), it=r.it - out)
        elif old.kind in ("list", "tuple") or v.kind in ("list", "tuple"):
            self.extend(s.target, v, s, seq=True)
            return
        elif old.kind == "set":
            r = old.but(elem=join(old.elem, v.elem), num=old.num and v.num)
        else:
            keep = old.it
            r = V(old.kind if old.kind == "num" and v.kind == "num" else "any", dep=old.dep or v.dep, it=keep, num=old.num and v.num)
            L = self.loops[-1] if self.loops else None
            if not isinstance(s.op, (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor)) and v.it:
                r = r.but(it=keep | v.it)
            elif L is not None and L.has_break and L.id in v.it:
                r = r.but(it=keep | v.it)
        self.assign(s.target, r, s, aug=True)

    def s_If(self, s):
        t = self.ev(s.test)
        why = t.dep if t is not None else None
        if why and self.busy_if is None:
            # the branch taken is arbitrary: what differs between both is
            self.busy_if = why
            ret, before = self.ret, dict(self.env)
            r = self.s_If(s)
            self.busy_if = None
            if self.ret is not ret and self.ret is not None:
                self.ret = self.ret.but(dep=self.ret.dep or why)
            for k, v in self.env.items():
                if v is not before.get(k) and v is not None:
                    self.env[k] = v.but(dep=v.dep or why)
            return r
        a = running_extremum(s) if self.loops and not self.loops[-1].has_break else None
        if a is not None:
            old, v = self.ev(copy_load(a.targets[0])), self.ev(a.value)
            if old.kind not in ("str", "list", "tuple") and v.kind not in ("str", "list", "tuple"):
                self.assign(a.targets[0], V(old.kind, dep=old.dep or v.dep, it=old.it, num=old.num and v.num), a)
                return True
        base = dict(self.env)
        self.assume(s.test, True)
        e1 = self.block(s.body)
        one = self.env
        self.env = dict(base)
        self.assume(s.test, False)
        e2 = self.block(s.orelse)
        two = self.env
        if e1 is False and e2 is False:
            self.env = base
            self.keep_fields(one, two)
            return False
        if e1 is False:
            self.env = two
            self.keep_fields(one)
        elif e2 is False:
            self.env = one
            self.keep_fields(two)
        else:
            self.env = {k: join_env(one.get(k), two.get(k)) for k in list(one) + [k for k in two if k not in one]}
        return True

    def keep_fields(self, *envs):
        for e in envs:
            for k, v in e.items():
                if k.startswith("self."):
                    self.env[k] = join(self.env.get(k), v)

    def s_For(self, s):
        c = self.ev(s.iter)
        src = ast.unparse(s.iter)
        L = Loop(c.order, any(isinstance(x, ast.Break) for x in walk_loop(s.body)), c, src)
        if c.order and not c.num and not c.one:
            self.site(s, src, "loop", c)
        self.loops.append(L)
        base = dict(self.env)
        for _ in range(3):
            before = dict(self.env)
            self.assign(s.target, self.element(c, L), s)
            self.block(s.body)
            self.env = {k: join_env(before.get(k), self.env.get(k)) for k in list(before) + [k for k in self.env if k not in before]}
            if all(k in before and before[k].same(v) for k, v in self.env.items()):
                break
        self.loops.pop()
        self.after(L, s)
        self.block(s.orelse)
        return True

    s_AsyncFor = s_For

    def after(self, L, node):
        for k, v in list(self.env.items()):
            if L.id in v.it:
                self.env[k] = v.but(dep=v.dep or self.why(node, f"the last element of {L.what}"), it=v.it - {L.id})

    def s_While(self, s):
        self.ev(s.test)
        for _ in range(2):
            before = dict(self.env)
            self.assume(s.test, True)
            self.block(s.body)
            self.ev(s.test)
            self.env = {k: join_env(before.get(k), self.env.get(k)) for k in list(before) + [k for k in self.env if k not in before]}
        self.block(s.orelse)
        return True

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, ANY, s)
        return self.block(s.body)

    s_AsyncWith = s_With

    def s_Try(self, s):
        base = dict(self.env)
        e = self.block(s.body)
        done = self.env
        ends = e is not False
        for h in s.handlers:
            self.env = {k: join_env(base.get(k), done.get(k)) for k in list(base) + [k for k in done if k not in base]}
            if h.name:
                self.env[h.name] = ANY
            r = self.block(h.body)
            if r is not False:
                done = {k: join_env(done.get(k), self.env.get(k)) for k in list(done) + [k for k in self.env if k not in done]} if ends else self.env
                ends = True
        self.env = done
        if s.orelse and ends:
            self.block(s.orelse)
        if self.block(s.finalbody) is False:
            return False
        return ends

    def s_Match(self, s):
        self.ev(s.subject)
        base = dict(self.env)
        out = dict(base)
        for c in s.cases:
            self.env = dict(base)
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    self.env[n.name] = ANY
            self.block(c.body)
            out = {k: join_env(out.get(k), self.env.get(k)) for k in list(out) + [k for k in self.env if k not in out]}
        self.env = out

    # ------------------------------------------------------------ facts
    def assume(self, test, value):
        if isinstance(test, ast.Name) and test.id in self.conds:
            test = self.conds[test.id]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, not value)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if value else ast.Or):
            for t in test.values:
                self.assume(t, value)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            if isinstance(l, ast.Constant):
                l, r = r, l
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
            name = None
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args:
                name = ast.unparse(l.args[0])
            elif isinstance(l, ast.Name):
                v = self.env.get(l.id)
                name = v.lenof if v is not None else None
            if name is None or not isinstance(r, ast.Constant) or not isinstance(r.value, int):
                return
            n = r.value
            t = type(op)
            upper = None
            if value:
                upper = {ast.Eq: n, ast.LtE: n, ast.Lt: n - 1}.get(t)
            else:
                upper = {ast.NotEq: n, ast.Gt: n, ast.GtE: n - 1}.get(t)
            if upper is not None and upper <= 1:
                v = self.env.get(name)
                if v is None:
                    v = self.ev(ast.parse(name, mode="eval").body)
                self.env[name] = v.but(one=True)

    def why(self, node, text):
        return (f"{self.fi.module.rel}:{getattr(node, 'lineno', self.fi.node.lineno)}", text, self.fi.qual)

    def site(self, node, text, use, v):
        w = f"{self.fi.module.rel}:{node.lineno}"
        self.A.sites.setdefault((w, text), (self.fi.qual, use, v.order))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, node, aug=False):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            for k, c in list(self.conds.items()):
                if k == t.id or any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(c)):
                    del self.conds[k]
            for k in list(self.env):
                if k.startswith(t.id + ".") or k.startswith(t.id + "["):
                    del self.env[k]
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.items and len(v.items) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y, node)
                return
            for x in t.elts:
                e = v.elem or ANY
                if v.kind in ("set", "list", "tuple", "dict") and v.order and not v.num and not (v.one and len(t.elts) == 1):
                    e = e.but(dep=e.dep or self.why(node, f"the elements of a set, in the order `{ast.unparse(t)}`"))
                e = e.but(it=e.it | v.it, dep=e.dep or v.dep, num=e.num or v.num)
                if isinstance(x, ast.Starred):
                    self.assign(x.value, V("list", order=v.order, elem=e), node)
                else:
                    self.assign(x, e, node)
        elif isinstance(t, ast.Attribute):
            base = ast.unparse(t.value)
            if base == self.self_name:
                self.env["self." + t.attr] = v if not v.it else v.but(dep=v.dep or None)
                if v.it and self.loops:
                    self.env["self." + t.attr] = v
            else:
                b = self.ev(t.value)
                if b.cls is not None and b.kind == "obj":
                    self.A.store_field(b.cls, t.attr, v)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice)
            b = self.ev(t.value)
            name = self.name_of(t.value)
            if name is None:
                return
            old = self.env.get(name, b)
            order, dep = old.order, old.dep
            value = v
            if k.it:
                if old.kind in ("dict", "any") and not old.num and k.it - old.born:
                    order = True
                value = v.but(it=v.it - k.it)
            r = old.but(keyv=join(old.keyv, k.but(it=frozenset())), kind="dict" if old.kind == "any" and not old.num else old.kind, order=order, dep=dep, elem=join(old.elem, value.but(it=frozenset())),
                        it=old.it | (value.it if not k.it else (v.it & old.born)))
            self.env[name] = r

    def name_of(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute) and ast.unparse(n.value) == self.self_name:
            return "self." + n.attr
        return None

    def extend(self, target, v, node, seq=False):
        """list += v, list.append(v)"""
        name = self.name_of(target)
        e = v
        order = False
        if seq:
            order = v.order if not (v.num or v.one) else False
            e = v.elem
        it = v.it | (e.it if e is not None else frozenset())
        old = self.env.get(name) if name is not None else None
        if old is None and name is not None:
            old = self.ev(target)
        born = old.born if old is not None else frozenset()
        for L in self.loops:
            if L.id in it and L.id not in born:
                order = order_or(order, L.order)
        held = it & born
        e = e.but(it=e.it & born) if e is not None else None
        if name is not None:
            self.env[name] = old.but(kind="list" if old.kind in ("any", "none") else old.kind, order=order_or(old.order, order),
                                     elem=join(old.elem, e), num=bool(e is not None and e.num and (old.elem is None or old.num)), one=False,
                                     it=old.it | held)
            return
        # X[k].append(v), X.setdefault(k, []).append(v)
        root, k = None, None
        if isinstance(target, ast.Subscript):
            root, k = self.name_of(target.value), self.ev(target.slice)
        elif isinstance(target, ast.Call) and isinstance(target.func, ast.Attribute) and target.func.attr in ("setdefault", "get") and target.args:
            root, k = self.name_of(target.func.value), self.ev(target.args[0])
        if root is not None:
            old = self.env.get(root, ANY)
            inner = old.elem if old.elem is not None else V("list")
            if order is True and k is not None and k.it:
                order = "ties"
            self.env[root] = old.but(kind="dict" if old.kind == "any" else old.kind,
                                     order=order_or(old.order, True if k is not None and k.it else False),
                                     elem=inner.but(kind="list" if inner.kind in ("any", "none") else inner.kind,
                                                    order=order_or(inner.order, order), elem=join(inner.elem, e)))

    # ------------------------------------------------------------ iteration
    def element(self, c, L):
        e = c.elem if c.elem is not None else (NUM if c.num else ANY)
        if c.kind == "dict":
            e = c.keyv if c.keyv is not None else ANY
        if c.kind == "str":
            e = STR
        if c.num:
            e = e.but(num=True)
        dep = e.dep or c.dep
        if c.order and not c.num and not c.one:
            it = e.it | {L.id}
            items = e.items
            if items:
                items = tuple(x.but(it=x.it | {L.id}, src=L.id) for x in items)
            return e.but(it=it, items=items, dep=dep, src=L.id)
        return e.but(it=e.it | c.it, dep=dep)

    # ------------------------------------------------------------ expressions
    MAKERS = (ast.List, ast.Dict, ast.Set, ast.Constant, ast.JoinedStr, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call, ast.BinOp)

    def ev(self, n):
        if n is None:
            return NONE
        m = getattr(self, "e_" + type(n).__name__, None)
        if m:
            v = m(n)
            if self.loops and isinstance(n, self.MAKERS) and v.kind in ("list", "dict", "set", "str"):
                v = v.but(born=frozenset(L.id for L in self.loops))
            return v
        vs = [self.ev(c) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
        return self.mix(vs)

    def mix(self, vs, kind="any"):
        dep, it = None, frozenset()
        for v in vs:
            dep = dep or v.dep
            it = it | v.it
        return V(kind, dep=dep, it=it)

    def e_Constant(self, n):
        if isinstance(n.value, str):
            return STR
        if n.value is None:
            return NONE
        return NUM

    def e_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        r = self.A.pkg.resolve(self.fi.module.name, n.id)
        if r and r[0] == "assign":
            return self.module_value(r)
        return ANY

    def module_value(self, r):
        v = r[2]
        if isinstance(v, ast.Set) or isinstance(v, ast.SetComp):
            return V("set", order=True)
        if isinstance(v, (ast.List, ast.Tuple)):
            return V("list")
        if isinstance(v, ast.Dict):
            return V("dict")
        return ANY

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return v

    def e_JoinedStr(self, n):
        vs = [self.ev(x.value) for x in n.values if isinstance(x, ast.FormattedValue)]
        r = self.mix(vs, "str")
        for x, v in zip([x for x in n.values if isinstance(x, ast.FormattedValue)], vs):
            if v.kind in ("set", "list", "dict", "tuple") and v.order and not v.num and not v.one:
                r = r.but(dep=r.dep or self.why(n, f"the text of {ast.unparse(x.value)[:60]}"))
        return r

    def e_FormattedValue(self, n):
        return self.ev(n.value)

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        r = self.mix([a, b])
        ks = {a.kind, b.kind}
        if "str" in ks:
            if isinstance(n.op, ast.Mod) or isinstance(n.op, ast.Add) or isinstance(n.op, ast.Mult):
                r = r.but(kind="str")
            for v, x in ((a, n.left), (b, n.right)):
                if v.kind in ("set", "list", "dict", "tuple") and v.order and not v.num and not v.one:
                    r = r.but(dep=r.dep or self.why(n, f"the text of {ast.unparse(x)[:60]}"))
            return r
        if "set" in ks and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return V("set", order=True, dep=r.dep, it=r.it, elem=join(a.elem, b.elem), num=a.num and b.num, one=a.one and not isinstance(n.op, ast.BitOr))
        if ks & {"list", "tuple"} and isinstance(n.op, ast.Add):
            # l = l + [e]
            o = order_or(a.order, b.order)
            e = join(a.elem, b.elem)
            it = r.it | (e.it if e is not None else frozenset())
            for L in self.loops:
                if L.id in it:
                    o = order_or(o, L.order)
            return V("list", order=o, dep=r.dep, elem=e.but(it=frozenset()) if e is not None else None)
        if ks & {"list", "tuple"} and isinstance(n.op, ast.Mult):
            return a if a.kind in ("list", "tuple") else b
        num = a.num and b.num or (a.num and b.kind == "list" and b.num)
        if a.kind == "num" and b.kind == "num":
            return r.but(kind="num", num=True)
        return r.but(num=bool(num))

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return V("num", num=True, it=v.it, dep=v.dep)
        return self.mix([v], v.kind).but(num=v.num)

    def e_BoolOp(self, n):
        r = None
        for x in n.values:
            r = join(r, self.ev(x))
        return r

    def e_Compare(self, n):
        vs = [self.ev(n.left)] + [self.ev(c) for c in n.comparators]
        return self.mix(vs, "num").but(num=True)

    def e_IfExp(self, n):
        t = self.ev(n.test)
        base = dict(self.env)
        self.assume(n.test, True)
        a = self.ev(n.body)
        self.env = dict(base)
        self.assume(n.test, False)
        b = self.ev(n.orelse)
        self.env = base
        r = join(a, b)
        if t is not None and t.dep and r is not None and ast.dump(n.body) != ast.dump(n.orelse):
            r = r.but(dep=r.dep or t.dep, items=tuple(x.but(dep=x.dep or t.dep) for x in r.items) if r.items else r.items)
        return r

    def e_Lambda(self, n):
        return V("func")

    def e_Tuple(self, n):
        vs = [self.ev(x) for x in n.elts]
        r = self.mix(vs, "tuple")
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.display(n.elts, vs, "tuple")
        e = None
        for v in vs:
            e = join(e, v)
        return r.but(items=tuple(vs), elem=e, num=bool(vs) and all(v.num for v in vs))

    def display(self, elts, vs, kind):
        o, e, r = False, None, self.mix(vs, kind)
        num = bool(vs)
        for x, v in zip(elts, vs):
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if v.order and not v.num and not v.one:
                    o = order_or(o, v.order)
                    self.site(x, ast.unparse(x.value), "sequence", v)
                v, num = v.elem, num and v.num
            else:
                num = num and v.num
            e = join(e, v) if v is not None else e
        return r.but(order=o, elem=e, num=num)

    def e_List(self, n):
        vs = [self.ev(x) for x in n.elts]
        return self.display(n.elts, vs, "list").but(one=len(n.elts) == 1 and not isinstance(n.elts[0], ast.Starred))

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Set(self, n):
        vs = [self.ev(x) for x in n.elts]
        r = self.display(n.elts, vs, "set")
        return r.but(order=True, one=len(n.elts) == 1 and not isinstance(n.elts[0], ast.Starred))

    def e_Dict(self, n):
        o, e, kv = False, None, None
        vs = []
        for k, v in zip(n.keys, n.values):
            x = self.ev(v)
            if k is None:
                o = order_or(o, x.order)
                e = join(e, x.elem)
                kv = join(kv, x.keyv)
            else:
                vs.append(self.ev(k))
                kv = join(kv, vs[-1])
                e = join(e, x)
            vs.append(x)
        r = self.mix(vs, "dict")
        return r.but(order=o, elem=e, keyv=kv)

    def comp(self, n, kind, elts):
        base = dict(self.env)
        order = False
        loops = []
        for g in n.generators:
            c = self.ev(g.iter)
            L = Loop(c.order, False, c, ast.unparse(g.iter))
            if c.order and not c.num and not c.one:
                order = order_or(order, c.order)
                self.site(n, ast.unparse(g.iter), "comprehension", c)
            order_it = c.it
            self.loops.append(L)
            loops.append(L)
            self.assign(g.target, self.element(c, L), n)
            for t in g.ifs:
                self.ev(t)
                if selects(t) and order is True:
                    order = "ties"
        vs = [self.ev(x) for x in elts]
        ids = {L.id for L in loops}
        for _ in loops:
            self.loops.pop()
        self.env = base
        e = vs[-1]
        dep = e.dep
        if kind != "dict" and order and not (vs[0].it & ids):
            order = False             # the same element each time
        e = e.but(it=e.it - ids, items=tuple(x.but(it=x.it - ids) for x in e.items) if e.items else None)
        it = e.it
        if kind == "set":
            return V("set", order=True, elem=e.but(it=frozenset()), num=e.num, it=it, dep=None if order else dep)
        if kind == "dict":
            return V("dict", order=order, elem=e.but(it=frozenset()), it=it, dep=dep, keyv=vs[0].but(it=frozenset()))
        return V("list", order=order, elem=e.but(it=frozenset()), num=e.num, it=it, dep=dep)

    def e_ListComp(self, n):
        return self.comp(n, "list", [n.elt])

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return self.comp(n, "set", [n.elt])

    def e_DictComp(self, n):
        return self.comp(n, "dict", [n.key, n.value])

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        self.emit(v, False)
        return ANY

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        self.emit(v.elem or ANY, v.order if not v.num else False)
        return ANY

    def emit(self, v, order):
        for L in self.loops:
            if L.id in v.it:
                order = order_or(order, L.order)
        old = self.yields or V("list")
        self.yields = old.but(order=order_or(old.order, order), elem=join(old.elem, v.but(it=frozenset())))

    def e_Subscript(self, n):
        b = self.ev(n.value)
        k = self.ev(n.slice)
        if isinstance(n.slice, ast.Slice):
            if b.order and not b.num and not b.one and b.kind in ("list", "tuple"):
                return b.but(elem=(b.elem or ANY).but(dep=(b.elem or ANY).dep or self.why(n, f"{ast.unparse(n)[:60]}")), items=None)
            return b.but(items=None)
        e = b.elem if b.elem is not None else ANY
        if b.items and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and -len(b.items) <= n.slice.value < len(b.items):
            e = b.items[n.slice.value]
        dep = e.dep or b.dep or k.dep
        if b.kind in ("list", "tuple") and b.order and not b.num and not b.one:
            dep = dep or self.why(n, f"`{ast.unparse(n)[:60]}` of a sequence in the order of a set")
        return e.but(dep=dep, it=e.it | b.it | k.it, num=e.num or b.num)

    def e_Attribute(self, n):
        name = self.name_of(n)
        if name is not None and name in self.env:
            return self.env[name]
        b = self.ev(n.value)
        if n.attr in UNORDERED_ATTRS and b.cls is None:
            return V("set", order=True, it=b.it, dep=b.dep)
        c = b.cls
        if c is not None:
            f = self.A.pkg.find_method(c, n.attr)
            if f is not None and f.is_property:
                v = self.A.call_function(f, [], {}, b)
                return v.but(it=v.it | b.it, dep=v.dep or b.dep)
            v = self.A.field(c, n.attr)
            if v is not None:
                return v.but(it=v.it | b.it, dep=v.dep or b.dep)
            a = self.A.pkg.find_attr(c, n.attr)
            if a is not None and not isinstance(a[1], str):
                return V("list") if isinstance(a[1], (ast.List, ast.Tuple)) else V("dict") if isinstance(a[1], ast.Dict) else V("set", order=True) if isinstance(a[1], ast.Set) else ANY
        elif b.kind in ("any", "obj"):
            # attribute of an object of an unknown class: the properties of that name, when there is one only
            p = [f for f in self.A.by_method.get(n.attr, ()) if f.is_property]
            if len(p) == 1:
                v = self.A.call_function(p[0], [], {}, None)
                return v.but(it=v.it | b.it, dep=v.dep or b.dep)
        return V("any", it=b.it, dep=b.dep, num=b.num and n.attr in ("T", "real", "imag", "size", "shape"))

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        args = [self.ev(a) for a in n.args]
        kw = {k.arg: self.ev(k.value) for k in n.keywords}
        if isinstance(f, ast.Name):
            r = self.builtin(n, f.id, args, kw)
            if r is not None:
                return r
        if isinstance(f, ast.Attribute):
            r = self.methodcall(n, f, args, kw)
            if r is not None:
                return r
        text = ast.unparse(f)
        if text in CLOCK or (name in SOURCES and (isinstance(f, ast.Name) or text.split(".")[0] in ("random", "np", "numpy", "uuid", "os", "time", "glob"))):
            return ANY.but(dep=self.why(n, SOURCES.get(name, "the clock")))
        # function or class of the package
        r = self.callee(f)
        if r is not None:
            if r[0] == "func":
                v = self.A.call_function(r[1], self.flat(n, args), kw, r[2])
                v = self.through(v, r[2], args, kw)
                if len(r) > 3:
                    # a guess from the name of the method
                    v = join(v, self.mix(args + list(kw.values()) + [self.ev(f.value)]))
                return v
            if r[0] == "class":
                init = self.A.pkg.find_method(r[1], "__init__")
                if init is not None:
                    self.A.call_function(init, self.flat(n, args), kw, V("obj", cls=r[1]))
                new = self.mix(args + list(kw.values()), "obj").but(cls=r[1])
                return new
            if r[0] == "local":
                return self.local_call(r[1], args, kw)
        res = self.mix(args + list(kw.values()) + ([self.ev(f.value)] if isinstance(f, ast.Attribute) else []))
        if name in COMMUTATIVE:
            return res
        for a, x in list(zip(args, n.args)) + [(kw[k.arg], k.value) for k in n.keywords]:
            if a.order and not a.num and not a.one and (isinstance(x, ast.Starred) or a.kind in ("list", "tuple")):
                res = res.but(dep=res.dep or self.why(n, f"{name or 'call'} of {ast.unparse(x)[:60]}"))
        num = text.split(".")[0] in ("np", "numpy") and name in ("zeros", "ones", "arange", "asarray", "array", "empty", "eye", "full") and \
            (name not in ("asarray", "array") or args and args[0].num)
        if num:
            res = V("any", num=True, elem=NUM, it=res.it)
        return res

    def through(self, v, recv, args, kw):
        it, dep = v.it, v.dep
        for a in list(args) + list(kw.values()) + ([recv] if recv is not None else []):
            it = it | a.it
        if recv is not None:
            dep = dep or recv.dep
        return v.but(it=it, dep=dep)

    def flat(self, n, args):
        out = []
        for x, v in zip(n.args, args):
            if isinstance(x, ast.Starred):
                return out
            out.append(v)
        return out

    def callee(self, f):
        pkg = self.A.pkg
        if isinstance(f, ast.Name):
            if f.id in self.locals_:
                return ("local", self.locals_[f.id])
            v = self.env.get(f.id)
            if v is not None and v.kind == "class" and v.cls is not None:
                return ("class", v.cls)
            if v is not None and v.kind != "func":
                return None
            r = pkg.resolve(self.fi.module.name, f.id)
            if r is None:
                # imported in the function
                for s in ast.walk(self.fi.node):
                    if isinstance(s, ast.ImportFrom):
                        for a in s.names:
                            if (a.asname or a.name) == f.id:
                                r = pkg.resolve_qual(self.fi.module.abs_from(s) + "." + a.name)
            if r and r[0] == "func":
                return ("func", r[1], None)
            if r and r[0] == "class":
                return ("class", r[1])
            return None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.fi.cls is not None:
                for c in pkg.mro(self.fi.cls)[1:]:
                    if f.attr in c.methods:
                        return ("func", c.methods[f.attr], self.env.get(self.self_name))
                return None
            b = self.ev(f.value)
            c = b.cls
            if c is None and isinstance(f.value, ast.Name) and f.value.id not in self.env:
                r = pkg.resolve(self.fi.module.name, f.value.id)
                if r and r[0] == "class":
                    m = pkg.find_method(r[1], f.attr)
                    return ("func", m, V("class", cls=r[1])) if m is not None else None
                if r and r[0] == "module":
                    r = pkg.resolve(r[1], f.attr)
                    if r and r[0] == "func":
                        return ("func", r[1], None)
                    if r and r[0] == "class":
                        return ("class", r[1])
                return None
            if c is not None:
                m = pkg.find_method(c, f.attr)
                if m is not None and not m.is_property:
                    return ("func", m, b)
                return None
            if b.kind == "any":
                ms = self.A.by_method.get(f.attr, [])
                if len(ms) == 1 and not ms[0].is_property and not f.attr.startswith("__"):
                    return ("func", ms[0], V("obj", cls=ms[0].cls, it=b.it), "guess")
        return None

    def local_call(self, node, args, kw):
        from .index import FuncInfo
        fi = FuncInfo(node, self.fi.module, None)
        fi.qual = self.fi.qual + "." + node.name
        if len(self.A.busy) > MAXDEPTH or fi.qual in self.A.busy:
            return ANY
        self.A.busy.append(fi.qual)
        try:
            B = Body(self.A, fi, args, kw, None)
            for k, v in self.env.items():
                B.env.setdefault(k, v)
            B.self_name = self.self_name
            B.locals_ = dict(self.locals_)
            return self.through(B.result(), None, args, kw)
        finally:
            self.A.busy.pop()

    def builtin(self, n, name, args, kw):
        if name in self.env and self.env[name].kind != "any":
            return None
        a = args[0] if args else None
        if name in ("set", "frozenset"):
            if a is None:
                return V("set", order=True, num=True, one=True)
            return V("set", order=True, elem=a.elem, num=a.num, one=a.one, it=a.it, dep=(a.elem.dep if a.elem is not None else None) if not a.order else None)
        if name in ("list", "tuple", "iter", "reversed"):
            if a is None:
                return V("list", num=True)
            if a.order and not a.num and not a.one:
                self.site(n, ast.unparse(n.args[0]), "sequence", a)
            return V("list", order=a.order if not a.num else False, elem=a.elem, num=a.num, one=a.one, it=a.it, dep=a.dep, lenof=None,
                     items=tuple(reversed(a.items)) if a.items and name == "reversed" else a.items)
        if name == "sorted":
            return self.sort(n, a, n.keywords, kw)
        if name == "len":
            return V("num", num=True, it=a.it if a else frozenset(), lenof=ast.unparse(n.args[0]) if n.args else None)
        if name in ("any", "all", "bool", "isinstance", "hasattr", "issubclass", "callable", "int", "float", "abs", "round"):
            return self.mix([x for x in args], "num").but(num=True)
        if name == "range":
            return V("list", num=True, elem=NUM, it=self.mix(args).it, dep=self.mix(args).dep)
        if name == "sum":
            r = V("any", it=a.it, dep=a.dep or (a.elem.dep if a.elem is not None else None), num=a.num)
            for x in args[1:]:
                if x.kind in ("list", "tuple"):
                    return V("list", order=order_or(a.order, a.elem.order if a.elem is not None else False), elem=a.elem.elem if a.elem is not None else None)
            return r
        if name in ("max", "min"):
            if len(args) == 1:
                e = a.elem or (NUM if a.num else ANY)
                k = self.keykind(n.keywords)
                if not a.num and not a.one and (k == "hash" or a.order and k == "partial"):
                    return e.but(dep=e.dep or self.why(n, f"{name} by a key which does not separate the elements"))
                return e.but(it=e.it | a.it, dep=e.dep or a.dep)
            r = self.mix(args).but(num=all(x.num for x in args))
            if self.keykind(n.keywords) == "hash" and not r.num:
                r = r.but(dep=r.dep or self.why(n, f"{name} by hash"))
            return r
        if name == "enumerate":
            e = a.elem or (NUM if a.num else ANY)
            i = NUM
            if a.order and not a.num and not a.one:
                i = NUM.but(dep=self.why(n, f"rank in {ast.unparse(n.args[0])[:60]}"), num=False)
            return V("list", order=a.order if not a.num else False, elem=V("tuple", items=(i, e)), it=a.it, dep=a.dep, one=a.one)
        if name == "zip":
            o = False
            items = []
            roots = set()
            free = 0
            for x, v in zip(n.args, args):
                u = v.order and not v.num and not v.one
                o = order_or(o, v.order if u else False)
                if u:
                    roots.add(root_of(x))
                else:
                    free += 1
                items.append(v.elem or (NUM if v.num else ANY))
            if o and (len(roots) > 1 or free):
                items = [v.but(dep=v.dep or self.why(n, f"pairs of {ast.unparse(n)[:70]}")) for v in items]
            m = self.mix(args)
            return V("list", order=o, elem=V("tuple", items=tuple(items)) if not any(isinstance(x, ast.Starred) for x in n.args) else None, it=m.it, dep=m.dep)
        if name == "map" and len(args) >= 2:
            fn = self.mapped(n.args[0], args[1:])
            o = False
            for v in args[1:]:
                o = order_or(o, v.order if not v.num and not v.one else False)
            return V("list", order=o, elem=fn, it=self.mix(args[1:]).it)
        if name == "filter" and len(args) == 2:
            v = args[1]
            return v.but(kind="list")
        if name == "next":
            e = a.elem or ANY
            if a.order and not a.num and not a.one:
                return e.but(dep=e.dep or self.why(n, f"the first element of {ast.unparse(n.args[0])[:60]}"))
            return e
        if name in ("str", "repr", "format", "ascii", "latex"):
            r = self.mix(args, "str")
            if a is not None and a.kind in ("set", "list", "dict", "tuple") and a.order and not a.num and not a.one:
                r = r.but(dep=r.dep or self.why(n, f"the text of {ast.unparse(n.args[0])[:60]}"))
            return r
        if name == "dict":
            if a is None:
                e = None
                for v in kw.values():
                    e = join(e, v)
                return V("dict", elem=e)
            e = a.elem
            if a.kind != "dict" and e is not None and e.items and len(e.items) == 2:
                e = e.items[1]
            return V("dict", order=a.order if not a.num else False, elem=e, it=a.it, dep=a.dep)
        if name == "groupby" and a is not None:
            free = a.order and not a.num and not a.one
            key = next((ast.unparse(k.value) for k in n.keywords if k.arg == "key"), ast.unparse(n.args[1]) if len(n.args) > 1 else None)
            sort = self.sorting(n.args[0])
            fits = not free or sort and key is not None and sort == key
            group = V("list", order=a.order if not a.num else False, elem=a.elem, num=a.num, one=a.one)
            if not fits:
                group = group.but(dep=self.why(n, f"groups of {ast.unparse(n.args[0])[:60]}"))
            return V("list", order=False if fits else a.order, elem=V("tuple", items=(ANY, group)), it=a.it, dep=a.dep)
        if name == "print":
            return NONE
        if name in ("hash", "id"):
            return ANY.but(dep=self.why(n, SOURCES[name]))
        if name == "getattr" and len(args) >= 2 and isinstance(n.args[1], ast.Constant):
            return self.ev(ast.copy_location(ast.Attribute(n.args[0], n.args[1].value, ast.Load()), n)) if str(n.args[1].value).isidentifier() else None
        return None

    def mapped(self, f, args):
        if isinstance(f, ast.Lambda) and len(f.args.args) == len(args):
            saved = dict(self.env)
            for p, v in zip(f.args.args, args):
                self.env[p.arg] = v.elem or ANY
            r = self.ev(f.body)
            self.env = saved
            return r
        if isinstance(f, ast.Name) and f.id in ("str", "repr"):
            return STR
        return ANY

    # ------------------------------------------------------------ sorting
    def sorting(self, n, hops=3):
        """text of the key by which the sequence is sorted, when it is known"""
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "sorted":
            return next((ast.unparse(k.value) for k in n.keywords if k.arg == "key"), None)
        if isinstance(n, ast.Name) and hops:
            made = [x.value for x in ast.walk(self.fi.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in x.targets)]
            other = [x for x in ast.walk(self.fi.node) if isinstance(x, ast.Name) and x.id == n.id and not isinstance(x.ctx, ast.Load)]
            if len(made) == 1 == len(other):
                return self.sorting(made[0], hops - 1)
        return None

    def keykind(self, keywords):
        for k in keywords:
            if k.arg == "key":
                return self.key_of(k.value)
        return "total"

    def key_of(self, f):
        """does the sort key separate different elements: total, partial, unknown"""
        if isinstance(f, ast.Constant) and f.value is None:
            return "total"
        if isinstance(f, ast.Name):
            if f.id in TOTAL_KEYS:
                return "total"
            if f.id in HASH_KEYS:
                return "hash"
            if f.id in PARTIAL_KEYS:
                return "partial"
            if f.id in self.locals_:
                return self.key_body(self.locals_[f.id])
            r = self.callee(f)
            if r is not None and r[0] == "func":
                return self.key_body(r[1].node)
            return "unknown"
        if isinstance(f, ast.Attribute):
            if f.attr in TOTAL_KEYS:
                return "total"
            if f.attr in HASH_KEYS:
                return "hash"
            if f.attr in PARTIAL_KEYS:
                return "partial"
            return "unknown"
        if isinstance(f, ast.Lambda):
            return self.key_expr(f.body, {a.arg for a in f.args.args})
        if isinstance(f, ast.Call) and isinstance(f.func, (ast.Name, ast.Attribute)):
            nm = f.func.id if isinstance(f.func, ast.Name) else f.func.attr
            if nm == "attrgetter" and f.args and isinstance(f.args[0], ast.Constant):
                return "total" if f.args[0].value in ("name",) else "unknown"
        return "unknown"

    def key_body(self, node):
        rs = [s.value for s in ast.walk(node) if isinstance(s, ast.Return)]
        ps = {a.arg for a in node.args.args}
        ks = [self.key_expr(x, ps) for x in rs if x is not None]
        return "total" if ks and all(k == "total" for k in ks) else next((k for k in ("hash", "partial") if k in ks), "unknown")

    def key_expr(self, b, ps):
        if isinstance(b, ast.Name) and b.id in ps:
            return "total"
        if isinstance(b, ast.Constant):
            return "partial"
        if isinstance(b, (ast.Tuple, ast.List)):
            ks = [self.key_expr(x, ps) for x in b.elts]
            for k in ks:
                if k in ("total", "hash"):
                    return k          # the first part that separates the elements decides
            return "unknown" if "unknown" in ks else "partial"
        if isinstance(b, ast.UnaryOp):
            return self.key_expr(b.operand, ps)
        if isinstance(b, ast.BinOp):
            ks = [self.key_expr(x, ps) for x in (b.left, b.right)]
            return "hash" if "hash" in ks else "unknown" if ks != ["partial", "partial"] else "partial"
        if isinstance(b, ast.JoinedStr):
            ks = [self.key_expr(x.value, ps) for x in b.values if isinstance(x, ast.FormattedValue)]
            return "total" if "total" in ks else "unknown"
        if isinstance(b, ast.Call):
            nm = b.func.id if isinstance(b.func, ast.Name) else b.func.attr if isinstance(b.func, ast.Attribute) else ""
            if nm in TOTAL_KEYS:
                return "total"
            if nm in HASH_KEYS:
                return "hash"
            if nm in PARTIAL_KEYS:
                return "partial"
            return "unknown"
        if isinstance(b, ast.Attribute):
            return "partial" if b.attr in PARTIAL_KEYS else "total" if b.attr == "name" else "unknown"
        return "unknown"

    def sort(self, n, a, keywords, kw):
        if a is None:
            return V("list")
        k = self.keykind(keywords)
        if k == "hash" and not a.num and not a.one:
            return V("list", order=True, elem=a.elem, it=a.it, dep=a.dep)
        o = "ties" if k == "partial" and a.order and not a.num and not a.one else False
        return V("list", order=o, elem=a.elem, num=a.num, one=a.one, it=a.it, dep=a.dep)

    # ------------------------------------------------------------ methods
    def methodcall(self, n, f, args, kw):
        meth = f.attr
        recv = None
        if isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            recv = STR
        else:
            name = self.name_of(f.value)
            recv = self.ev(f.value)
        a = args[0] if args else None
        name = self.name_of(f.value)
        if meth == "atoms":
            what = None
            if len(n.args) == 1 and isinstance(n.args[0], (ast.Name, ast.Attribute)):
                what = n.args[0].id if isinstance(n.args[0], ast.Name) else n.args[0].attr
            # the left hand side of an equation has one derivative, the trend
            one = what == "Derivative" and is_lhs(f.value)
            return V("set", order=True, it=recv.it, dep=recv.dep, elem=V(what=what), what=what, one=one)
        if meth == "join":
            r = V("str", it=recv.it | (a.it if a else frozenset()), dep=recv.dep or (a.dep if a else None) or (a.elem.dep if a is not None and a.elem is not None else None))
            if a is not None and a.order and not a.num and not a.one:
                alt = isinstance(f.value, ast.Constant) and f.value.value == "|"
                r = r.but(dep=r.dep or self.why(n, f"text of {ast.unparse(n.args[0])[:60]}"), what="alternatives" if alt else None)
            return r
        if recv.kind == "str" and meth in ("format", "format_map"):
            r = self.mix([recv] + args + list(kw.values()), "str")
            for x, v in list(zip(n.args, args)) + [(k.value, kw[k.arg]) for k in n.keywords]:
                if v.kind in ("set", "list", "dict", "tuple") and v.order and not v.num and not v.one:
                    r = r.but(dep=r.dep or self.why(n, f"the text of {ast.unparse(x)[:60]}"))
            return r
        if isinstance(f.value, ast.Name) and f.value.id == "re" and "re" not in self.env:
            skip = args[0] if args else None
            rest = args[1:] + list(kw.values())
            return self.mix(rest + ([skip.but(dep=None)] if skip is not None else []), "str" if meth in ("sub", "escape") else "any")
        if recv.kind in ("list", "tuple", "any", "none") and meth in ("append", "extend", "insert", "appendleft") and recv.cls is None:
            v = args[-1] if args else ANY
            self.extend(f.value, v, n, seq=meth == "extend")
            return NONE
        if recv.kind == "list" and meth == "sort":
            k = self.keykind(n.keywords)
            if name is not None:
                self.env[name] = recv.but(order=True if k == "hash" and not recv.num else "ties" if k == "partial" and recv.order and not recv.num else False)
            return NONE
        if recv.kind == "list" and meth in ("reverse",):
            return NONE
        if recv.kind in ("list",) and meth in ("index",) and recv.order and not recv.num and not recv.one:
            return V("num", dep=self.why(n, f"rank in {ast.unparse(f.value)[:60]}"), it=recv.it)
        if recv.kind == "set" or (meth in ("add", "discard", "difference_update") and recv.kind == "any" and recv.cls is None):
            # s.union(*sets): the elements of each of the sets
            args = [(v.elem or ANY) if isinstance(x, ast.Starred) else v for x, v in zip(n.args, args)]
            if meth in SET_METHODS:
                e = recv.elem
                num = recv.num
                if meth in ("union", "symmetric_difference"):
                    for v in args:
                        e = join(e, v.elem)
                        num = num and v.num
                return V("set", order=True, elem=e, num=num, it=recv.it, dep=recv.dep, what=recv.what,
                         one=recv.one and meth in ("intersection", "difference", "copy"))
            if meth in SET_UPDATES:
                if name is not None and meth in ("add", "update"):
                    e, num = recv.elem, recv.num
                    for v in args:
                        v2 = v if meth == "add" else v.elem or (NUM if v.num else ANY)
                        e = join(e, v2.but(it=frozenset()))
                        num = num and (v.num if meth == "update" else v2.num or v.num)
                    self.env[name] = V("set", order=True, elem=e, num=num, dep=recv.dep, it=recv.it, what=recv.what)
                return NONE
            if meth == "pop":
                e = recv.elem or ANY
                if not recv.one and not recv.num:
                    return e.but(dep=e.dep or self.why(n, f"any element of {ast.unparse(f.value)[:60]}"))
                return e.but(it=e.it | recv.it)
            if meth in ("issubset", "issuperset", "isdisjoint"):
                return NUM.but(it=recv.it)
        if recv.kind in ("list", "tuple") and meth == "pop":
            e = recv.elem or ANY
            if recv.order and not recv.num and not recv.one:
                return e.but(dep=e.dep or self.why(n, f"one element of {ast.unparse(f.value)[:60]}"))
            return e.but(it=e.it | recv.it)
        if meth in ("keys", "values", "items") and not args and recv.cls is None:
            e = recv.elem or ANY
            if meth == "keys":
                e = recv.keyv or ANY
            elif meth == "items":
                e = V("tuple", items=(recv.keyv or ANY, recv.elem or ANY))
            return V("list", order=recv.order, elem=e, it=recv.it, dep=recv.dep)
        if recv.kind == "dict":
            if meth == "get":
                return (recv.elem or ANY).but(it=recv.it | (a.it if a else frozenset()), dep=recv.dep)
            if meth == "pop":
                return recv.elem or ANY
            if meth == "popitem" and recv.order:
                return ANY.but(dep=self.why(n, "popitem"))
            if meth == "setdefault":
                v = args[1] if len(args) > 1 else NONE
                if name is not None and a is not None:
                    self.env[name] = recv.but(order=order_or(recv.order, True if a.it else False), elem=join(recv.elem, v.but(it=frozenset())))
                return join(recv.elem, v)
            if meth == "update":
                if name is not None and a is not None:
                    self.env[name] = recv.but(order=order_or(recv.order, a.order if not a.num else False), elem=join(recv.elem, a.elem))
                return NONE
            if meth == "copy":
                return recv
        if meth in ("subs", "xreplace", "replace") and recv.cls is None and recv.kind in ("any", "str"):
            r = self.mix([recv] + [v if v.kind not in ("dict", "set") else v.but(order=False) for v in args] + list(kw.values()), recv.kind)
            if len(args) == 1 and a.kind in ("list", "tuple") and a.order is True and not a.num and not a.one:
                r = r.but(dep=r.dep or self.why(n, f"substitutions in the order of {ast.unparse(n.args[0])[:60]}"))
            if recv.kind == "str" and meth == "replace" and self.loops:
                ids = {L.id for L in self.loops} & (r.it - recv.it)
                return r.but(it=r.it) if ids else r
            # one substitution after the other: the order matters when a replaced term may contain another one
            its = frozenset()
            for v in args:
                its = its | v.it
            for L in self.loops:
                if L.id in its and len(args) == 2 and args[0].src == L.id and args[0].what in ("Derivative", "Subs") and L.order is True:
                    r = r.but(dep=r.dep or self.why(n, f"derivatives replaced one after the other in the order of {L.what}"))
            # the result of a sequence of substitutions is not "the last element"
            return r.but(it=recv.it | (r.it - its))
        return None


def inline_body(fn, call, stmt, method):
    """statements of a straight helper (one return, at its end) for one call; None: not straight"""
    import copy
    body = list(fn.body)
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        body = body[1:]
    if not body or fn.decorator_list and not all(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list):
        return None
    a = fn.args
    if a.vararg or a.kwarg or a.kwonlyargs or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    for k, x in enumerate(body):
        for y in ast.walk(x):
            if isinstance(y, (ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Try, ast.ClassDef)) and \
                    not (y is x and k == len(body) - 1 and isinstance(x, ast.Return)):
                return None
    ps = [x.arg for x in a.posonlyargs + a.args]
    given = {}
    args = list(call.args)
    if method:
        if not ps or not isinstance(call.func, ast.Attribute):
            return None
        args = [call.func.value] + args
    if len(args) > len(ps):
        return None
    given.update(zip(ps, args))
    for k in call.keywords:
        if k.arg not in ps or k.arg in given:
            return None
        given[k.arg] = k.value
    for p, d in zip(reversed(ps), reversed(a.defaults)):
        given.setdefault(p, d)
    if set(given) != set(ps):
        return None
    stored = {y.id for x in body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del))}
    targets = {y.id for t in getattr(stmt, "targets", []) for y in ast.walk(t) if isinstance(y, ast.Name)}
    names, pre = {}, []
    for p, e in given.items():
        if isinstance(e, ast.Name) and (p not in stored or e.id in targets) and e.id not in names.values():
            names[p] = e.id
        else:
            names[p] = f"${fn.name}.{p}"
            pre.append(ast.Assign(targets=[ast.Name(id=names[p], ctx=ast.Store())], value=e))
    for x in stored:
        names.setdefault(x, f"${fn.name}.{x}")
    out = []
    for x in body:
        x = copy.deepcopy(x)
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id in names:
                y.id = names[y.id]
        out.append(x)
    if isinstance(out[-1], ast.Return):
        r = out.pop()
        v = r.value or ast.Constant(value=None)
        if isinstance(stmt, ast.Assign):
            t = stmt.targets
            if len(t) == 1 and isinstance(t[0], ast.Tuple) and isinstance(v, ast.Tuple) and len(v.elts) == len(t[0].elts) and \
                    not any(isinstance(q, ast.Starred) for q in t[0].elts + v.elts):
                # renamed to the targets: nothing to move
                for q, w in zip(t[0].elts, v.elts):
                    if ast.unparse(q) != ast.unparse(w):
                        out.append(ast.Assign(targets=[q], value=w))
            elif not (len(t) == 1 and ast.unparse(t[0]) == ast.unparse(v)):
                out.append(ast.Assign(targets=t, value=v))
        else:
            out.append(ast.Expr(value=v))
    elif isinstance(stmt, ast.Assign):
        out.append(ast.Assign(targets=stmt.targets, value=ast.Constant(value=None)))
    out = pre + out
    for x in out:
        ast.copy_location(x, stmt) if not hasattr(x, "lineno") else None
        ast.fix_missing_locations(x)
    return out


def is_lhs(x):
    if isinstance(x, ast.Attribute) and x.attr == "lhs":
        return True
    if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == 0 and isinstance(x.value, ast.Attribute) \
            and x.value.attr == "args":
        b = ast.unparse(x.value.value).split(".")[-1].lower()
        return "eq" in b or "pde" in b or "trend" in b
    return isinstance(x, ast.Name) and x.id in ("lhs", "left")


def deep(v, seen=0):
    """why the value, or something in it, depends on an arbitrary order"""
    if v is None or seen > 5:
        return None
    if v.dep:
        return v.dep
    for x in (v.items or ()) + (v.elem,):
        d = deep(x, seen + 1)
        if d:
            return d
    return None


def unordered(v, seen=0):
    """sequence, in v, in the order of a set"""
    if v is None or seen > 5:
        return None
    if v.kind in ("list", "tuple") and v.order and not v.num and not v.one:
        return v
    for x in (v.items or ()) + (v.elem,):
        d = unordered(x, seen + 1)
        if d:
            return d
    return None


def selects(t):
    """filter on a property of the element: which of several elements come first is all that may depend on the order"""
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and \
        any(isinstance(x, ast.Call) or isinstance(x, ast.Attribute) for x in [t.left] + t.comparators)


COMM_OPS = (ast.Add, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor)
COMM_CALLS = {"max", "min", "Add", "Mul", "Max", "Min", "And", "Or"}


def accumulated(s):
    """x = x + e, x = max(x, e), x = e if e > x else x: the name x, and the expressions e"""
    if len(s.targets) != 1 or not isinstance(s.targets[0], (ast.Name, ast.Attribute)):
        return None
    x, v = ast.unparse(s.targets[0]), s.value
    me = lambda n: ast.unparse(n) == x
    if isinstance(v, ast.BinOp) and isinstance(v.op, COMM_OPS):
        if me(v.left) != me(v.right):
            return [v.right if me(v.left) else v.left]
    if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)):
        n = v.func.id if isinstance(v.func, ast.Name) else v.func.attr
        if n in COMM_CALLS and not v.keywords and sum(me(a) for a in v.args) == 1 and len(v.args) > 1:
            return [a for a in v.args if not me(a)]
    if isinstance(v, ast.BoolOp) and sum(me(a) for a in v.values) == 1:
        rest = [a for a in v.values if not me(a)]
        if all(isinstance(a, (ast.Compare, ast.Call)) or isinstance(a, ast.UnaryOp) for a in rest):
            return rest
    if isinstance(v, ast.IfExp) and extremum(v.test, x):
        if me(v.body) != me(v.orelse):
            return [v.orelse if me(v.body) else v.body]
    return None


def extremum(test, x):
    """e > x, x < e"""
    return isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and \
        (ast.unparse(test.left) == x) != (ast.unparse(test.comparators[0]) == x)


def running_extremum(s):
    """if e > x: x = e   (the compared expression is the one which is kept)"""
    if len(s.body) != 1 or s.orelse or not isinstance(s.body[0], ast.Assign) or len(s.body[0].targets) != 1:
        return None
    a = s.body[0]
    x = ast.unparse(a.targets[0])
    if isinstance(a.targets[0], (ast.Name, ast.Attribute)) and extremum(s.test, x):
        sides = {ast.unparse(s.test.left), ast.unparse(s.test.comparators[0])}
        if ast.unparse(a.value) in sides:
            return a
    return None


def root_of(x):
    while isinstance(x, (ast.Call, ast.Attribute)):
        x = x.func if isinstance(x, ast.Call) else x.value
    return ast.unparse(x)


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return join(a, b)


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def walk_loop(body):
    for s in body:
        yield s
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            yield from walk_loop(getattr(s, f, []) or [])
        for h in getattr(s, "handlers", []) or []:
            yield from walk_loop(h.body)


def copy_load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t
