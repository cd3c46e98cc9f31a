"""Forward construction of a gated value graph (global value numbering over the syntax tree).

Every function body is turned, once per analysed entry point, into terms: joins become
phi nodes, loops over containers become comprehension-like summaries, callees of the
package are merged in.  Nothing of the analysed package is imported or run, no path is
enumerated and no solver is called; rules are then decided on the resulting graph.
"""
import ast
from . import terms as TT
from .terms import (T, mk, num, string, py, const, NONE, TRUE, FALSE, add, neg, sub as nsub, mul, power, div,
                    numval, subst, has_term, contains, walk)
from . import norm as N
from .norm import (coll, phi, not_, and_, or_, eq_, is_, lt_, in_, truthy, when, for_, sub_, len_, cat, tostr, concat,
                   recoll, MARK)
from .index import AnalysisBroken, FuncInfo, ClassInfo

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "add", "discard", "sort",
            "reverse", "setdefault", "fill", "resize", "put", "itemset", "difference_update", "intersection_update",
            "symmetric_difference_update", "popleft", "appendleft", "move_to_end"}
NP_FRESH = {"zeros", "zeros_like", "empty", "empty_like", "ones", "ones_like", "full", "full_like", "eye", "identity"}


class Effect:
    __slots__ = ("kind", "target", "key", "value", "pc", "loops", "node", "module", "func", "extra")

    def __init__(self, kind, target, key, value, st, node, ev, extra=None):
        self.kind, self.target, self.key, self.value = kind, target, key, value
        self.pc, self.loops, self.node, self.extra = st.pc, st.loops, node, extra
        fr = ev.stack[-1] if ev.stack else None
        self.func = fr.qual if fr else "<module>"
        self.module = fr.module if fr else None

    @property
    def where(self):
        rel = self.module.rel if self.module else "?"
        return f"{rel}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<{self.kind} {self.target} [{self.key}] = {self.value} @{self.where}>"


class State:
    __slots__ = ("env", "heap", "attrs", "pc", "loops")

    def __init__(self, env=None, heap=None, attrs=None, pc=(), loops=()):
        self.env, self.heap, self.attrs = env or {}, heap or {}, attrs or {}
        self.pc, self.loops = pc, loops

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.attrs), self.pc, self.loops)

    def assign(self, o):
        self.env, self.heap, self.attrs, self.pc, self.loops = o.env, o.heap, o.attrs, o.pc, o.loops

    def assume(self, c):
        if c is TRUE:
            return self
        cs = c.args if c.op == "and" else (c,)
        self.pc = self.pc + tuple(x for x in cs if x not in self.pc)
        return self


class Frame:
    def __init__(self, func, qual, module, cls=None):
        self.func, self.qual, self.module, self.cls = func, qual, module, cls
        self.returns, self.loops, self.yields = [], [], None


class Closure:
    def __init__(self, fi, env, cls):
        self.fi, self.env, self.cls = fi, env, cls


UNDEF = mk("undef")


def by_position(fi, args, kwargs, bound):
    """the arguments given by their name, when they can be given by their position"""
    a = fi.node.args
    ps = [x.arg for x in a.posonlyargs + a.args][1 if bound else 0:]
    if not kwargs or a.vararg or a.kwarg or any(x.op == "star" for x in args if isinstance(x, T)) or any(k is None or k not in ps for k in kwargs):
        return args, kwargs
    args, kwargs = list(args), dict(kwargs)
    while len(args) < len(ps) and ps[len(args)] in kwargs:
        args.append(kwargs.pop(ps[len(args)]))
    return args, kwargs


class Interp:
    def __init__(self, pkg, opaque=(), inline_depth=14, self_facts=None):
        self.pkg = pkg
        self.opaque = set(opaque)
        self.effects = []
        self.stack = []
        self.nref = 0
        self.closures = {}
        self.whiles = {}
        self.nexts = {}          # value of a loop-carried term at the end of the iteration
        self.silent = 0
        self.site = {}
        self.depth = inline_depth
        self.mod_cache = {}
        self.visited = set()
        self.refkind = {}
        self.pops = {}
        self.itpos = {}
        self.attr_hook = None
        self.call_log = []
        self.ntry = 0

    # ------------------------------------------------------------ utilities
    def eff(self, kind, target, key, value, st, node, extra=None):
        if not self.silent:
            self.effects.append(Effect(kind, target, key, value, st, node, self, extra))

    def new_ref(self, st, content):
        self.nref += 1
        r = mk("ref", self.nref)
        st.heap[r] = content
        return r

    def fz(self, t, st):
        """freeze: replace references by their current content"""
        memo = {}
        busy = set()

        def f(x):
            if x in memo:
                return memo[x]
            if x.op == "ref":
                if x in busy or x not in st.heap:
                    return x
                busy.add(x)
                y = f(st.heap[x])
                busy.discard(x)
            elif not TT.has_op(x, "ref"):
                y = x
            else:
                y = TT.rebuild(x, f)
            memo[x] = y
            return y
        if not TT.has_op(t, "ref"):
            return t
        return f(t)

    def content(self, t, st):
        k = 0
        while t.op == "ref" and t in st.heap and k < 20:
            t = st.heap[t]
            k += 1
        return t

    def note(self, t, node):
        if t not in self.site and self.stack:
            self.site[t] = (self.stack[-1].module.rel, getattr(node, "lineno", 0), self.stack[-1].qual)
        return t

    def where(self, t):
        s = self.site.get(t)
        return f"{s[0]}:{s[1]} ({s[2]})" if s else "?"

    # -------------------------------------------------------------- merging
    def merge(self, states):
        """states: list of (State, value or None), in order; pairwise complementary path conditions"""
        states = [s for s in states if s[0] is not None]
        if not states:
            return None, None
        acc, av = states[-1]
        acc = acc.copy()
        for s, v in reversed(states[:-1]):
            i = 0
            while i < len(s.pc) and i < len(acc.pc) and s.pc[i] is acc.pc[i]:
                i += 1
            rest_a, rest_b = s.pc[i:], acc.pc[i:]
            # the discriminating condition: first complementary pair if there is one
            c = None
            neg_b = {not_(x) for x in rest_b}
            conj = [x for x in rest_a]
            if len(rest_a) >= 1 and all(True for _ in conj):
                c = and_(*conj)
                # drop facts that hold on both sides
                both = set(rest_a) & set(rest_b)
                if both:
                    c = and_(*[x for x in conj if x not in both])
            if c is None or c is TRUE:
                c = not_(and_(*rest_b)) if rest_b else mk("nondet", num(i))
            common = list(s.pc[:i])
            common += [x for x in rest_a if x in rest_b]
            out = State(pc=tuple(common), loops=s.loops)
            for name in set(s.env) | set(acc.env):
                a, b = s.env.get(name, UNDEF), acc.env.get(name, UNDEF)
                out.env[name] = self.merge_val(c, a, b, s, acc)
            for r in set(s.heap) | set(acc.heap):
                if r not in s.heap:
                    out.heap[r] = acc.heap[r]
                elif r not in acc.heap:
                    out.heap[r] = s.heap[r]
                else:
                    out.heap[r] = phi(c, s.heap[r], acc.heap[r])
            for k in set(s.attrs) | set(acc.attrs):
                a, b = s.attrs.get(k), acc.attrs.get(k)
                if a is None:
                    a = mk("attr", k[0], k[1])
                if b is None:
                    b = mk("attr", k[0], k[1])
                out.attrs[k] = self.merge_val(c, a, b, s, acc)
            if v is not None or av is not None:
                av = self.merge_val(c, v or NONE, av or NONE, s, acc)
            acc = out
            if av is not None and av.op == "ref" and av not in acc.heap:
                pass
            pend = getattr(self, "_pend", None)
            if pend:
                acc.heap.update(pend)
                self._pend = None
        return acc, av

    def merge_val(self, c, a, b, sa, sb):
        if a is b:
            return a
        # two different references: a new reference with merged content
        if a.op == "ref" and b.op == "ref":
            ca, cb = sa.heap.get(a), sb.heap.get(b)
            if ca is not None and cb is not None:
                v = phi(c, ca, cb)
                if v.op == "coll":
                    self.nref += 1
                    r = mk("ref", self.nref)
                    if getattr(self, "_pend", None) is None:
                        self._pend = {}
                    self._pend[r] = v
                    return r
                return v
        if a.op == "ref" and b is not UNDEF:
            a = self.fz(a, sa)
        if b.op == "ref" and a is not UNDEF:
            b = self.fz(b, sb)
        if a is UNDEF:
            return b if b.op != "undef" else b
        if b is UNDEF:
            return a
        return phi(c, a, b)

    def branch(self, st, cond, ft, ff):
        """evaluate ft / ff under cond; returns merged value, st updated in place"""
        d = N.decide(cond, set(st.pc))
        if d is True:
            return ft(st)
        if d is False:
            return ff(st)
        a = st.copy().assume(cond)
        va = ft(a)
        b = st.copy().assume(not_(cond))
        vb = ff(b)
        m, v = self.merge([(a, va), (b, vb)])
        st.assign(m)
        return v

    # ------------------------------------------------------------ functions
    def run_function(self, fi, args=None, self_obj=None, st=None, kwargs=None):
        """evaluate a function with free parameters (or the given ones): (value, state)"""
        st = st or State()
        node = fi.node
        params = [a.arg for a in node.args.posonlyargs + node.args.args]
        env = {}
        if fi.cls is not None and not fi.is_static and params:
            if self_obj is None:
                self_obj = mk("global", fi.cls.qual) if fi.is_class else mk("self", fi.cls.qual)
            env[params[0]] = self_obj
        for p in params + [a.arg for a in node.args.kwonlyargs]:
            if p not in env:
                env[p] = (args or {}).get(p) or mk("param", p)
        if node.args.vararg:
            env[node.args.vararg.arg] = (args or {}).get(node.args.vararg.arg) or mk("param", "*" + node.args.vararg.arg)
        if node.args.kwarg:
            env[node.args.kwarg.arg] = (args or {}).get(node.args.kwarg.arg) or mk("param", "**" + node.args.kwarg.arg)
        return self.exec_function(fi, env, st, fi.cls)

    def exec_function(self, fi, env, st, cls, outer_env=None):
        self.visited.add(fi.qual)
        fr = Frame(fi, fi.qual, fi.module, cls)
        self.stack.append(fr)
        saved_env = st.env
        s = State(env, st.heap, st.attrs, st.pc, st.loops).copy()
        s.env["__outer__"] = outer_env
        base_pc = st.pc
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, s)
                out, val = s, v
            else:
                if fi.is_gen:
                    fr.yields = self.new_ref(s, coll("list"))
                end = self.block(fi.node.body, s, fr)
                outs = list(fr.returns)
                if end is not None:
                    outs.append((end, NONE))
                for o, _ in outs:
                    o.env = {}
                out, val = self.merge(outs)
                if fi.is_gen and out is not None:
                    val = fr.yields
        finally:
            self.stack.pop()
        if out is None:
            st.pc = st.pc + (mk("never"),)
            return mk("noreturn"), st
        st.env = saved_env
        st.heap, st.attrs, st.pc = out.heap, out.attrs, out.pc
        return (val if val is not None else NONE), st

    def bind(self, fi, args, kwargs, st, bound=None):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if bound is not None:
            args.insert(0, bound)
        pos = 0
        star = None
        for k, v in enumerate(args):
            if v.op == "star":
                star = (v.args[0], k)
                break
        plain = args if star is None else args[:star[1]]
        for v in plain:
            if pos < len(names):
                env[names[pos]] = v
                pos += 1
            else:
                break
        extra = plain[pos:]
        kw = dict(kwargs)
        dstar = kw.pop(None, None)
        for n in list(kw):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                env[n] = kw.pop(n)
        if star is not None:
            j = 0
            nd = len(a.defaults)
            req = len(names) - nd
            while pos < len(names) and (pos < req or (not a.vararg)):
                if names[pos] not in env:
                    if pos >= req:
                        break
                    env[names[pos]] = sub_(star[0], num(j))
                    j += 1
                pos += 1
            extra = [mk("splat", star[0])] if j == 0 else [mk("splat", sub_(star[0], N.slice_(num(j), NONE, NONE)))]
        if a.vararg:
            env[a.vararg.arg] = coll("tuple", *extra)
        if a.kwarg:
            parts = [mk("kv", string(k), v) for k, v in kw.items()]
            if dstar is not None:
                parts.insert(0, mk("splat", dstar))
            env[a.kwarg.arg] = coll("dict", *parts)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if dstar is not None and n not in defaults:
                    env[n] = sub_(dstar, string(n))
                elif n in defaults:
                    env[n] = self.eval_default(fi, defaults[n])
                else:
                    env[n] = mk("missing", n)
        return env

    def eval_default(self, fi, node):
        fr = Frame(fi, fi.qual, fi.module, fi.cls)
        self.stack.append(fr)
        try:
            return self.eval(node, State({"__outer__": None}))
        finally:
            self.stack.pop()

    # ----------------------------------------------------------- statements
    def block(self, body, st, fr):
        for node in body:
            st = self.stmt(node, st, fr)
            if st is None:
                return None
            if st.pc and st.pc[-1].op == "never":
                return None
        return st

    def stmt(self, node, st, fr):
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported statement {type(node).__name__} at {fr.module.rel}:{node.lineno}")
        return m(node, st, fr)

    def s_Expr(self, node, st, fr):
        self.eval(node.value, st)
        return st

    def s_Pass(self, node, st, fr):
        return st

    def s_Global(self, node, st, fr):
        return st
    s_Nonlocal = s_Global

    def s_Import(self, node, st, fr):
        for a in node.names:
            if a.asname:
                st.env[a.asname] = self.global_qual(a.name)
            else:
                st.env[a.name.split(".")[0]] = self.global_qual(a.name.split(".")[0])
        return st

    def s_ImportFrom(self, node, st, fr):
        base = fr.module.abs_from(node)
        for a in node.names:
            if a.name == "*":
                for n in self.pkg.exports(base):
                    r = self.pkg.resolve(base, n)
                    if r:
                        st.env[n] = self.from_resolved(r)
                continue
            q = f"{base}.{a.name}"
            r = self.pkg.resolve_qual(q)
            st.env[a.asname or a.name] = self.from_resolved(r) if r else mk("global", q)
        return st

    def s_Assign(self, node, st, fr):
        v = self.eval(node.value, st)
        for t in node.targets:
            self.store(t, v, st, node)
        return st

    def s_AnnAssign(self, node, st, fr):
        if node.value is not None:
            self.store(node.target, self.eval(node.value, st), st, node)
        return st

    def s_AugAssign(self, node, st, fr):
        t = node.target
        opn = type(node.op).__name__
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(t.id, ast.Load(), lineno=node.lineno, col_offset=0), st)
            rhs = self.eval(node.value, st)
            c = self.content(old, st)
            if old.op == "ref" and c.op == "coll" and opn in ("Add", "BitOr"):
                st.heap[old] = self.cat_content(c, self.content(rhs, st), opn, st)
                return st
            if old.op == "ref" and c.op != "coll":
                st.heap[old] = self.binop(opn, c, self.fz(rhs, st))
                return st
            fo = self.fz(old, st)
            self.eff("aug", fo, None, self.fz(rhs, st), st, node, extra=opn)
            st.env[t.id] = self.binop(opn, fo, self.fz(rhs, st))
            return st
        old = self.eval_target_load(t, st)
        rhs = self.eval(node.value, st)
        c = self.content(old, st)
        if old.op == "ref" and c.op == "coll" and opn in ("Add", "BitOr"):
            st.heap[old] = self.cat_content(c, self.content(rhs, st), opn, st)
            return st
        if isinstance(t, ast.Subscript) and opn == "Add" and self.fz(rhs, st).op == "coll":
            base = self.eval(t.value, st)
            key = self.fz(self.eval(t.slice, st), st)
            if base.op == "ref":
                st.heap[base] = coll(self.content(base, st).args[0] if self.content(base, st).op == "coll" else "dict",
                                     mk("splat", self.content(base, st)), mk("app", key, self.fz(rhs, st)))
                return st
        self.eff("aug", self.fz(old, st), None, self.fz(rhs, st), st, node, extra=opn)
        self.store(t, self.binop(opn, self.fz(old, st), self.fz(rhs, st)), st, node)
        return st

    def cat_content(self, a, b, opn, st):
        b = self.fz(b, st)
        if a.args[0] == "dict":
            return coll("dict", *a.args[1], mk("splat", N.to_dict(b)))
        return coll(a.args[0], *a.args[1], mk("splat", self.as_iterable(b, st)))

    def eval_target_load(self, t, st):
        n = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields if f != "ctx"}, ctx=ast.Load()), t)
        return self.eval(n, st)

    def store(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.content(v, st)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - k - 1
                for j, e in enumerate(t.elts):
                    if j < k:
                        self.store(e, sub_(c, num(j)), st, node)
                    elif j == k:
                        hi = NONE if after == 0 else num(-after)
                        self.store(e.value, sub_(c, N.slice_(num(k), hi, NONE)), st, node)
                    else:
                        self.store(e, sub_(c, num(j - len(t.elts))), st, node)
                return
            for j, e in enumerate(t.elts):
                self.store(e, sub_(c, num(j)), st, node)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, st, node)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            o = self.fz(o, st) if o.op == "ref" else o
            cls = self.class_of(o)
            if cls is not None:
                sm = self.pkg.find_method(cls, "__setter__" + t.attr)
                if sm is not None:
                    self.call_func(sm, [v], {}, st, node, bound=o)
                    return
            self.eff("attr", o, t.attr, self.fz(v, st), st, node, extra=v)
            st.attrs[(o, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            key = self.fz(self.eval(t.slice, st), st)
            self.setitem(o, key, v, st, node)
        else:
            raise AnalysisBroken(f"unsupported assignment target {type(t).__name__}")

    def setitem(self, o, key, v, st, node):
        if o.op == "ref" and o in st.heap:
            c = st.heap[o]
            if c.op == "coll" and c.args[0] == "dict":
                # D[k] = D[k] + [..]  is an append at k
                fv = self.content(v, st)
                st.heap[o] = coll("dict", *c.args[1], mk("kv", key, v))
                return
            k = numval(key)
            if c.op == "coll" and k is not None and all(p.op not in MARK for p in c.args[1]) and \
                    -len(c.args[1]) <= k < len(c.args[1]):
                l = list(c.args[1])
                l[int(k)] = v
                st.heap[o] = coll(c.args[0], *l)
                return
            st.heap[o] = mk("setitem", c, key, self.fz(v, st))
            return
        fo = self.fz(o, st)
        self.eff("sub", fo, key, self.fz(v, st), st, node, extra=v)

    def s_Return(self, node, st, fr):
        v = NONE if node.value is None else self.eval(node.value, st)
        fr.returns.append((st, v))
        return None

    def s_Raise(self, node, st, fr):
        v = NONE if node.exc is None else self.fz(self.eval(node.exc, st), st)
        self.eff("raise", v, None, None, st, node)
        return None

    def s_Assert(self, node, st, fr):
        c = truthy(self.fz(self.eval(node.test, st), st))
        d = N.decide(c, set(st.pc))
        if d is True:
            return st
        s2 = st.copy().assume(not_(c))
        self.eff("raise", mk("global", "builtins.AssertionError"), "assert", None, s2, node)
        if d is False:
            return None
        return st.assume(c)

    def s_Delete(self, node, st, fr):
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.fz(self.eval(t.slice, st), st)
                if o.op == "ref":
                    st.heap[o] = mk("delitem", self.content(o, st), k)
                else:
                    self.eff("mut", self.fz(o, st), "__delitem__", k, st, node)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_FunctionDef(self, node, st, fr):
        fi = FuncInfo(node, fr.module)
        fi.qual = f"{fr.qual}.<locals>.{node.name}"
        st.env[node.name] = self.make_closure(fi, st, fr.cls)
        return st

    def s_ClassDef(self, node, st, fr):
        st.env[node.name] = mk("localclass", node.name)
        return st

    def make_closure(self, fi, st, cls):
        env = st.env
        key = mk("closure", len(self.closures))
        self.closures[key] = Closure(fi, env, cls)
        return key

    def s_If(self, node, st, fr):
        c = truthy(self.fz(self.eval(node.test, st), st))
        d = N.decide(c, set(st.pc))
        if d is True:
            return self.block(node.body, st, fr)
        if d is False:
            return self.block(node.orelse, st, fr)
        a = self.block(node.body, st.copy().assume(c), fr)
        b = self.block(node.orelse, st.copy().assume(not_(c)), fr)
        if a is None:
            return b
        if b is None:
            return a
        m, _ = self.merge([(a, None), (b, None)])
        return m

    def s_With(self, node, st, fr):
        for it in node.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, st, node)
        return self.block(node.body, st, fr)

    def s_Try(self, node, st, fr):
        self.ntry += 1
        nret = len(fr.returns)
        pre = st.copy()
        exc = mk("exc", mk("trysite", fr.qual, string(ast.unparse(node.body[0])[:60])))
        body_st = st.copy().assume(not_(exc))
        end = self.block(node.body + node.orelse, body_st, fr)
        outs = []
        ends = []
        for h in node.handlers:
            hs = pre.copy().assume(exc)
            if h.name:
                hs.env[h.name] = mk("excvalue", exc)
            # state changes of the body may be partial: keep the pre state
            e = self.block(h.body, hs, fr)
            if e is not None:
                ends.append(e)
        outs = [(e, None) for e in ([end] if end is not None else []) + ends]
        if not outs:
            return None
        if len(outs) == 1:
            res = outs[0][0]
        else:
            res, _ = self.merge(outs)
        if node.finalbody:
            res = self.block(node.finalbody, res, fr)
        return res
    s_TryStar = s_Try

    def s_Break(self, node, st, fr):
        fr.loops[-1]["breaks"].append(st)
        return None

    def s_Continue(self, node, st, fr):
        fr.loops[-1]["continues"].append(st)
        return None

    # ---------------------------------------------------------------- loops
    def s_For(self, node, st, fr):
        it = self.eval(node.iter, st)

        def body(s, elem):
            self.store(node.target, elem, s, node)
            return self.block(node.body, s, fr)
        res = self.iterate(st, it, body, fr, node)
        if res is not None and node.orelse:
            res = self.block(node.orelse, res, fr)
        return res
    s_AsyncFor = s_For

    def as_iterable(self, x, st):
        x = self.content(x, st)
        if x.op == "coll" and x.args[0] == "dict":
            return N.keys_of(x, "list") if not N.has_app(x) else N.keys_of(x, "list")
        if x.op in ("self", "obj"):
            cls = self.class_of(x)
            m = self.pkg.find_method(cls, "__iter__") if cls is not None else None
            if m is not None and m.name not in self.opaque and not any(f.func is m for f in self.stack):
                return self.as_iterable(self.call_func(m, [], {}, st, None, bound=x), st)
        return x

    def run_body(self, st, elem, body, fr):
        """one iteration: returns (next state or None, break states)"""
        fr.loops.append({"breaks": [], "continues": []})
        try:
            end = body(st, elem)
        finally:
            rec = fr.loops.pop()
        outs = [(s, None) for s in rec["continues"]]
        if end is not None:
            outs.append((end, None))
        if not outs:
            nxt = None
        elif len(outs) == 1:
            nxt = outs[0][0]
        else:
            nxt, _ = self.merge(outs)
        return nxt, rec["breaks"]

    def iterate(self, st, it, body, fr, node):
        it0 = it
        X = self.as_iterable(it, st)
        if X.op == "iterobj":
            c = st.heap.get(X, X)
        breaks = []
        res = self.iter_parts(st, self.parts_of(X, st), body, fr, node, breaks)
        outs = [(b, None) for b in breaks]
        if res is not None:
            outs.append((res, None))
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0][0]
        m, _ = self.merge(outs)
        return m

    def parts_of(self, X, st):
        if X.op == "coll":
            return list(X.args[1])
        if X.op == "rangeT":
            a, b, s = [numval(x) for x in X.args]
            if None not in (a, b, s) and s != 0:
                r = range(int(a), int(b), int(s))
                if len(r) <= 24:
                    return [num(i) for i in r]
        if X.op == "str" and len(X.args[0]) <= 24:
            return [string(c) for c in X.args[0]]
        if X.op == "zip":
            cs = [self.as_iterable(y, st) for y in X.args]
            if all(c.op == "coll" and all(p.op not in MARK for p in c.args[1]) for c in cs):
                return [coll("tuple", *t) for t in zip(*[c.args[1] for c in cs])]
        if X.op == "enum":
            c = self.as_iterable(X.args[0], st)
            if c.op == "coll" and all(p.op not in MARK for p in c.args[1]):
                return [coll("tuple", add(num(i), X.args[1]), e) for i, e in enumerate(c.args[1])]
            if c.op == "coll" and len(c.args[1]) == 1 and c.args[1][0].op == "for" and \
                    len(c.args[1][0].args[1]) == 1 and c.args[1][0].args[1][0].op not in MARK:
                p = c.args[1][0]
                return [mk("for", p.args[0], (coll("tuple", add(p.args[0], X.args[1]), p.args[1][0]),))]
        if X.op == "zip":
            cs = [self.as_iterable(y, st) for y in X.args]
            X = mk("zip", *cs)
        if X.op == "reversedT":
            c = self.as_iterable(X.args[0], st)
            if c.op == "coll" and all(p.op not in MARK for p in c.args[1]):
                return list(reversed(c.args[1]))
        if X.op == "phi" and (X.args[1].op == "coll" or X.args[2].op == "coll"):
            return [when(X.args[0], tuple(self.parts_of(X.args[1], st))),
                    when(not_(X.args[0]), tuple(self.parts_of(X.args[2], st)))]
        return [mk("splat", X)]

    def iter_parts(self, st, parts, body, fr, node, breaks):
        for p in parts:
            if st is None:
                return None
            if p.op == "splat":
                X = p.args[0]
                if X.op in ("zip", "rangeT", "enum", "reversedT") or (X.op == "phi"):
                    q = self.parts_of(X, st)
                    if not (len(q) == 1 and q[0].op == "splat"):
                        st = self.iter_parts(st, q, body, fr, node, breaks)
                        continue
                n = len_(X)
                st = self.loop(st, n, None, lambda ix: (sub_(X, ix),), body, fr, node, breaks)
            elif p.op == "for":
                ix0, ps = p.args
                st = self.loop(st, ix0.args[0], ix0, lambda ix, ps=ps, ix0=ix0: tuple(
                    subst(q, {ix0: ix}) for q in ps), body, fr, node, breaks)
            elif p.op == "when":
                c = p.args[0]
                a = self.iter_parts(st.copy().assume(c), p.args[1], body, fr, node, breaks)
                b = st.copy().assume(not_(c))
                if a is None:
                    st = b
                else:
                    st, _ = self.merge([(a, None), (b, None)])
            elif p.op == "app":
                continue
            else:
                st, br = self.run_body(st, p, body, fr)
                breaks.extend(br)
        return st

    def loop(self, st, n, ix0, elems, body, fr, node, breaks_out):
        """summarised loop: i ranges over 0..n-1"""
        nv = numval(n)
        if nv is not None and nv <= 0:
            return st
        if nv is not None and nv <= 12 and nv.denominator == 1:
            for i in range(int(nv)):
                st = self.iter_parts(st, elems(num(i)), body, fr, node, breaks_out)
                if st is None:
                    return None
            return st
        level = sum(1 for l in st.loops if l.args[0] is n)
        ix = mk("ix", n, level)
        base = st.copy()
        inloop = mk("lt", mk("ixlow", ix), n)

        def start(vals):
            s = base.copy()
            s.loops = s.loops + (ix,)
            for k, v in vals.items():
                self.put(s, k, v)
            return s

        def once(vals):
            s = start(vals)
            br = []
            nret = len(fr.returns)
            end = self.iter_parts(s, elems(ix), body, fr, node, br)
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            return end, br, rets

        changed = {}
        carries = {}
        self.silent += 1
        nclo = len(self.closures)
        for _ in range(6):
            end, br, rets = once(carries)
            new = {}
            ends = [e for e in [end] + br if e is not None]
            for e in ends:
                for k, v in self.diff(base, e, carries):
                    if k not in carries:
                        new[k] = v
            if not new:
                break
            for k in sorted(new, key=lambda q: (q[0], str(q[1]))):
                init = self.get(base, k)
                c = mk("carry", ix, self.fz(init, base), sum(
                    1 for q in carries.values() if self.carry_of(q).args[1] is self.fz(init, base)))
                if init.op == "coll" and k[0] == "h":
                    carries[k] = coll(init.args[0], mk("splat", c))
                else:
                    carries[k] = c
        # simple recurrences
        solved = dict(carries)
        for _ in range(4):
            again = False
            end, br, rets = once(solved)
            if end is None:
                break
            for k, c in carries.items():
                if solved[k] is not c or self.carry_of(c) is None:
                    continue
                nx = self.fz(self.get(end, k), end) if k[0] != "h" else self.get(end, k)
                s = self.solve(ix, c, self.fz(self.get(base, k), base), nx, br)
                if s is not None:
                    solved[k] = s
                    again = True
            if not again:
                break
        self.silent -= 1
        end, br, rets = once(solved)
        cond_stop = FALSE
        npc = len(base.pc)
        # conditions under which the loop stops early
        stops = []
        for b in br:
            stops.append((and_(*b.pc[npc:]), b, "break", None))
        for r, v in rets:
            stops.append((and_(*r.pc[npc:]), r, "return", v))
        any_stop = or_(*[c for c, *_ in stops]) if stops else FALSE
        out = base.copy()
        facts = []
        if end is not None:
            facts = [c for c in end.pc[npc:]]
        for k in carries:
            init = self.get(base, k)
            if end is None:
                continue
            nx = self.get(end, k)
            if self.carry_of(carries[k]) is not None:
                self.nexts[self.carry_of(carries[k])] = self.fz(nx, end)
            self.put(out, k, self.final(ix, n, carries[k], solved[k], init, nx, end, base, k, any_stop))
        if end is not None:
            for name, v in end.env.items():
                if name not in base.env and name != "__outer__":
                    out.env[name] = mk("lastof", ix, self.fz(v, end))
            for r, v in end.heap.items():
                if r not in base.heap:
                    out.heap[r] = v
            for ak, v in end.attrs.items():
                if ak not in base.attrs and ("a", ak) not in carries:
                    # an object of an iteration keeps what its own iteration gave it
                    own = isinstance(ak[0], T) and ak[0].op == "obj" and has_term(ak[0], ix)
                    out.attrs[ak] = v if own else mk("lastof", ix, self.fz(v, end))
        # facts that hold for every iteration after the loop (a raise in the body was not taken)
        for f in facts:
            if not TT.has_op(f, "carry"):
                g = not_(N.exists(ix, not_(f))) if has_term(f, ix) else None
                if g is not None and not stops:
                    out.assume(g)
        for c, s, kind, v in stops:
            ex = N.exists(ix, c) if not TT.has_op(c, "carry") else mk("exists", ix, c)
            so = base.copy().assume(ex)
            at = {ix: num(0)} if c is TRUE else None
            if at is not None:
                # the first iteration always stops: its values are those of the first element
                for k in carries:
                    cv = self.carry_of(carries[k])
                    if cv is not None:
                        at[cv] = self.fz(self.get(base, k), base)

            def first(q):
                if at is None:
                    return mk("first", ix, c, q)
                return subst(q, at)
            for k in carries:
                self.put(so, k, first(self.fz(self.get(s, k), s)))
            if kind == "break":
                for name, val in s.env.items():
                    if name not in base.env and name != "__outer__":
                        so.env[name] = first(self.fz(val, s))
                breaks_out.append(so)
            else:
                fv = self.fz(v, s)
                fr.returns.append((so, first(fv) if has_term(fv, ix) or contains(
                    fv, lambda q: q.op == "carry") else fv))
            out.assume(not_(ex))
        if end is None and stops and any_stop is not TRUE:
            pass
        return out

    def carry_of(self, v):
        if v.op == "carry":
            return v
        if v.op == "coll" and v.args[1] and v.args[1][0].op == "splat" and v.args[1][0].args[0].op == "carry":
            return v.args[1][0].args[0]
        return None

    def diff(self, base, e, carries):
        for name, v in e.env.items():
            if name == "__outer__":
                continue
            if name in base.env:
                ref = carries.get(("e", name), base.env[name])
                if v is not ref:
                    yield ("e", name), v
        for r, v in e.heap.items():
            if r in base.heap:
                ref = carries.get(("h", r), base.heap[r])
                if v is not ref:
                    yield ("h", r), v
        for k, v in e.attrs.items():
            ref = carries.get(("a", k), base.attrs.get(k))
            if ref is None:
                # attribute first written inside the loop: state carried through the object
                continue
            if v is not ref:
                yield ("a", k), v

    def get(self, s, k):
        if k[0] == "e":
            return s.env.get(k[1], UNDEF)
        if k[0] == "h":
            return s.heap[k[1]]
        return s.attrs.get(k[1], mk("attr", k[1][0], k[1][1]))

    def put(self, s, k, v):
        if k[0] == "e":
            s.env[k[1]] = v
        elif k[0] == "h":
            s.heap[k[1]] = v
        else:
            s.attrs[k[1]] = v

    def solve(self, ix, c, init, nx, br):
        """closed form of a loop-carried value at iteration ix, or None"""
        cc = self.carry_of(c)
        if c.op == "coll" or nx.op == "coll":
            return None
        if nx is c:
            return init if False else None
        if not TT.has_op(nx, "carry"):
            # shift register: value at i is g(i) when the next value is g(i+1) and the first g(0)
            if has_term(nx, ix):
                g = subst(nx, {ix: nsub(ix, num(1))})
                if subst(g, {ix: num(0)}) is init:
                    return g
            elif nx is init:
                return init
            return None
        if nx.op in ("poly", "num") or c.op == "carry":
            if N.is_strish(nx) or nx.op in ("call", "phi", "sub", "attr", "setitem", "fold"):
                return None
            d = nsub(nx, c)
            if not TT.has_op(d, "carry") and not has_term(d, ix) and d.op in ("num", "poly", "param",
                                                                                                  "attr", "len"):
                return add(init, mul(ix, d))
        return None

    def final(self, ix, n, c, solved, init, nx, end, base, k, any_stop):
        cc = self.carry_of(c)
        finit = self.fz(init, base)
        if solved is not c:
            if any_stop is not FALSE:
                return mk("atstop", ix, any_stop, self.fz(solved, end), self.fz(subst(solved, {ix: n}), end))
            return subst(solved, {ix: n})
        # accumulation in a container
        if nx.op == "coll" and c.op == "coll" and nx.args[1] and nx.args[1][0] is c.args[1][0]:
            rest = [self.fz(p, end) for p in nx.args[1][1:]]
            rest = self.fold_apps(rest, cc)
            if not any(has_term(p, cc) for p in rest):
                if any_stop is not FALSE:
                    return coll(nx.args[0], *init.args[1], mk("splat", mk("takewhile", ix, any_stop,
                                                                          coll(nx.args[0], for_(ix, rest)))))
                return coll(nx.args[0], *init.args[1], for_(ix, rest))
            # if x not in acc: acc.append(x)
            if len(rest) == 1 and rest[0].op == "when" and len(rest[0].args[1]) == 1:
                x = rest[0].args[1][0]
                g = rest[0].args[0]
                gs = list(g.args) if g.op == "and" else [g]
                test = not_(mk("in", x, cc))
                if test in gs and not has_term(x, cc) and not init.args[1]:
                    other = [q for q in gs if q is not test]
                    if not any(has_term(q, cc) for q in other):
                        body = (x,) if not other else (when(and_(*other), (x,)),)
                        return coll(nx.args[0], mk("splat", mk("uniq", coll("list", for_(ix, body)))))
        fn = self.fz(nx, end)
        if fn is c:
            return init
        if not has_term(fn, cc) and any_stop is FALSE:
            return mk("lastof", ix, fn, finit)
        if any_stop is FALSE and c.op == "carry":
            # flags
            if fn.op == "phi" and fn.args[2] is c and not has_term(fn.args[0], c):
                if fn.args[1] is TRUE and finit is FALSE:
                    return N.exists(ix, fn.args[0])
                if fn.args[1] is FALSE and finit is TRUE:
                    return not_(N.exists(ix, fn.args[0]))
            if fn.op == "phi" and fn.args[1] is c and not has_term(fn.args[0], c):
                if fn.args[2] is TRUE and finit is FALSE:
                    return N.exists(ix, not_(fn.args[0]))
                if fn.args[2] is FALSE and finit is TRUE:
                    return not_(N.exists(ix, not_(fn.args[0])))
            if fn.op in ("not", "and"):
                r = self.bool_acc(fn, c, finit, ix)
                if r is not None:
                    return r
            # running sum
            if fn.op == "poly":
                d = nsub(fn, c)
                if not has_term(d, c):
                    return add(finit, mk("sumover", ix, d))
                q = div(fn, c)
                if not has_term(q, c):
                    return mul(finit, mk("prodover", ix, q))
            if fn.op == "max" and c in fn.args:
                e = [x for x in fn.args if x is not c]
                if len(e) == 1 and not has_term(e[0], c):
                    return mk("maxover", ix, e[0], finit)
            if fn.op == "cat" and fn.args[0] is c and not any(has_term(x, c) for x in fn.args[1:]):
                return cat(finit, mk("join", string(""), coll("list", for_(ix, (cat(*fn.args[1:]),)))))
            if N.is_strish(finit) and fn.op == "cat" and fn.args[0].op == "tostr" and fn.args[0].args[0] is c:
                return cat(finit, mk("join", string(""), coll("list", for_(ix, (cat(*fn.args[1:]),)))))
            # array filled element by element
            if fn.op == "setitem" and fn.args[0] is c and not has_term(fn.args[1], c) and not has_term(fn.args[2], c):
                return mk("fillarr", finit, ix, fn.args[1], fn.args[2])
        return mk("fold", ix, cc, finit, fn) if any_stop is FALSE else mk("foldstop", ix, cc, finit, fn, any_stop)

    def bool_acc(self, fn, c, init, ix):
        # acc = acc and p  /  acc = acc or p
        tc = mk("truth", c)
        if fn.op == "and":
            rest = [x for x in fn.args if x is not tc and x is not c]
            if len(rest) < len(fn.args) and not any(has_term(x, c) for x in rest) and init is TRUE:
                return not_(N.exists(ix, not_(and_(*rest))))
        if fn.op == "not" and fn.args[0].op == "and":
            rest = [x for x in fn.args[0].args if x is not not_(tc) and x is not not_(c)]
            if len(rest) < len(fn.args[0].args) and not any(has_term(x, c) for x in rest) and init is FALSE:
                return N.exists(ix, not_(and_(*rest)))
        return None

    def fold_apps(self, parts, cc):
        """when(k not in acc, acc[k] = []) followed by append at k  ->  append at k"""
        out = []
        i = 0
        while i < len(parts):
            p = parts[i]
            if p.op == "when" and len(p.args[1]) == 1 and p.args[1][0].op == "kv" and i + 1 < len(parts):
                k, v = p.args[1][0].args
                q = parts[i + 1]
                test = p.args[0]
                if v.op == "coll" and not v.args[1] and q.op == "app" and q.args[0] is k and \
                        test is not_(mk("in", k, cc)):
                    out.append(q)
                    i += 2
                    continue
                # if k in acc: acc[k].append(x) else: acc[k] = [x]
                if q.op == "when" and len(q.args[1]) == 1 and q.args[0] is not_(p.args[0]):
                    for a, b in ((p, q), (q, p)):
                        if a.args[1][0].op == "app" and b.args[1][0].op == "kv" and a.args[0] is mk("in", k, cc) \
                                and a.args[1][0].args[0] is b.args[1][0].args[0] \
                                and a.args[1][0].args[1] is b.args[1][0].args[1]:
                            out.append(a.args[1][0])
                            break
                    else:
                        out.append(p)
                        i += 1
                        continue
                    i += 2
                    continue
            if p.op == "when" and len(p.args[1]) == 1 and p.args[1][0].op == "app" and i + 1 < len(parts):
                q = parts[i + 1]
                k = p.args[1][0].args[0]
                if q.op == "when" and len(q.args[1]) == 1 and q.args[1][0].op == "kv" and q.args[0] is not_(p.args[0]) \
                        and p.args[0] is mk("in", k, cc) and q.args[1][0].args[0] is k \
                        and q.args[1][0].args[1] is p.args[1][0].args[1]:
                    out.append(p.args[1][0])
                    i += 2
                    continue
            if p.op == "kv" and p.args[1].op == "coll" and p.args[1].args[0] in ("list",) and p.args[1].args[1]:
                k = p.args[0]
                h = p.args[1].args[1][0]
                prev = mk("sub", cc, k)
                # acc[k] = acc.get(k, []) + [..]
                if h.op == "splat" and h.args[0] in (prev, mk("dictget", cc, k, coll("list"))):
                    out.append(mk("app", k, coll("list", *p.args[1].args[1][1:])))
                    i += 1
                    continue
            out.append(p)
            i += 1
        return out

    INVERSE = {ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}

    def tested_first(self, node):
        """while True: if c: break; ..  is  while not c: ..;  while not a > b  is  while a <= b"""
        body = list(node.body)
        t = node.test
        if isinstance(t, ast.Constant) and t.value and not node.orelse:
            while body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body.pop(0)
            if not body or not isinstance(body[0], ast.If) or body[0].orelse or len(body) < 2 or \
                    len(body[0].body) != 1 or not isinstance(body[0].body[0], ast.Break):
                return node
            t = ast.copy_location(ast.UnaryOp(ast.Not(), body[0].test), body[0].test)
            body.pop(0)
        neg = False
        u = t
        while isinstance(u, ast.UnaryOp) and isinstance(u.op, ast.Not):
            u, neg = u.operand, not neg
        if isinstance(u, ast.Compare) and len(u.ops) == 1 and type(u.ops[0]) in self.INVERSE:
            if neg:
                u = ast.copy_location(ast.Compare(u.left, [self.INVERSE[type(u.ops[0])]()], u.comparators), u)
        else:
            u = t
        if u is node.test:
            return node
        return ast.copy_location(ast.While(u, body, node.orelse), node)

    def s_While(self, node, st, fr):
        key = id(node)
        if key not in self.whiles:
            self.whiles[key] = self.tested_first(node)
        node = self.whiles[key]
        r = self.while_pop(node, st, fr)
        if r is not NotImplemented:
            return r
        r = self.while_count(node, st, fr)
        if r is not NotImplemented:
            return r
        return self.while_general(node, st, fr)

    def while_pop(self, node, st, fr):
        t = node.test
        name = None
        if isinstance(t, ast.Name):
            name = t.id
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len" and isinstance(t.args[0], ast.Name):
            name = t.args[0].id
        elif isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r = t.left, t.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and isinstance(
                    l.args[0], ast.Name) and isinstance(r, ast.Constant) and r.value == 0 and isinstance(
                    t.ops[0], (ast.Gt, ast.NotEq)):
                name = l.args[0].id
            if isinstance(l, ast.Name) and isinstance(t.ops[0], ast.NotEq) and isinstance(r, ast.List) and not r.elts:
                name = l.id
        if name is None or name not in st.env:
            return NotImplemented
        pops, uses = [], 0
        for n in ast.walk(ast.Module(node.body, [])):
            if isinstance(n, ast.Name) and n.id == name:
                uses += 1
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "popleft") \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                pops.append(n)
        if len(pops) != 1 or uses != 1:
            return NotImplemented
        p = pops[0]
        first = p.func.attr == "popleft" or (len(p.args) == 1 and isinstance(p.args[0], ast.Constant) and p.args[0].value == 0)
        last = p.func.attr == "pop" and (not p.args or (isinstance(p.args[0], ast.UnaryOp)))
        if not (first or last):
            return NotImplemented
        ref = st.env[name]
        X = self.fz(ref, st)
        if last:
            X = mk("reversedT", X)

        def body(s, elem):
            self.pops[id(p)] = elem
            return self.block(node.body, s, fr)
        res = self.iterate(st, X, body, fr, node)
        if res is not None and ref.op == "ref":
            res.heap[ref] = coll("list")
        return res

    def while_count(self, node, st, fr):
        """while i < n: ...; i += 1   as a loop over range(i0, n)"""
        t = node.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE,
                                                                                      ast.NotEq))):
            return NotImplemented
        l, r = t.left, t.comparators[0]
        op = type(t.ops[0])
        if op in (ast.Gt, ast.GtE):
            l, r = r, l
            op = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        if not isinstance(l, ast.Name) or l.id not in st.env:
            return NotImplemented
        name = l.id
        incs = [n for n in node.body if isinstance(n, (ast.AugAssign, ast.Assign)) and any(
            isinstance(q, ast.Name) and q.id == name and isinstance(q.ctx, ast.Store) for q in ast.walk(n))]
        stores = [q for b in node.body for q in ast.walk(b) if isinstance(q, ast.Name) and q.id == name
                  and isinstance(q.ctx, ast.Store)]
        if len(incs) != 1 or len(stores) != 1:
            return NotImplemented
        inc = incs[0]
        if isinstance(inc, ast.AugAssign):
            if not (isinstance(inc.op, ast.Add) and isinstance(inc.value, ast.Constant) and inc.value.value == 1):
                return NotImplemented
        else:
            v = inc.value
            if not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name)
                    and v.left.id == name and isinstance(v.right, ast.Constant) and v.right.value == 1):
                return NotImplemented
        if any(isinstance(q, ast.Continue) for b in node.body for q in ast.walk(b)):
            return NotImplemented
        s0 = st.env[name]
        bound = self.fz(self.eval(r, st), st)
        if op is ast.LtE:
            bound = add(bound, num(1))
        X = mk("rangeT", s0, bound, num(1))

        def body(s, elem):
            s.env[name] = elem
            return self.block(node.body, s, fr)
        nv = [numval(s0), numval(bound)]
        res = self.iterate(st, X, body, fr, node)
        if res is not None:
            res.env[name] = bound
        return res

    def while_general(self, node, st, fr):
        """while c: body -- summarised as a loop of unknown length; exit condition becomes a fact"""
        n = mk("whilelen", mk("whilesite", fr.qual, string(ast.unparse(node.test)[:80])))

        def body(s, elem):
            c = truthy(self.fz(self.eval(node.test, s), s))
            d = N.decide(c, set(s.pc))
            if d is False:
                fr.loops[-1]["breaks"].append(s)
                return None
            if d is None:
                fr.loops[-1]["breaks"].append(s.copy().assume(not_(c)))
                s = s.assume(c)
            return self.block(node.body, s, fr)
        breaks = []
        res = self.loop(st, n, None, lambda ix: (ix,), body, fr, node, breaks)
        outs = [(b, None) for b in breaks]
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0][0]
        m, _ = self.merge(outs)
        return m

    # ---------------------------------------------------------- expressions
    def eval(self, node, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported expression {type(node).__name__} line {getattr(node, 'lineno', 0)}")
        return m(node, st)

    def e_Constant(self, node, st):
        return const(node.value)

    def e_Name(self, node, st):
        return self.lookup(node.id, st)

    def lookup(self, name, st):
        env = st.env
        while env is not None:
            if name in env:
                return env[name]
            env = env.get("__outer__")
        fr = self.stack[-1]
        return self.module_name(fr.module, name)

    def module_name(self, module, name):
        r = self.pkg.resolve(module.name, name)
        if r:
            return self.from_resolved(r)
        if name in BUILTINS:
            return mk("global", "builtins." + name)
        for s in module.stars:
            if s not in self.pkg.modules:
                return mk("global", f"{s}.{name}")
        return mk("global", "?." + name)

    def from_resolved(self, r):
        k = r[0]
        if k in ("class", "func"):
            return mk("global", r[1].qual)
        if k == "module":
            return mk("global", r[1])
        if k == "ext":
            return self.global_qual(r[1])
        if k == "assign":
            m, value, path = r[1], r[2], r[3]
            key = (m.name, id(value), path)
            if key not in self.mod_cache:
                self.mod_cache[key] = mk("opaqueconst", m.name)
                fr = Frame(None, m.name, m)
                self.stack.append(fr)
                try:
                    s = State({"__outer__": None})
                    v = self.fz(self.eval(value, s), s)
                    for p in path:
                        v = sub_(v, num(p))
                    self.mod_cache[key] = v
                finally:
                    self.stack.pop()
            return self.mod_cache[key]
        raise AnalysisBroken(f"cannot resolve {r}")

    def global_qual(self, q):
        if q == "sympy" or q.startswith("sympy."):
            parts = q.split(".")
            if len(parts) > 2 and parts[-1][:1].isupper():
                q = "sympy." + parts[-1]
            elif len(parts) > 2:
                q = "sympy." + parts[-1]
        return mk("global", q)

    def e_Attribute(self, node, st):
        o = self.eval(node.value, st)
        return self.getattr(o, node.attr, st, node)

    def class_of(self, o):
        if o.op in ("self", "obj"):
            return self.pkg.cls(o.args[0])
        return None

    def getattr(self, o, name, st, node=None):
        if o.op == "ref":
            c = self.content(o, st)
            if c.op in ("coll", "setitem", "call", "fillarr", "phi", "fold"):
                return mk("attr", o, name)
        if o.op == "phi":
            a, b = o.args[1], o.args[2]
            if a.op in ("obj", "self") or b.op in ("obj", "self"):
                return phi(o.args[0], self.getattr(a, name, st, node), self.getattr(b, name, st, node))
        if (o, name) in st.attrs:
            return st.attrs[(o, name)]
        if o.op == "super":
            return mk("superattr", o.args[0], o.args[1], name)
        cls = self.class_of(o)
        if cls is not None:
            return self.class_attr(o, cls, name, st, node)
        if o.op == "global":
            q = o.args[0]
            if q in self.pkg.modules:
                r = self.pkg.resolve(q, name)
                if r:
                    return self.from_resolved(r)
                return mk("global", f"{q}.{name}")
            mod, _, cn = q.rpartition(".")
            m = self.pkg.modules.get(mod)
            if m and cn in m.classes:
                c = m.classes[cn]
                f = self.pkg.find_method(c, name)
                if f is not None:
                    if f.is_static:
                        return mk("global", f.qual)
                    if f.is_class:
                        return mk("bound", o, f.qual)
                    return mk("global", f.qual)
                at = self.pkg.find_attr(c, name)
                if at is not None:
                    return self.class_value(at)
                return mk("attr", o, name)
            if not (m and cn in m.funcs):
                return self.global_qual(f"{q}.{name}")
        if self.attr_hook is not None:
            r = self.attr_hook(o, name, st)
            if r is not None:
                return r
        return mk("attr", o, name)

    def class_value(self, at):
        c, v = at
        if isinstance(v, str):
            r = self.pkg.resolve_qual(v)
            return self.from_resolved(r) if r else mk("global", v)
        fr = Frame(None, c.qual, c.module, c)
        self.stack.append(fr)
        try:
            s = State({"__outer__": None})
            # other class-level names
            if isinstance(v, ast.Name) and (v.id in c.attrs or v.id in c.imports):
                return self.class_value(self.pkg.find_attr(c, v.id)) if c.attrs.get(v.id) is not v else self.eval(v, s)
            return self.fz(self.eval(v, s), s)
        finally:
            self.stack.pop()

    def is_opaque(self, f):
        tail2 = ".".join(f.qual.split(".")[-2:])
        return f.name in self.opaque or f.qual in self.opaque or tail2 in self.opaque

    def class_attr(self, o, cls, name, st, node):
        f = self.pkg.find_method(cls, name)
        if f is not None:
            if f.is_property:
                if self.is_opaque(f) or self.recursing(f):
                    return mk("attr", o, name)
                return self.call_func(f, [], {}, st, node, bound=o)
            if f.is_static:
                return mk("global", f.qual)
            if f.is_class:
                return mk("bound", mk("global", cls.qual), f.qual)
            return mk("bound", o, f.qual)
        at = self.pkg.find_attr(cls, name)
        if at is not None and (o, name) not in st.attrs:
            return self.class_value(at)
        if self.attr_hook is not None:
            r = self.attr_hook(o, name, st)
            if r is not None:
                return r
        return mk("attr", o, name)

    def recursing(self, f):
        return any(fr.func is not None and fr.func.node is f.node for fr in self.stack)

    def e_Subscript(self, node, st):
        o = self.eval(node.value, st)
        k = self.eval(node.slice, st)
        c = self.content(o, st)
        fk = self.fz(k, st)
        v = sub_(c, fk)
        if v.op == "sub" and v.args[0] is c and o.op == "ref" and c.op == "coll":
            return mk("sub", o, v.args[1]) if False else v
        return v

    def e_Slice(self, node, st):
        f = lambda x: NONE if x is None else self.fz(self.eval(x, st), st)
        return N.slice_(f(node.lower), f(node.upper), f(node.step))

    def e_Tuple(self, node, st):
        return self.mkcoll("tuple", node.elts, st)

    def e_List(self, node, st):
        return self.new_ref(st, self.mkcoll("list", node.elts, st))

    def e_Set(self, node, st):
        return self.new_ref(st, self.mkcoll("set", node.elts, st))

    def mkcoll(self, kind, elts, st):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.append(mk("splat", self.as_iterable(self.eval(e.value, st), st)))
            else:
                parts.append(self.eval(e, st))
        return coll(kind, *parts)

    def e_Dict(self, node, st):
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(mk("splat", self.content(self.eval(v, st), st)))
            else:
                kk = self.fz(self.eval(k, st), st)
                parts.append(mk("kv", kk, self.eval(v, st)))
        return self.new_ref(st, coll("dict", *parts))

    def e_JoinedStr(self, node, st):
        out = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                out.append(string(v.value))
            else:
                x = self.fz(self.eval(v.value, st), st)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    x = mk("fmt", x, string(ast.unparse(v.format_spec) if v.format_spec else ""), num(v.conversion))
                    out.append(mk("tostr", x))
                else:
                    out.append(tostr(x))
        return cat(*out)

    def e_NamedExpr(self, node, st):
        v = self.eval(node.value, st)
        st.env[node.target.id] = v
        return v

    def e_Starred(self, node, st):
        return mk("star", self.as_iterable(self.eval(node.value, st), st))

    def e_UnaryOp(self, node, st):
        v = self.fz(self.eval(node.operand, st), st)
        if isinstance(node.op, ast.Not):
            return not_(truthy(v))
        if isinstance(node.op, ast.USub):
            f = self.pkg.find_method(self.class_of(v), "__neg__") if self.class_of(v) is not None else None
            if f is not None and not any(fr.func is f for fr in self.stack):
                return self.call_func(f, [], {}, st, node, bound=v)
            return neg(v)
        if isinstance(node.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, node, st):
        a = self.eval(node.left, st)
        b = self.eval(node.right, st)
        if a.op in ("self", "obj"):
            m = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}.get(type(node.op).__name__)
            f = self.pkg.find_method(self.class_of(a), m) if m and self.class_of(a) is not None else None
            if f is not None and not any(fr.func is f for fr in self.stack):
                return self.call_func(f, [b], {}, st, node, bound=a)
        r = self.binop(type(node.op).__name__, self.fz(a, st), self.fz(b, st))
        if r.op == "coll" and r.args[0] != "tuple":
            return self.new_ref(st, r)
        return r

    def binop(self, op, a, b):
        if op == "Add":
            if N.is_strish(a) or N.is_strish(b):
                return cat(a, b)
            if a.op == "coll" or b.op == "coll":
                return concat(a, b)
            return add(a, b)
        if op == "Sub":
            if a.op == "coll" and a.args[0] == "set" or b.op == "coll" and b.args[0] == "set":
                return mk("setdiff", a, b)
            return nsub(a, b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op == "coll":
                    nv = numval(y)
                    if nv is not None and nv.denominator == 1 and 0 <= nv <= 8:
                        return coll(x.args[0], *(list(x.args[1]) * int(nv)))
                    if len(x.args[1]) == 1 and x.args[1][0].op not in MARK:
                        return coll(x.args[0], for_(mk("ix", y, 99), (x.args[1][0],)))
                    return mk("repeat", y, x)
                if N.is_strish(x):
                    return mk("strrepeat", x, y)
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Pow":
            return power(a, b)
        if op == "MatMult":
            if all(any(m[1] for m in TT.to_poly(x)) for x in (a, b)):
                return mul(a, b)            # both are known matrices: ordered product
            return mk("matmul", a, b)
        if op == "FloorDiv":
            va, vb = numval(a), numval(b)
            if va is not None and vb not in (None, 0):
                return num(va // vb)
            return mk("floordiv", a, b)
        if op == "Mod":
            if N.is_strish(a):
                return self.percent(a, b)
            va, vb = numval(a), numval(b)
            if va is not None and vb not in (None, 0):
                return num(va % vb)
            return mk("mod", a, b)
        if op == "BitOr":
            if a.op == "coll" and a.args[0] == "set":
                return coll("set", mk("splat", a), mk("splat", b))
            if a.op == "coll" and a.args[0] == "dict":
                return coll("dict", mk("splat", a), mk("splat", b))
            if N.is_bool(a) and N.is_bool(b):
                return or_(a, b)
            return mk("bitor", a, b)
        if op == "BitAnd":
            if N.is_bool(a) and N.is_bool(b):
                return and_(a, b)
            return mk("bitand", a, b)
        if op == "BitXor" and not (N.is_bool(a) or N.is_bool(b)):
            return mk("bitxor", a, b)
        return mk("binop", op, a, b)

    def percent(self, a, b):
        if a.op == "str":
            fmt = a.args[0]
            vals = list(b.args[1]) if b.op == "coll" and b.args[0] == "tuple" else [b]
            parts = fmt.split("%s")
            if "%" not in "".join(parts) and len(parts) == len(vals) + 1:
                out = [string(parts[0])]
                for v, p in zip(vals, parts[1:]):
                    out += [tostr(v), string(p)]
                return cat(*out)
        return mk("tostr", mk("percent", a, b))

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)

        def go(k, s):
            v = self.fz(self.eval(node.values[k], s), s)
            if k == len(node.values) - 1:
                return v
            c = truthy(v)
            if isand:
                return self.branch(s, c, lambda q: go(k + 1, q), lambda q: v if not N.is_bool(v) else FALSE)
            return self.branch(s, c, lambda q: v if not N.is_bool(v) else TRUE, lambda q: go(k + 1, q))
        return go(0, st)

    def e_Compare(self, node, st):
        left = self.fz(self.eval(node.left, st), st)
        out = []
        for op, r in zip(node.ops, node.comparators):
            right = self.fz(self.eval(r, st), st)
            t = N.compare(type(op).__name__, left, right)
            self.cmp_note(type(op).__name__, left, right, node)
            out.append(t)
            left = right
        return and_(*out)

    def cmp_note(self, op, a, b, node):
        pass

    def e_IfExp(self, node, st):
        c = truthy(self.fz(self.eval(node.test, st), st))
        return self.branch(st, c, lambda s: self.eval(node.body, s), lambda s: self.eval(node.orelse, s))

    def e_Lambda(self, node, st):
        fr = self.stack[-1]
        fi = FuncInfo(node, fr.module)
        fi.qual = f"{fr.qual}.<lambda>"
        return self.make_closure(fi, st, fr.cls)

    def e_Await(self, node, st):
        return self.eval(node.value, st)

    def e_Yield(self, node, st):
        v = NONE if node.value is None else self.fz(self.eval(node.value, st), st)
        fr = self.stack[-1]
        c = st.heap[fr.yields]
        st.heap[fr.yields] = coll("list", *c.args[1], v)
        return NONE

    def e_YieldFrom(self, node, st):
        v = self.as_iterable(self.eval(node.value, st), st)
        fr = self.stack[-1]
        c = st.heap[fr.yields]
        st.heap[fr.yields] = coll("list", *c.args[1], mk("splat", v))
        return NONE

    def comp(self, node, st, kind, elt):
        """comprehension: same machinery as the loop it abbreviates"""
        fr = self.stack[-1]
        saved = dict(st.env)
        ref = self.new_ref(st, coll(kind))

        def level(k, s):
            if k == len(node.generators):
                v = elt(s)
                c = s.heap[ref]
                s.heap[ref] = coll(kind, *c.args[1], v)
                return s
            g = node.generators[k]
            it = self.eval(g.iter, s)

            def body(s2, e):
                self.store(g.target, e, s2, node)

                def conds(j, s3):
                    if j == len(g.ifs):
                        return level(k + 1, s3)
                    c = truthy(self.fz(self.eval(g.ifs[j], s3), s3))
                    d = N.decide(c, set(s3.pc))
                    if d is True:
                        return conds(j + 1, s3)
                    if d is False:
                        return s3
                    a = conds(j + 1, s3.copy().assume(c))
                    b = s3.copy().assume(not_(c))
                    if a is None:
                        return b
                    m, _ = self.merge([(a, None), (b, None)])
                    return m
                return conds(0, s2)
            return self.iterate(s, it, body, fr, node)
        res = level(0, st)
        if res is None:
            res = st
        walrus = {}
        st.assign(res)
        st.env = saved
        return ref

    def e_ListComp(self, node, st):
        return self.comp(node, st, "list", lambda s: self.eval(node.elt, s))

    def e_GeneratorExp(self, node, st):
        return self.comp(node, st, "list", lambda s: self.eval(node.elt, s))

    def e_SetComp(self, node, st):
        return self.comp(node, st, "set", lambda s: self.eval(node.elt, s))

    def e_DictComp(self, node, st):
        return self.comp(node, st, "dict", lambda s: mk("kv", self.fz(self.eval(node.key, s), s), self.eval(node.value, s)))

    # ---------------------------------------------------------------- calls
    def e_Call(self, node, st):
        if id(node) in self.pops:
            return self.pops[id(node)]
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            fr = self.stack[-1]
            a = fr.func.node.args
            me = st.env.get(a.args[0].arg) if a.args else NONE
            return mk("super", me, fr.cls.qual if fr.cls else "?")
        f = self.eval(node.func, st)
        args, kwargs = [], {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                x = self.as_iterable(self.eval(a.value, st), st)
                if x.op == "coll" and all(p.op not in MARK for p in x.args[1]):
                    args.extend(x.args[1])
                else:
                    args.append(mk("star", x))
            else:
                args.append(self.eval(a, st))
        for k in node.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                c = self.content(v, st)
                if c.op == "coll" and all(p.op == "kv" and p.args[0].op == "str" for p in c.args[1]):
                    for p in c.args[1]:
                        kwargs[p.args[0].args[0]] = p.args[1]
                else:
                    kwargs[None] = c
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, node)

    def call(self, f, args, kwargs, st, node):
        if f.op == "phi":
            a, b = f.args[1], f.args[2]
            if any(x.op in ("bound", "closure", "global", "phi") for x in (a, b)):
                return self.branch(st, f.args[0], lambda s: self.call(a, args, kwargs, s, node),
                                   lambda s: self.call(b, args, kwargs, s, node))
        if f.op == "bound":
            fi = self.func_by_qual(f.args[1])
            return self.call_func(fi, args, kwargs, st, node, bound=f.args[0])
        if f.op == "closure":
            c = self.closures[f]
            if any(fr.func is not None and fr.func.node is c.fi.node for fr in self.stack):
                return mk("reccall", string(c.fi.qual), *[self.fz(a, st) for a in args])
            env = self.bind(c.fi, args, kwargs, st)
            v, _ = self.exec_function(c.fi, env, st, c.cls, outer_env=c.env)
            return v
        if f.op == "superattr":
            me, clsq, name = f.args
            cls = self.class_of(me) if me.op in ("self", "obj") else None
            start = self.pkg.cls(clsq)
            mro = self.pkg.mro(cls) if cls is not None else self.pkg.mro(start)
            if start in mro:
                mro = mro[mro.index(start) + 1:]
            for c in mro:
                if name in c.methods:
                    return self.call_func(c.methods[name], args, kwargs, st, node,
                                          bound=None if c.methods[name].is_static else me)
            return self.opaque_call(mk("attr", mk("superobj", me, clsq), name), args, kwargs, st, node)
        if f.op == "partial":
            a0, k0 = f.args[1], dict(f.args[2])
            k0.update(kwargs)
            return self.call(f.args[0], list(a0) + list(args), k0, st, node)
        if f.op == "global":
            return self.call_global(f, args, kwargs, st, node)
        if f.op == "attr":
            return self.call_method(f.args[0], f.args[1], f, args, kwargs, st, node)
        return self.opaque_call(f, args, kwargs, st, node)

    def func_by_qual(self, q):
        mod, _, name = q.rpartition(".")
        m = self.pkg.modules.get(mod)
        if m and name in m.funcs:
            return m.funcs[name]
        cm, _, cn = mod.rpartition(".")
        m = self.pkg.modules.get(cm)
        if m and cn in m.classes and name in m.classes[cn].methods:
            return m.classes[cn].methods[name]
        raise AnalysisBroken(f"function {q} not found")

    def call_func(self, fi, args, kwargs, st, node, bound=None):
        if self.is_opaque(fi) or self.recursing(fi) or len(self.stack) > self.depth:
            f = mk("global", fi.qual) if bound is None else mk("attr", bound, fi.name)
            args, kwargs = by_position(fi, args, kwargs, bound is not None and not fi.is_static)
            return self.opaque_call(f, args, kwargs, st, node)
        if fi.is_static:
            bound = None
        env = self.bind(fi, args, kwargs, st, bound)
        cls = fi.cls
        v, _ = self.exec_function(fi, env, st, cls)
        return v

    def opaque_call(self, f, args, kwargs, st, node):
        fa = tuple(self.fz(a, st) for a in args)
        fk = tuple((k, self.fz(v, st)) for k, v in kwargs.items())
        t = N.call(self.fz(f, st), fa, fk)
        self.note(t, node)
        if not self.silent:
            self.call_log.append((t, st.pc, st.loops, node, self.stack[-1].qual if self.stack else "", args))
            self.eff("call", t, None, None, st, node, extra=args)
        return t

    def construct(self, cls, args, kwargs, st, node):
        ext = [b for b in self.pkg.ext_bases(cls) if b not in ("builtins.object", "object")]
        qual = cls.qual
        if ext or cls.name in self.opaque or any(("." in ast.unparse(b)) and self.pkg.base_of(cls, b) is None
                                                for b in cls.base_nodes):
            return self.opaque_call(mk("global", qual), args, kwargs, st, node)
        fa = tuple(self.fz(a, st) for a in args)
        fk = tuple(sorted(((k, self.fz(v, st)) for k, v in kwargs.items()), key=lambda p: p[0] or ""))
        o = mk("obj", qual, fa, fk)
        self.note(o, node)
        init = self.pkg.find_method(cls, "__init__")
        if init is not None:
            self.call_func(init, args, kwargs, st, node, bound=o)
        return o

    def call_global(self, f, args, kwargs, st, node):
        q = f.args[0]
        mod, _, name = q.rpartition(".")
        m = self.pkg.modules.get(mod)
        if m is not None:
            if name in m.classes:
                return self.construct(m.classes[name], args, kwargs, st, node)
            if name in m.funcs:
                return self.call_func(m.funcs[name], args, kwargs, st, node)
        cm, _, cn = mod.rpartition(".")
        mm = self.pkg.modules.get(cm)
        if mm is not None and cn in mm.classes and name in mm.classes[cn].methods:
            fi = mm.classes[cn].methods[name]
            return self.call_func(fi, args, kwargs, st, node)
        if mod == "builtins":
            r = self.builtin(name, args, kwargs, st, node)
            if r is not None:
                return r
        r = self.library(q, args, kwargs, st, node)
        if r is not None:
            return r
        return self.opaque_call(f, args, kwargs, st, node)

    # builtins ---------------------------------------------------------------
    def builtin(self, name, args, kwargs, st, node):
        c = [self.content(a, st) for a in args]
        if any(a.op == "star" for a in args) and name not in ("zip", "print", "max", "min"):
            return None
        if name == "len" and len(c) == 1:
            x = self.as_iterable(c[0], st)
            return len_(x)
        if name == "range":
            fa = [self.fz(a, st) for a in args]
            if len(fa) == 1:
                return mk("rangeT", num(0), fa[0], num(1))
            if len(fa) == 2:
                return mk("rangeT", fa[0], fa[1], num(1))
            return mk("rangeT", *fa)
        if name == "zip":
            if any(a.op == "star" for a in args):
                return mk("zipstar", *[self.fz(a, st) for a in args])
            its = [self.fz(self.as_iterable(a, st), st) for a in args]
            return mk("zip", *its)
        if name == "enumerate":
            s = kwargs.get("start") or (args[1] if len(args) > 1 else num(0))
            return mk("enum", self.fz(self.as_iterable(args[0], st), st), s)
        if name in ("list", "tuple", "set", "frozenset"):
            kind = {"frozenset": "set"}.get(name, name)
            if not args:
                v = coll(kind)
            else:
                x = self.as_iterable(args[0], st)
                ps = self.parts_of(x, st)
                v = recoll(kind, x) if not (x.op in ("zip", "rangeT", "enum", "reversedT")) else self.materialise(kind, x, st)
            return v if kind == "tuple" else self.new_ref(st, v)
        if name == "dict":
            parts = []
            if args:
                x = c[0]
                parts.append(mk("splat", N.to_dict(self.fz(x, st) if x.op != "coll" else x)))
            for k, v in kwargs.items():
                if k is None:
                    parts.append(mk("splat", self.content(v, st)))
                else:
                    parts.append(mk("kv", string(k), v))
            return self.new_ref(st, coll("dict", *parts))
        if name == "reversed":
            x = self.as_iterable(args[0], st)
            if x.op == "coll" and all(p.op not in MARK for p in x.args[1]):
                return coll("list", *reversed(x.args[1]))
            return mk("reversedT", self.fz(x, st))
        if name == "sorted":
            x = self.fz(self.as_iterable(args[0], st), st)
            key = kwargs.get("key", NONE)
            rev = kwargs.get("reverse", FALSE)
            return mk("sortedT", x, self.keyfun(key, st), rev)
        if name == "sum":
            x = self.fz(self.as_iterable(args[0], st), st)
            start = self.fz(args[1], st) if len(args) > 1 else kwargs.get("start", num(0))
            if start.op == "coll":
                return self.new_ref(st, coll("list", mk("splat", mk("flatten", x))))
            if x.op == "coll" and x.args[0] == "set" and len(x.args[1]) + sum(p.op in MARK for p in x.args[1]) > 1:
                return add(start, mk("sumof", x))      # equal elements count once
            if x.op == "coll":
                tot = start
                for p in x.args[1]:
                    if p.op == "for" and len(p.args[1]) == 1 and p.args[1][0].op not in MARK:
                        tot = add(tot, mk("sumover", p.args[0], p.args[1][0]))
                    elif p.op in MARK:
                        tot = add(tot, mk("sumof", coll("list", p)))
                    else:
                        tot = add(tot, p)
                return tot
            return add(start, mk("sumof", x))
        if name in ("any", "all"):
            x = self.as_iterable(args[0], st)
            x = self.fz(x, st)
            neg_ = name == "all"
            if x.op in ("zip", "enum", "rangeT"):
                x = self.materialise("list", x, st)
            if x.op == "coll":
                out = [self.any_part(p, neg_) for p in x.args[1]]
                r = or_(*out)
                return not_(r) if neg_ else r
            ix, e = N.iterate1(x, 0)
            r = N.exists(ix, not_(truthy(e)) if neg_ else truthy(e))
            return not_(r) if neg_ else r
        if name in ("max", "min"):
            fa = [self.fz(a, st) for a in args]
            if len(fa) > 1 and not kwargs:
                if all(numval(a) is not None for a in fa):
                    return num((max if name == "max" else min)(numval(a) for a in fa))
                return mk(name, *sorted(fa, key=lambda t: t.n))
            if len(fa) == 1:
                x = fa[0]
                if x.op == "coll":
                    x = coll("list", *x.args[1])
                    elems, fors = [], []
                    for p in x.args[1]:
                        (fors if p.op in MARK else elems).append(p)
                    if len(fors) == 1 and fors[0].op == "for" and len(elems) == 1 and len(fors[0].args[1]) == 1 and name == "max":
                        return mk("maxover", fors[0].args[0], fors[0].args[1][0], elems[0])
                    if "default" in kwargs and len(fors) == 1 and not elems and fors[0].op == "for" and \
                            len(fors[0].args[1]) == 1 and name == "max":
                        return mk("maxover", fors[0].args[0], fors[0].args[1][0], kwargs["default"])
                return mk(name + "of", x, *[self.fz(v, st) for k, v in sorted(kwargs.items())])
        if name == "str" and len(args) == 1:
            return tostr(self.fz(args[0], st))
        if name == "bool" and args:
            return truthy(self.fz(args[0], st))
        if name == "abs":
            v = numval(c[0])
            return num(abs(v)) if v is not None else mk("abs", self.fz(args[0], st))
        if name in ("int", "float"):
            if args:
                x = self.fz(args[0], st)
                return x if x.op == "num" and (name == "float" or x.args[0].denominator == 1) else mk(name, x)
        if name == "isinstance" and len(args) == 2:
            return self.isinstance_(c[0], self.fz(args[1], st), st)
        if name == "type" and len(args) == 1:
            return mk("typeof", self.fz(args[0], st))
        if name == "getattr" and len(args) >= 2:
            k = self.fz(args[1], st)
            if k.op == "str":
                return self.getattr(args[0], k.args[0], st, node)
            return mk("getattr", *[self.fz(a, st) for a in args])
        if name == "setattr" and len(args) == 3:
            k = self.fz(args[1], st)
            o = args[0]
            if k.op == "str":
                self.eff("attr", o, k.args[0], self.fz(args[2], st), st, node)
                st.attrs[(o, k.args[0])] = args[2]
            else:
                self.eff("attr", o, "*", self.fz(args[2], st), st, node, extra=k)
            return NONE
        if name == "hasattr":
            return mk("hasattr", *[self.fz(a, st) for a in args])
        if name == "print":
            return NONE
        if name == "map" and len(args) >= 2:
            its = [self.fz(self.as_iterable(a, st), st) for a in args[1:]]
            return self.map_call(args[0], its, st, node)
        if name == "filter" and len(args) == 2:
            return self.filter_call(args[0], self.as_iterable(args[1], st), st, node)
        if name == "iter" and len(args) == 1:
            x = self.fz(self.as_iterable(args[0], st), st)
            return self.new_ref(st, mk("iterobj", x, num(0)))
        if name == "next" and args:
            r = args[0]
            x = self.content(r, st)
            if x.op == "iterobj":
                st.heap[r] = mk("iterobj", x.args[0], add(x.args[1], num(1)))
                return sub_(x.args[0], x.args[1])
            return mk("next", self.fz(x, st), *[self.fz(a, st) for a in args[1:]])
        if name == "callable":
            return mk("callable", self.fz(args[0], st))
        if name == "id":
            return mk("idof", self.fz(args[0], st))
        if name in ("repr", "hash", "format", "round", "ord", "chr", "vars", "dir", "divmod", "pow", "complex"):
            if name == "pow" and len(args) == 2:
                return power(self.fz(args[0], st), self.fz(args[1], st))
            return None
        if name == "object":
            return mk("obj_", num(0))
        if name == "exec" or name == "eval":
            self.eff("exec", self.fz(args[0], st), None, [self.fz(a, st) for a in args[1:]] and
                     self.fz(args[1], st), st, node, extra=args)
            return mk("execresult", self.fz(args[0], st))
        return None

    def keyfun(self, key, st):
        if key.op == "closure":
            x = mk("param", "%key")
            e0, self.silent = self.silent, self.silent + 1
            v = self.call(key, [x], {}, st.copy(), None)
            self.silent = e0
            return mk("lam", v)
        if key.op == "global" and key.args[0] == "builtins.str":
            return mk("lam", mk("tostr", mk("param", "%key")))
        return key

    def any_part(self, p, negate):
        if p.op == "for":
            return N.exists(p.args[0], or_(*[self.any_part(q, negate) for q in p.args[1]]))
        if p.op == "when":
            return and_(p.args[0], or_(*[self.any_part(q, negate) for q in p.args[1]]))
        if p.op == "splat":
            ix, e = N.iterate1(p.args[0], 0)
            return N.exists(ix, not_(truthy(e)) if negate else truthy(e))
        return not_(truthy(p)) if negate else truthy(p)

    def materialise(self, kind, x, st):
        ref = self.new_ref(st, coll(kind))
        fr = self.stack[-1]

        def body(s, e):
            c = s.heap[ref]
            s.heap[ref] = coll(kind, *c.args[1], e)
            return s
        r = self.iterate(st, x, body, fr, None)
        st.assign(r)
        return st.heap[ref]

    def map_call(self, f, its, st, node):
        fr = self.stack[-1]
        ref = self.new_ref(st, coll("list"))
        x = its[0] if len(its) == 1 else mk("zip", *its)

        def body(s, e):
            a = [e] if len(its) == 1 else list(e.args[1])
            v = self.call(f, a, {}, s, node)
            c = s.heap[ref]
            s.heap[ref] = coll("list", *c.args[1], self.fz(v, s))
            return s
        r = self.iterate(st, x, body, fr, node)
        st.assign(r)
        return ref

    def filter_call(self, f, x, st, node):
        fr = self.stack[-1]
        ref = self.new_ref(st, coll("list"))

        def body(s, e):
            c = truthy(e) if f is NONE else truthy(self.fz(self.call(f, [e], {}, s, node), s))
            a = s.copy().assume(c)
            a.heap[ref] = coll("list", *a.heap[ref].args[1], e)
            b = s.copy().assume(not_(c))
            m, _ = self.merge([(a, None), (b, None)])
            return m
        r = self.iterate(st, x, body, fr, node)
        st.assign(r)
        return ref

    def isinstance_(self, x, ty, st):
        if ty.op == "coll":
            return or_(*[self.isinstance_(x, t, st) for t in ty.args[1]])
        if ty.op == "bitor":
            return or_(self.isinstance_(x, ty.args[0], st), self.isinstance_(x, ty.args[1], st))
        tn = ty.args[0] if ty.op == "global" else None
        cls = self.class_of(x)
        if cls is not None and tn is not None:
            names = {c.qual for c in self.pkg.mro(cls)} | {"builtins.object"}
            if tn in names:
                return TRUE
            if tn.startswith(self.pkg.pkg + ".") or tn.startswith("builtins."):
                return FALSE
        if x.op == "coll" and tn in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.set"):
            return py(tn == "builtins." + x.args[0])
        if x.op in ("str", "cat", "tostr") and tn == "builtins.str":
            return TRUE
        if x.op == "coll" and tn and not tn.startswith("collections") and not tn.startswith("typing"):
            return FALSE
        return mk("isinstance", self.fz(x, st), ty)

    # libraries ---------------------------------------------------------------
    def library(self, q, args, kwargs, st, node):
        tail = q.split(".")[-1]
        if q in ("collections.OrderedDict",):
            return self.builtin("dict", args, kwargs, st, node)
        if q == "collections.defaultdict":
            return self.new_ref(st, coll("dict"))
        if q == "collections.deque":
            return self.builtin("list", args, kwargs, st, node)
        if q in ("copy.copy", "copy.deepcopy") and args:
            c = self.content(args[0], st)
            if c.op == "coll":
                return self.new_ref(st, c)
            return mk("copyof", self.fz(c, st))
        if q == "itertools.chain":
            return coll("list", *[mk("splat", self.as_iterable(a, st)) for a in args])
        if q == "itertools.chain.from_iterable":
            return self.flat(self.as_iterable(args[0], st), st, node)
        if q == "itertools.pairwise":
            x = self.fz(self.as_iterable(args[0], st), st)
            return mk("zip", sub_(x, N.slice_(NONE, num(-1), NONE)), sub_(x, N.slice_(num(1), NONE, NONE)))
        if q in ("itertools.combinations", "itertools.combinations_with_replacement") and len(args) == 2 \
                and numval(args[1]) == 2:
            x = self.fz(self.as_iterable(args[0], st), st)
            strict = not q.endswith("replacement")
            n = len_(x)
            l0 = sum(1 for l in st.loops if l.args[0] is n)
            i = mk("ix", n, l0)
            j = mk("ix", n, l0 + 1)
            cond = lt_(i, j) if strict else not_(lt_(j, i))
            if x.op == "coll" and all(p.op not in MARK for p in x.args[1]):
                ps = x.args[1]
                return coll("list", *[coll("tuple", ps[a], ps[b]) for a in range(len(ps))
                                      for b in range(a + (1 if strict else 0), len(ps))])
            return coll("list", for_(i, (for_(j, (when(cond, (coll("tuple", sub_(x, i), sub_(x, j)),)),)),)))
        if q == "itertools.product":
            its = [self.fz(self.as_iterable(a, st), st) for a in args]
            if "repeat" in kwargs and numval(kwargs["repeat"]) is not None:
                its = its * int(numval(kwargs["repeat"]))
            if len(its) == 2:
                ref = self.new_ref(st, coll("list"))
                fr = self.stack[-1]

                def outer(s, a):
                    def inner(s2, b):
                        c = s2.heap[ref]
                        s2.heap[ref] = coll("list", *c.args[1], coll("tuple", a, b))
                        return s2
                    return self.iterate(s, its[1], inner, fr, node)
                r = self.iterate(st, its[0], outer, fr, node)
                st.assign(r)
                return ref
        if q == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if q == "functools.reduce" and len(args) >= 2:
            x = self.as_iterable(args[1], st)
            fr = self.stack[-1]
            if len(args) == 2:
                x = self.fz(x, st)
                init = sub_(x, num(0))
                x = sub_(x, N.slice_(num(1), NONE, NONE))
            else:
                init = args[2]
            st.env["%reduce"] = init

            def body(s, e):
                s.env["%reduce"] = self.fz(self.call(args[0], [s.env["%reduce"], e], {}, s, node), s)
                return s
            r = self.iterate(st, x, body, fr, node)
            st.assign(r)
            return st.env.pop("%reduce")
        if q.startswith("operator.") and len(args) == 2:
            ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "matmul": "MatMult"}
            a, b = [self.fz(x, st) for x in args]
            if tail in ops:
                return self.binop(ops[tail], a, b)
            cm = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}
            if tail in cm:
                return N.compare(cm[tail], a, b)
            if tail == "getitem":
                return sub_(a, b)
        if q.startswith("numpy.") and tail in NP_FRESH:
            fa = tuple(self.fz(a, st) for a in args)
            fk = tuple((k, self.fz(v, st)) for k, v in kwargs.items())
            return self.new_ref(st, N.call(mk("global", q), fa, fk))
        if q in ("numpy.asarray", "numpy.array", "numpy.stack", "numpy.vstack") and args:
            c = self.content(args[0], st)
            if c.op in ("coll",):
                return None
        return None

    def flat(self, x, st, node):
        ref = self.new_ref(st, coll("list"))
        fr = self.stack[-1]

        def body(s, e):
            c = s.heap[ref]
            s.heap[ref] = coll("list", *c.args[1], mk("splat", self.fz(self.as_iterable(e, s), s)))
            return s
        st.assign(self.iterate(st, x, body, fr, node))
        return ref

    # methods -------------------------------------------------------------------
    def call_method(self, o, name, f, args, kwargs, st, node):
        r = self.call_method_(o, name, f, args, kwargs, st, node)
        if name in ("difference", "union", "intersection", "symmetric_difference") and not kwargs and r.op != "ref":
            return self.new_ref(st, r)         # a new set, whatever the receiver
        return r

    def call_method_(self, o, name, f, args, kwargs, st, node):
        c = self.content(o, st)
        r = None
        if c.op == "coll" or (o.op == "ref"):
            r = self.coll_method(o, c, name, args, kwargs, st, node)
            if r is not None:
                return r
        if name in ("items", "keys", "values") and not args:
            x = self.fz(c, st)
            if name == "items":
                return N.items_of(x)
            if name == "values":
                return N.values_of(x)
            return mk("keysof", x) if x.op != "coll" else N.keys_of(x)
        if N.is_strish(c) or (name in ("format", "join") and c.op == "str"):
            r = self.str_method(c, name, args, kwargs, st)
            if r is not None:
                return r
        if name in ("map", "imap", "starmap", "imap_unordered", "map_async") and self.is_pool(c):
            its = [self.fz(self.as_iterable(args[1], st), st)]
            v = self.map_call(args[0], its, st, node)
            if name == "imap_unordered":
                return mk("unordered", self.fz(v, st))
            return v
        if name == "get" and len(args) in (1, 2) and c.op == "sub" and False:
            return None
        # element of a local dict of lists: D[k].append(v)
        if c.op == "setdef" and name in ("append", "extend", "add", "update") and c.args[0].op == "ref":
            cc = self.content(c.args[0], st)
            fv = self.fz(args[0], st)
            k = c.args[2].args[0]
            body = coll(k, fv) if name in ("append", "add") else coll(k, mk("splat", self.fz(self.as_iterable(args[0], st), st)))
            ps = list(cc.args[1]) if cc.op == "coll" else []
            if ps and ps[-1].op == "app" and ps[-1].args[0] is c.args[1] and ps[-1].args[1].op == "coll" and not ps[-1].args[1].args[1]:
                ps.pop()
            st.heap[c.args[0]] = coll("dict", *ps, mk("app", c.args[1], body)) if cc.op == "coll" else mk("mutated", cc)
            return NONE
        if c.op == "sub" and name in ("append", "extend", "add", "update"):
            base = self.mut_base(node, st)
            if base is not None:
                ref, key = base
                fv = self.fz(args[0], st)
                k = "set" if name in ("add", "update") else "list"
                body = coll(k, fv) if name in ("append", "add") else coll(k, mk("splat", self.fz(self.as_iterable(args[0], st), st)))
                cc = self.content(ref, st)
                st.heap[ref] = coll("dict", *cc.args[1], mk("app", key, body)) if cc.op == "coll" else mk("mutated", cc)
                return NONE
        if name in MUTATORS:
            self.eff("mut", self.fz(c, st), name, tuple(self.fz(a, st) for a in args), st, node, extra=args)
        return self.opaque_call(f, args, kwargs, st, node)

    def is_pool(self, c):
        return c.op == "call" and c.args[0].op in ("global", "attr") and (
            (c.args[0].op == "global" and c.args[0].args[0].split(".")[-1] in (
                "Pool", "ThreadPool", "ProcessPoolExecutor", "ThreadPoolExecutor")) or
            (c.args[0].op == "attr" and c.args[0].args[1] == "Pool"))

    def mut_base(self, node, st):
        """for a call  B[k].m(..)  on a local container B: (ref, key)"""
        if node is None or not isinstance(node, ast.Call) or not isinstance(node.func, ast.Attribute):
            return None
        t = node.func.value
        if isinstance(t, ast.Subscript):
            self.silent += 1
            b = self.eval(t.value, st)
            k = self.fz(self.eval(t.slice, st), st)
            self.silent -= 1
            if b.op == "ref" and self.content(b, st).op == "coll":
                return b, k
        return None

    def coll_method(self, o, c, name, args, kwargs, st, node):
        if c.op == "iterobj":
            return None
        if c.op != "coll":
            if o.op == "ref" and name in MUTATORS:
                st.heap[o] = mk("mutated", c, name, tuple(self.fz(a, st) for a in args))
                return NONE
            if o.op == "ref":
                return self.opaque_call(mk("attr", self.fz(c, st), name), args, kwargs, st, node)
            return None
        kind, ps = c.args

        def put(v):
            if o.op == "ref":
                st.heap[o] = v
            else:
                self.eff("mut", c, name, tuple(self.fz(a, st) for a in args), st, node)
        if name == "append" and kind == "list":
            put(coll("list", *ps, args[0]))
            return NONE
        if name == "add" and kind == "set":
            put(coll("set", *ps, self.fz(args[0], st)))
            return NONE
        if name == "extend" and kind == "list":
            x = self.as_iterable(args[0], st)
            if x.op in ("zip", "rangeT", "enum"):
                x = self.materialise("list", x, st)
                ps = self.content(o, st).args[1]
            put(coll("list", *ps, mk("splat", x)))
            return NONE
        if name == "update":
            if kind == "set":
                put(coll("set", *ps, *[mk("splat", self.as_iterable(self.fz(a, st), st)) for a in args]))
                return NONE
            if kind == "dict":
                new = list(ps)
                for a in args:
                    x = self.content(a, st)
                    new.append(mk("splat", N.to_dict(self.fz(x, st))) if x.op != "coll" or x.args[0] != "dict"
                               else mk("splat", x))
                for k, v in kwargs.items():
                    new.append(mk("kv", string(k), v))
                put(coll("dict", *new))
                return NONE
        if name == "insert" and kind == "list" and len(args) == 2:
            k = numval(args[0])
            if k == 0:
                put(coll("list", args[1], *ps))
                return NONE
            put(mk("mutated", c, name, tuple(self.fz(a, st) for a in args)))
            return NONE
        if name == "copy":
            return self.new_ref(st, c)
        if name == "pop":
            if kind == "list" and ps and all(p.op not in MARK for p in ps):
                k = int(numval(args[0])) if args and numval(args[0]) is not None else -1
                l = list(ps)
                try:
                    v = l.pop(k)
                    put(coll("list", *l))
                    return v
                except IndexError:
                    pass
            if kind == "list" and not args and ps:
                # last element
                if ps[-1].op not in MARK:
                    put(coll("list", *ps[:-1]))
                    return ps[-1]
            fc = self.fz(c, st)
            put(mk("mutated", fc, name, tuple(self.fz(a, st) for a in args)))
            self.eff("mut", o if o.op == "ref" else c, name, tuple(self.fz(a, st) for a in args), st, node,
                     extra=(o, fc))
            return mk("popped", fc, *[self.fz(a, st) for a in args])
        if name == "items" and kind == "dict":
            return N.items_of(self.fz(c, st)) if N.has_app(self.fz(c, st)) else N.items_of(c)
        if name == "values" and kind == "dict":
            return N.values_of(c)
        if name == "keys" and kind == "dict":
            return N.keys_of(c)
        if name == "get" and kind == "dict":
            k = self.fz(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            if all(p.op == "kv" for p in ps):
                hits = [p for p in ps if p.args[0] is k]
                if hits:
                    return hits[-1].args[1]
                if k.op in ("str", "num") and all(p.args[0].op in ("str", "num") for p in ps):
                    return d
                out = d
                for p in reversed(ps):
                    out = phi(eq_(k, p.args[0]), self.fz(p.args[1], st), self.fz(out, st))
                return out
            t = sub_(c, k)
            if t.op != "sub":
                return t
            return mk("dictget", self.fz(c, st), k, self.fz(d, st))
        if name == "setdefault" and kind == "dict":
            k = self.fz(args[0], st)
            v = sub_(c, k)
            if v.op == "sub" or v.op == "dictget":
                d = self.fz(args[1], st) if len(args) > 1 else NONE
                if d.op == "coll" and d.args[0] in ("list", "set") and not d.args[1]:
                    put(coll("dict", *ps, mk("app", k, d)))
                    return mk("setdef", o, k, d)
                fc = self.fz(c, st)
                put(coll("dict", *ps, mk("when", not_(N.in_(k, fc)), (mk("kv", k, d),))))
                return phi(N.in_(k, fc), mk("sub", fc, k), d)
            return v
        if name in ("sort", "reverse") and kind == "list":
            fc = self.fz(c, st)
            if name == "reverse":
                if all(p.op not in MARK for p in ps):
                    put(coll("list", *reversed(ps)))
                else:
                    put(coll("list", mk("splat", mk("reversedT", fc))))
            else:
                put(coll("list", mk("splat", mk("sortedT", fc, self.keyfun(kwargs.get("key", NONE), st),
                                                kwargs.get("reverse", FALSE)))))
            return NONE
        if name in ("difference", "union", "intersection", "issubset", "isdisjoint", "symmetric_difference") and kind in ("set",):
            fa = [self.fz(self.as_iterable(a, st), st) for a in args]
            if name == "union":
                return self.new_ref(st, coll("set", *ps, *[mk("splat", a) for a in fa]))
            return self.opaque_call(mk("attr", self.fz(c, st), name), args, kwargs, st, node)
        if name in ("discard", "remove", "difference_update", "intersection_update", "clear", "popitem"):
            if name == "clear":
                put(coll(kind))
            else:
                put(mk("mutated", self.fz(c, st), name, tuple(self.fz(a, st) for a in args)))
            self.eff("mut", o if o.op == "ref" else c, name, tuple(self.fz(a, st) for a in args), st, node, extra=(o,))
            return NONE
        if name == "index" and len(args) == 1:
            fc, k = self.fz(c, st), self.fz(args[0], st)
            if all(p.op not in MARK for p in fc.args[1]) and k in fc.args[1]:
                return num(list(fc.args[1]).index(k))
            return mk("indexof", fc, k)
        if name == "count" and len(args) == 1:
            return mk("countof", self.fz(c, st), self.fz(args[0], st))
        return self.opaque_call(mk("attr", self.fz(c, st), name), args, kwargs, st, node)

    def str_method(self, c, name, args, kwargs, st):
        fa = [self.fz(a, st) for a in args]
        if name == "join" and len(args) == 1:
            x = self.fz(self.as_iterable(args[0], st), st)
            return N.join(c, x)
        if c.op == "str" and all(a.op == "str" for a in fa) and not kwargs:
            s = c.args[0]
            try:
                r = getattr(s, name)(*[a.args[0] for a in fa])
                if isinstance(r, str):
                    return string(r)
                if isinstance(r, bool):
                    return py(r)
            except Exception:
                pass
        if name == "format" and c.op == "str" and not kwargs:
            s = c.args[0]
            import string as _s
            try:
                out, k = [], 0
                for lit, field, spec, conv in _s.Formatter().parse(s):
                    out.append(string(lit))
                    if field is not None:
                        if spec or conv:
                            return None
                        i = k if field == "" else int(field)
                        k += 1
                        out.append(tostr(fa[i]))
                return cat(*out)
            except Exception:
                return None
        if name == "format" and c.op == "str":
            s = c.args[0]
            import string as _s
            try:
                out = []
                for lit, field, spec, conv in _s.Formatter().parse(s):
                    out.append(string(lit))
                    if field is not None:
                        if spec or conv or field not in kwargs:
                            return None
                        out.append(tostr(self.fz(kwargs[field], st)))
                return cat(*out)
            except Exception:
                return None
        if name in ("replace", "strip", "lower", "upper", "lstrip", "rstrip", "translate"):
            return mk("tostr", N.call(mk("attr", c, name), tuple(fa), tuple((k, self.fz(v, st)) for k, v in kwargs.items())))
        return None


# ---------------------------------------------------------- library semantics
def _call_hook(f, a, k):
    if f.op == "global":
        q = f.args[0]
        if q == "sympy.Integer" and len(a) == 1:
            return a[0]
        if q in ("sympy.S", "sympy.sympify", "sympy.Float") and len(a) == 1 and a[0].op in ("num", "poly"):
            return a[0]
        if q == "sympy.Rational":
            if len(a) == 2:
                return div(a[0], a[1])
            if len(a) == 1 and a[0].op == "num":
                return a[0]
        if q in ("sympy.sqrt", "numpy.sqrt", "math.sqrt") and len(a) == 1:
            return power(a[0], num("1/2") if False else mk("num", TT.Fraction(1, 2)))
        if q == "sympy.Pow" and len(a) == 2:
            return power(a[0], a[1])
        if q == "sympy.Add" and not any(x.op == "star" for x in a):
            out = num(0)
            for x in a:
                out = add(out, x)
            return out
        if q == "sympy.Mul" and not any(x.op == "star" for x in a):
            out = num(1)
            for x in a:
                out = mul(out, x)
            return out
        if q in ("sympy.symbols", "sympy.Symbol") and len(a) == 1 and not k and a[0].op == "str" and \
                not set(a[0].args[0]) & set(" ,:"):
            return mk("sym", a[0].args[0])
        if q == "sympy.symbols" and len(a) == 1 and not k and a[0].op == "str":
            names = a[0].args[0].replace(",", " ").split()
            if len(names) > 1 and ":" not in a[0].args[0]:
                return coll("tuple", *[mk("sym", n) for n in names])
    return None


N.CALL_HOOK[0] = _call_hook


def _sympy_consts(q):
    return {"sympy.S.One": num(1), "sympy.S.Zero": num(0), "sympy.S.Half": mk("num", TT.Fraction(1, 2)),
            "sympy.S.NegativeOne": num(-1), "sympy.One": num(1), "sympy.Zero": num(0), "sympy.Half": mk(
            "num", TT.Fraction(1, 2))}.get(q)


_old_gq = Interp.global_qual


def _gq(self, q):
    c = _sympy_consts(q)
    if c is not None:
        return c
    return _old_gq(self, q)


Interp.global_qual = _gq
