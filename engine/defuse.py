"""Names bound before their use: flow-sensitive scan of one scope.

States carry the names certainly bound, those possibly bound, and for names bound on one side of a test the test itself, so that a
use under the same test is accepted.  Only the absence of any binding on a path is reported."""
import ast
import builtins

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__class__"}


class State:
    __slots__ = ("sure", "maybe", "cond", "dead")

    def __init__(self, sure=(), maybe=(), cond=(), dead=False):
        self.sure, self.maybe, self.cond, self.dead = set(sure), set(maybe), dict(cond), dead

    def copy(self):
        return State(self.sure, self.maybe, {k: set(v) for k, v in self.cond.items()}, self.dead)


def join(a, b, test=None):
    """state after the two sides of a test"""
    if a.dead:
        return b.copy()
    if b.dead:
        return a.copy()
    r = State(a.sure & b.sure, a.maybe | b.maybe)
    for n in a.maybe | b.maybe:
        if n in r.sure:
            continue
        c = set()
        ca = a.cond.get(n, set()) if n not in a.sure else None        # None: everywhere
        cb = b.cond.get(n, set()) if n not in b.sure else None
        if test is not None:
            if ca is None:
                c.add((test, True))
            if cb is None:
                c.add((test, False))
        if ca is None and cb is not None:
            c |= cb
        elif cb is None and ca is not None:
            c |= ca
        elif ca is not None and cb is not None:
            c |= ca & cb
        r.cond[n] = c
    return r


def target_names(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def literals(test):
    """conjuncts which hold when test is true / those which hold when it is false"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        t, f = literals(test.operand)
        return {(k, not v) for k, v in f_pairs(test.operand, False)}, {(k, True) for k, v in f_pairs(test.operand, True)}
    return f_pairs(test, True), f_pairs(test, False)


def f_pairs(test, value):
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return f_pairs(test.operand, not value)
    if isinstance(test, ast.BoolOp) and (isinstance(test.op, ast.And)) == value:
        return {(ast.dump(test), value)}.union(*[f_pairs(v, value) for v in test.values])
    return {(ast.dump(test), value)}


class Scope:
    """one function (or module) body"""

    def __init__(self, body, params=(), outer=(), glob=(), class_names=()):
        self.bound = set(params)
        self.outer, self.glob = set(outer), set(glob)
        self.problems = []
        self.uses = 0
        self.locals_ = set(params) | set(self.assigned(body))
        self.declared = {n for st in body for x in ast.walk(st) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        self.breaks = []
        self.class_names = set(class_names)
        st = State(params, params)
        self.end = self.block(body, st)

    def assigned(self, body):
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                yield n.name
                stack += list(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        yield x.target.id
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                yield n.id
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name != "*":
                        yield (a.asname or a.name.split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                yield n.name
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                yield n.name
            if isinstance(n, ast.MatchMapping) and n.rest:
                yield n.rest
            stack += list(ast.iter_child_nodes(n))

    # ---------------------------------------------------------- uses
    def use(self, name, node, st, facts):
        self.uses += 1
        if st.dead:
            return
        if name in self.locals_ and name not in self.declared:
            if name in st.sure:
                return
            if name in self.class_names and (name in self.glob or name in BUILTINS):
                return
            if st.cond.get(name, set()) & facts:
                return
            if name not in st.maybe:
                self.problems.append(("unbound", name, node.lineno, f"{name} is used before it is bound"))
            else:
                self.problems.append(("maybe", name, node.lineno, f"{name} is not bound on every path to its use"))
            st.sure.add(name)
        elif name not in self.outer and name not in self.glob and name not in BUILTINS:
            self.problems.append(("undefined", name, node.lineno, f"{name} is not defined"))

    def expr(self, n, st, facts=frozenset(), inner=frozenset()):
        if n is None:
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id not in inner:
                self.use(n.id, n, st, facts)
            return
        if isinstance(n, ast.Lambda):
            a = n.args
            for d in a.defaults + [k for k in a.kw_defaults if k]:
                self.expr(d, st, facts, inner)
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            self.deferred(n.body, st, inner | ps)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inn = set(inner)
            for k, g in enumerate(n.generators):
                self.expr(g.iter, st, facts, frozenset(inn))
                inn |= set(target_names(g.target))
                for c in g.ifs:
                    self.expr(c, st, facts, frozenset(inn))
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.expr(e, st, facts, frozenset(inn))
            return
        if isinstance(n, ast.IfExp):
            self.expr(n.test, st, facts, inner)
            self.expr(n.body, st, facts | f_pairs(n.test, True), inner)
            self.expr(n.orelse, st, facts | f_pairs(n.test, False), inner)
            return
        if isinstance(n, ast.BoolOp):
            fs = set(facts)
            for v in n.values:
                self.expr(v, st, frozenset(fs), inner)
                fs |= f_pairs(v, isinstance(n.op, ast.And))
            return
        if isinstance(n, ast.NamedExpr):
            self.expr(n.value, st, facts, inner)
            self.bind(n.target.id, st)
            return
        for c in ast.iter_child_nodes(n):
            self.expr(c, st, facts, inner)

    def deferred(self, n, st, inner):
        """body run later: its free names may be bound at any point of this scope"""
        late = State(st.sure | self.locals_, st.maybe | self.locals_)
        self.expr(n, late, frozenset(), frozenset(inner))

    def bind(self, name, st):
        st.sure.add(name)
        st.maybe.add(name)
        st.cond.pop(name, None)

    # ---------------------------------------------------------- statements
    def block(self, body, st, facts=frozenset()):
        for s in body:
            st = self.stmt(s, st, facts)
        return st

    def target(self, t, st, facts):
        if isinstance(t, ast.Name):
            self.bind(t.id, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.target(e, st, facts)
        elif isinstance(t, ast.Starred):
            self.target(t.value, st, facts)
        else:
            for c in ast.iter_child_nodes(t):
                self.expr(c, st, facts)

    def function(self, s, st, facts):
        for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
            self.expr(d, st, facts)
        a = s.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        sub = Scope(s.body, ps, self.outer | self.locals_, self.glob)
        self.problems += sub.problems
        self.uses += sub.uses
        self.bind(s.name, st)

    def stmt(self, s, st, facts):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.function(s, st, facts)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(d, st, facts)
            sub = ClassScope(s, self)
            self.problems += sub.problems
            self.uses += sub.uses
            self.bind(s.name, st)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if a.name != "*":
                    self.bind(a.asname or a.name.split(".")[0], st)
        elif isinstance(s, ast.Assign):
            self.expr(s.value, st, facts)
            for t in s.targets:
                self.target(t, st, facts)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, st, facts)
                self.target(s.target, st, facts)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(s.target.id, s.target, st, facts)
            else:
                self.target(s.target, st, facts)
            self.expr(s.value, st, facts)
            if isinstance(s.target, ast.Name):
                self.bind(s.target.id, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(t.id, t, st, facts)
                    st.sure.discard(t.id)
                    st.maybe.discard(t.id)
                else:
                    self.target(t, st, facts)
        elif isinstance(s, ast.If):
            self.expr(s.test, st, facts)
            pt, pf = f_pairs(s.test, True), f_pairs(s.test, False)
            a = self.enter(st, pt)
            b = self.enter(st, pf)
            if isinstance(s.test, ast.Constant):
                (b if s.test.value else a).dead = True
            a = self.block(s.body, a, facts | pt)
            b = self.block(s.orelse, b, facts | pf)
            st = join(a, b, ast.dump(s.test))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, st, facts)
            self.breaks.append([])
            b = st.copy()
            self.target(s.target, b, facts)
            b.maybe |= set(self.assigned(s.body))
            b = self.block(s.body, b, facts)
            skip = st.copy()
            if not b.dead:
                skip.sure |= b.sure          # the sequence is supposed not to be empty
            for n in target_names(s.target):
                skip.sure.add(n)
            out = self.block(s.orelse, self.after(skip, b), facts)
            out = self.merge_breaks(out)
            st = out
        elif isinstance(s, ast.While):
            self.expr(s.test, st, facts)
            self.breaks.append([])
            b = self.enter(st, f_pairs(s.test, True))
            b.maybe |= set(self.assigned(s.body))
            b = self.block(s.body, b, facts | f_pairs(s.test, True))
            skip = st.copy()
            if not b.dead:
                skip.sure |= b.sure          # the body is supposed to be run
            elif self.breaks[-1]:
                skip.sure |= set.intersection(*[x.sure for x in self.breaks[-1]])
            if isinstance(s.test, ast.Constant) and s.test.value:
                skip.dead = True
                b.dead = True
            out = self.block(s.orelse, self.after(skip, b), facts)
            st = self.merge_breaks(out)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st, facts)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, st, facts)
            st = self.block(s.body, st, facts)
        elif isinstance(s, ast.Try):
            start = st.copy()
            done = self.block(s.body, st.copy(), facts)
            fin = done.copy()
            h0 = start.copy()
            h0.maybe |= set(self.assigned(s.body))
            outs = []
            for h in s.handlers:
                hs = h0.copy()
                self.expr(h.type, hs, facts)
                if h.name:
                    self.bind(h.name, hs)
                hs = self.block(h.body, hs, facts)
                if h.name:
                    hs.sure.discard(h.name)
                outs.append(hs)
            fin = self.block(s.orelse, fin, facts)
            for o in outs:
                fin = join(fin, o)
            if s.finalbody:
                if fin.dead:
                    f = self.block(s.finalbody, h0.copy(), facts)
                    f.dead = True
                    fin = f
                else:
                    fin = self.block(s.finalbody, fin, facts)
            st = fin
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st, facts)
            st = st.copy()
            st.dead = True
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.breaks and isinstance(s, ast.Break):
                self.breaks[-1].append(st.copy())
            st = st.copy()
            st.dead = True
        elif isinstance(s, ast.Match):
            self.expr(s.subject, st, facts)
            outs = [st.copy()]
            for c in s.cases:
                b = st.copy()
                for n in self.assigned([c.pattern]):
                    self.bind(n, b)
                self.expr(c.guard, b, facts)
                outs.append(self.block(c.body, b, facts))
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    outs[0].dead = True
            r = outs[0]
            for o in outs[1:]:
                r = join(r, o)
            st = r
        elif isinstance(s, ast.Assert):
            self.expr(s.test, st, facts)
            self.expr(s.msg, st, facts)
        elif isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                self.expr(c, st, facts)
        return st

    def enter(self, st, pairs):
        r = st.copy()
        for n, c in st.cond.items():
            if c & pairs:
                r.sure.add(n)
        return r

    def after(self, skip, body):
        """after a loop"""
        r = join(skip, body) if not body.dead else skip.copy()
        if body.dead:
            r.maybe |= body.maybe
        return r

    def merge_breaks(self, st):
        for b in self.breaks.pop():
            st = join(st, b)
        return st


class ClassScope(Scope):
    def __init__(self, node, outer):
        names = set(self.assigned(node.body))
        self.enclosing = outer
        super().__init__(node.body, (), outer.outer | (outer.locals_ if not isinstance(outer, ModuleScope) else set()), outer.glob, names)

    def function(self, s, st, facts):
        for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
            self.expr(d, st, facts)
        a = s.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        sub = Scope(s.body, ps, self.outer, self.glob)
        self.problems += sub.problems
        self.uses += sub.uses
        self.bind(s.name, st)

    def deferred(self, n, st, inner):
        self.expr(n, State(st.sure | self.locals_, st.maybe | self.locals_), frozenset(), frozenset(inner))


class ModuleScope(Scope):
    """module body: functions see every global name of the module"""

    def __init__(self, body, extra=()):
        names = set(self.assigned(body)) | set(extra)
        for n in ast.walk(ast.Module(body=body, type_ignores=[])):
            if isinstance(n, ast.Global):
                names |= set(n.names)
        super().__init__(body, extra, (), names)

    def function(self, s, st, facts):
        for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
            self.expr(d, st, facts)
        a = s.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        sub = Scope(s.body, ps, (), self.glob)
        self.problems += sub.problems
        self.uses += sub.uses
        self.bind(s.name, st)
