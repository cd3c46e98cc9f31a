"""Rewriting, before anything is analysed, of a few spellings into the plain ones they abbreviate.  Every
rewriting is exact (same values, same effects, same order of evaluation), and keeps line numbers:

  for n, x in enumerate(E)      with n never read          ->  for x in E
  for k in range(len(E))        with k read only in E[k],
                                E not changed in the loop  ->  for e in E
  c = T; if c / while ... / return c      with c read once ->  if T / return T
  try: x = D[K]  except KeyError: H       ->  if K in D: x = D[K]  else: H
  for _, g in groupby(S, key): for e in g ->  for e in S
"""
import ast

FUN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def names(node, ctx):
    return [x for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)]


def reads(node, n):
    return sum(x.id == n for x in names(node, ast.Load))


def writes(node, n):
    return sum(x.id == n for x in names(node, (ast.Store, ast.Del)))


def shared(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            out |= set(x.names)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec"):
            return None
    return out


def counted(it):
    """E of enumerate(E[, start])"""
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args \
            and len(it.args) <= 2 and not isinstance(it.args[0], ast.Starred) \
            and all(isinstance(a, ast.Constant) for a in it.args[1:]) \
            and all(k.arg == "start" and isinstance(k.value, ast.Constant) for k in it.keywords):
        return it.args[0]


def indexed(it):
    """name E of range(len(E))"""
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and not it.keywords:
        a = it.args
        if len(a) == 2 and isinstance(a[0], ast.Constant) and a[0].value == 0 and a[0].value is not False:
            a = a[1:]
        if len(a) == 1 and isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id == "len" \
                and len(a[0].args) == 1 and isinstance(a[0].args[0], ast.Name):
            return a[0].args[0].id


class Swap(ast.NodeTransformer):
    def __init__(self, seq, k, new):
        self.seq, self.k, self.new = seq, k, new

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id == self.seq \
                and isinstance(node.slice, ast.Name) and node.slice.id == self.k:
            return ast.copy_location(ast.Name(self.new, ast.Load()), node)
        return self.generic_visit(node)


def elementwise(E, k, parts, scope):
    """k is read only in E[k], inside `parts`, where E is only read through that"""
    if reads(scope, k) != sum(reads(p, k) for p in parts) or writes(scope, k) != 1:
        return False
    for p in parts:
        for x in ast.walk(p):
            if isinstance(x, FUN) and (reads(x, k) or reads(x, E)):
                return False        # would be evaluated later
    n = 0
    for p in parts:
        for x in ast.walk(p):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) \
                    and x.value.id == E and isinstance(x.slice, ast.Name) and x.slice.id == k:
                n += 1
    return n > 0 and n == sum(reads(p, k) for p in parts) == sum(reads(p, E) for p in parts) \
        and not any(writes(p, E) for p in parts)


def plain(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and plain(e.value)


def looked_up(s):
    """if K in D of try: <statement reading D[K], nothing else> except KeyError: handler"""
    if not isinstance(s, ast.Try) or len(s.body) != 1 or s.finalbody or len(s.handlers) != 1:
        return None
    h, st = s.handlers[0], s.body[0]
    if not (isinstance(h.type, ast.Name) and h.type.id == "KeyError") or h.name and any(reads(x, h.name) for x in h.body):
        return None
    if isinstance(st, ast.Assign):
        if not all(plain(t) for t in st.targets):
            return None
    elif not isinstance(st, (ast.Return, ast.Expr)):
        return None
    v = st.value
    if not (isinstance(v, ast.Subscript) and plain(v.value) and not isinstance(v.value, ast.Constant) and plain(v.slice)):
        return None
    test = ast.Compare(v.slice, [ast.In()], [v.value])
    new = ast.If(test, [st] + s.orelse, h.body)
    for x in (test, new):
        ast.copy_location(x, s)
    return ast.fix_missing_locations(new)


def grouped(it, target, scope, keep=()):
    """(S, g) of for _, g in groupby(S, key) with g read once in the scope"""
    if not (isinstance(it, ast.Call) and (isinstance(it.func, ast.Name) and it.func.id == "groupby" or isinstance(it.func, ast.Attribute)
            and it.func.attr == "groupby" and isinstance(it.func.value, ast.Name) and it.func.value.id == "itertools")):
        return None
    if not it.args or not (isinstance(target, ast.Tuple) and len(target.elts) == 2 and all(isinstance(x, ast.Name) for x in target.elts)):
        return None
    k, g = (x.id for x in target.elts)
    if k in keep or g in keep or reads(scope, k) != reads(it, k) or reads(scope, g) != 1 or k == g:
        return None
    return it.args[0], g


class Desugar:
    def __init__(self):
        self.n = 0

    def function(self, fn):
        sh = shared(fn)
        if sh is None:
            return
        args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        self.block_of(fn, fn, sh | args)

    def block_of(self, node, fn, keep):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b, fn, keep))
        for h in getattr(node, "handlers", []):
            h.body = self.block(h.body, fn, keep)
        for c in getattr(node, "cases", []):
            c.body = self.block(c.body, fn, keep)

    def once(self, s, fn, keep):
        """name bound by s and read exactly once in fn"""
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            n = s.targets[0].id
            if n not in keep and reads(fn, n) == 1 and writes(fn, n) == 1:
                return n

    def block(self, body, fn, keep):
        out, i = [], 0
        body = list(body)
        while i < len(body):
            s = looked_up(body[i]) or body[i]
            c = self.once(s, fn, keep)
            if c and i + 1 < len(body):
                t = body[i + 1]
                if isinstance(t, ast.If):
                    e, put = t.test, lambda v: setattr(t, "test", v)
                elif isinstance(t, ast.Return):
                    e, put = t.value, lambda v: setattr(t, "value", v)
                else:
                    e = None
                if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                    u = e
                    e, put = u.operand, lambda v: setattr(u, "operand", v)
                if isinstance(e, ast.Name) and e.id == c:
                    put(s.value)
                    i += 1
                    continue
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append(s)
                i += 1
                continue
            self.block_of(s, fn, keep)
            if isinstance(s, ast.For):
                self.for_(s, fn, keep)
            out.append(s)
            i += 1
        return out

    def for_(self, s, fn, keep):
        G = grouped(s.iter, s.target, fn, keep)
        if G is not None and len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.For) and not s.body[0].orelse \
                and isinstance(s.body[0].iter, ast.Name) and s.body[0].iter.id == G[1] \
                and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            s.iter, s.target, s.body = G[0], s.body[0].target, s.body[0].body
        E = counted(s.iter)
        if E is not None and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 \
                and isinstance(s.target.elts[0], ast.Name):
            n = s.target.elts[0].id
            if n not in keep and reads(fn, n) == 0:
                s.iter, s.target = E, s.target.elts[1]
            return
        E = indexed(s.iter)
        if E is not None and isinstance(s.target, ast.Name) and s.target.id not in keep \
                and elementwise(E, s.target.id, s.body, fn):
            k = s.target.id
            sw = Swap(E, k, k)
            s.body = [sw.visit(x) for x in s.body]
            s.iter = ast.copy_location(ast.Name(E, ast.Load()), s.iter)

    def comp(self, c):
        if shared(c) is None:
            return
        for i, g in enumerate(c.generators[:-1]):
            G = grouped(g.iter, g.target, c)
            h = c.generators[i + 1]
            if G is not None and not g.ifs and isinstance(h.iter, ast.Name) and h.iter.id == G[1]:
                h.iter = G[0]
                del c.generators[i]
                break
        for i, g in enumerate(c.generators):
            E = counted(g.iter)
            if E is not None and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 \
                    and isinstance(g.target.elts[0], ast.Name):
                if reads(c, g.target.elts[0].id) == reads(g.iter, g.target.elts[0].id):
                    g.iter, g.target = E, g.target.elts[1]
                continue
            E = indexed(g.iter)
            if E is not None and isinstance(g.target, ast.Name) and i == 0 and len(c.generators) == 1:
                k = g.target.id
                parts = list(g.ifs) + ([c.key, c.value] if isinstance(c, ast.DictComp) else [c.elt])
                if elementwise(E, k, parts, c):
                    sw = Swap(E, k, k)
                    g.ifs = [sw.visit(x) for x in g.ifs]
                    if isinstance(c, ast.DictComp):
                        c.key, c.value = sw.visit(c.key), sw.visit(c.value)
                    else:
                        c.elt = sw.visit(c.elt)
                    g.iter = ast.copy_location(ast.Name(E, ast.Load()), g.iter)


def desugar(tree):
    if any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in ("enumerate", "range", "len")
           for x in ast.walk(tree)):
        return tree
    d = Desugar()
    for x in ast.walk(tree):
        if isinstance(x, COMP):
            d.comp(x)
    for x in list(ast.walk(tree)):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            d.function(x)
    return tree
