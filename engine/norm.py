"""Smart constructors: every term the evaluator builds goes through these, so that
equivalent ways of writing a computation end in the same term."""
from fractions import Fraction
from . import terms as TT
from .terms import (T, mk, num, string, py, NONE, TRUE, FALSE, add, sub as nsub, mul, power, div, neg,
                    numval, subst, to_poly, contains)

BINDERS = ("for", "exists", "fold", "sumover", "prodover", "first", "lastof")


# ------------------------------------------------------------------ booleans
BOOLOPS = ("eq", "lt", "is", "in", "not", "and", "exists", "isinstance", "hasattr", "truth")


def is_bool(t):
    return t is TRUE or t is FALSE or t.op in BOOLOPS


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    tr = truth_const(a)
    if tr is not None:
        return py(not tr)
    return mk("not", a)


def and_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            out.extend(x.args)
        else:
            tr = truth_const(x)
            if tr is False:
                return FALSE
            if tr is True:
                continue
            out.append(x)
    uniq = sorted(set(out), key=lambda t: t.n)
    s = set(uniq)
    for x in uniq:
        if not_(x) in s:
            return FALSE
    if not uniq:
        return TRUE
    if len(uniq) == 1:
        return uniq[0]
    return mk("and", *uniq)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def truth_const(a):
    """python truth of a term when it is a known constant, else None"""
    if a.op == "py":
        v = a.args[0]
        if v is None or v is False:
            return False
        if v is True:
            return True
        return None
    if a.op == "num":
        return a.args[0] != 0
    if a.op == "str":
        return bool(a.args[0])
    if a.op == "coll":
        if not a.args[1]:
            return False
        if any(p.op not in ("splat", "for", "when", "app") for p in a.args[1]):
            return True
        return None
    if a.op in ("obj", "global", "bound", "closure", "self"):
        return True
    if a.op == "cat":
        if any(x.op == "str" and x.args[0] for x in a.args):
            return True
    return None


NONNULL = ("num", "str", "coll", "obj", "bound", "closure", "poly", "cat", "not", "and", "eq", "lt", "in",
           "isinstance", "is", "global", "self", "join", "tostr")


def is_(a, b):
    if a is b:
        return TRUE
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if o.op in NONNULL or (o.op == "py" and o is not NONE):
            return FALSE
        return mk("is", o, NONE)
    if a.op in ("py",) and b.op == "py":
        return FALSE
    if b.n < a.n:
        a, b = b, a
    return mk("is", a, b)


def eq_(a, b):
    if a is b:
        return TRUE
    ca = a.op in ("num", "str", "py")
    cb = b.op in ("num", "str", "py")
    if ca and cb:
        if a.op == b.op:
            return FALSE
        return FALSE
    # boolean comparison with a literal
    if b is TRUE or a is TRUE:
        o = a if b is TRUE else b
        if is_bool(o):
            return o
    if b is FALSE or a is FALSE:
        o = a if b is FALSE else b
        if is_bool(o):
            return not_(o)
    # emptiness
    for x, y in ((a, b), (b, a)):
        if x.op == "coll" and not x.args[1]:
            if y.op == "coll":
                t = truth_const(y)
                if t is not None:
                    return py(not t)
            if y.op in ("num", "str", "py"):
                return FALSE
            return mk("not", truthy(y))
        if x.op == "num" and x.args[0] == 0 and y.op == "len":
            return mk("not", truthy(y.args[0]))
    if b.n < a.n:
        a, b = b, a
    return mk("eq", a, b)


def truthy(t):
    """condition term of `if t:`"""
    c = truth_const(t)
    if c is not None:
        return py(c)
    if is_bool(t) or t.op == "phi" and all(is_bool(x) for x in t.args):
        return t
    if t.op == "len":
        return truthy(t.args[0])
    if t.op == "phi":
        return phi(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    return mk("truth", t)


def lt_(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return py(va < vb)
    d = nsub(a, b)
    if d.op == "num":
        return py(d.args[0] < 0)
    # 0 < len(x)
    if va == 0 and b.op == "len":
        return truthy(b.args[0])
    if vb == 1 and a.op == "len":
        return not_(truthy(a.args[0]))
    return mk("lt", a, b)


def compare(op, a, b):
    if op == "Eq":
        return eq_(a, b)
    if op == "NotEq":
        return not_(eq_(a, b))
    if op == "Is":
        return is_(a, b)
    if op == "IsNot":
        return not_(is_(a, b))
    if op == "In":
        return in_(a, b)
    if op == "NotIn":
        return not_(in_(a, b))
    if op in ("Lt", "LtE", "Gt", "GtE") and any(x.op == "coll" and x.args[0] == "set" for x in (a, b)):
        # inclusion of sets (a partial order)
        x, y = (a, b) if op in ("Lt", "LtE") else (b, a)
        r = truthy(mk("call", mk("attr", x, "issubset"), (y,), ()))
        return r if op in ("LtE", "GtE") else and_(r, not_(eq_(x, y)))
    if op == "Lt":
        return lt_(a, b)
    if op == "Gt":
        return lt_(b, a)
    if op == "LtE":
        return not_(lt_(b, a))
    if op == "GtE":
        return not_(lt_(a, b))
    return mk("cmp", op, a, b)


def in_(a, b):
    if b.op == "coll":
        keys = []
        plain = True
        for p in b.args[1]:
            if p.op in ("splat", "for", "when", "app"):
                plain = False
            else:
                keys.append(p.args[0] if b.args[0] == "dict" and p.op == "kv" else p)
        if a in keys:
            return TRUE
        if plain:
            if not keys:
                return FALSE
            return or_(*[eq_(a, k) for k in keys])
        if b.args[0] != "dict" or True:
            # membership in a comprehension
            outs = []
            for p in b.args[1]:
                outs.append(_in_part(a, p, b.args[0]))
            return or_(*outs)
    if b.op == "keysof":
        return in_(a, b.args[0])
    if b.op == "bitor":
        return or_(*[in_(a, y) for y in b.args])
    if b.op == "bitand":
        return and_(*[in_(a, y) for y in b.args])
    if a.op == "str" and b.op == "str":
        return py(a.args[0] in b.args[0])
    return mk("in", a, b)


def _in_part(a, p, kind):
    if p.op == "splat":
        return in_(a, p.args[0])
    if p.op == "for":
        return exists(p.args[0], or_(*[_in_part(a, q, kind) for q in p.args[1]]))
    if p.op == "when":
        return and_(p.args[0], or_(*[_in_part(a, q, kind) for q in p.args[1]]))
    if p.op == "app":
        return FALSE
    if kind == "dict" and p.op == "kv":
        return eq_(a, p.args[0])
    return eq_(a, p)


def exists(ix, c):
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return truthy(mk("len", mk("rangeof", ix.args[0]))) if False else lt_(num(0), ix.args[0])
    # exists i: a == X[i]   ->  a in X
    if c.op == "eq":
        for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
            if y.op == "sub" and y.args[1] is ix and not TT.has_term(x, ix) and len_(y.args[0]) is ix.args[0] \
                    and not TT.has_term(y.args[0], ix):
                return mk("in", x, y.args[0])
    if not TT.has_term(c, ix):
        return and_(lt_(num(0), ix.args[0]), c)
    # factor conjuncts not depending on ix out
    if c.op == "and":
        out = [x for x in c.args if not TT.has_term(x, ix)]
        if out:
            ins = [x for x in c.args if TT.has_term(x, ix)]
            return and_(*out, exists(ix, and_(*ins)))
    # or distributes
    if c.op == "not" and c.args[0].op == "and":
        return or_(*[exists(ix, not_(x)) for x in c.args[0].args])
    return mk("exists", ix, c)


def phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is FALSE and is_bool(b):
        return and_(not_(c), b)
    if b is FALSE and is_bool(a):
        return and_(c, a)
    if a is TRUE and is_bool(b):
        return or_(c, b)
    if b is TRUE and is_bool(a):
        return or_(not_(c), a)
    # nested same condition
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    # x if x == k else ..  : leave
    if a.op == "coll" and b.op == "coll" and a.args[0] == b.args[0]:
        return phi_coll(c, a, b)
    # f(A) or f(B) of two collections: f(A or B)
    if a.op == "call" and b.op == "call" and a.args[0] is b.args[0] and a.args[0].op == "global" and len(a.args) == len(b.args) \
            and a.args[2:] == b.args[2:] and len(a.args[1]) == len(b.args[1]) and a.args[0].args[0].split(".")[-1] in ("array", "asarray"):
        ds = [i for i, (x, y) in enumerate(zip(a.args[1], b.args[1])) if x is not y]
        if len(ds) == 1:
            x, y = a.args[1][ds[0]], b.args[1][ds[0]]
            if x.op == "coll" and y.op == "coll" and x.args[0] == y.args[0]:
                new = list(a.args[1])
                new[ds[0]] = phi_coll(c, x, y)
                return mk("call", a.args[0], tuple(new), *a.args[2:])
    # max / min idioms
    if c.op == "lt":
        x, y = c.args
        if (a is y and b is x):
            return mk("max", *sorted((x, y), key=lambda t: t.n))
        if (a is x and b is y):
            return mk("min", *sorted((x, y), key=lambda t: t.n))
    # phi(c, a, phi(d, a, b')) -> phi(c or d, a, b')
    if b.op == "phi" and b.args[1] is a:
        return phi(or_(c, b.args[0]), a, b.args[2])
    if b.op == "phi" and b.args[2] is a:
        return phi(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == "phi" and a.args[1] is b:
        return phi(or_(not_(c), a.args[0]), b, a.args[2])
    if a.op == "phi" and a.args[2] is b:
        return phi(and_(c, a.args[0]), a.args[1], b)
    return mk("phi", c, a, b)


def phi_coll(c, a, b):
    kind = a.args[0]
    pa, pb = list(a.args[1]), list(b.args[1])
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    pre, ra, rb = pa[:i], pa[i:], pb[i:]
    j = 0
    while j < len(ra) and j < len(rb) and ra[-1 - j] is rb[-1 - j]:
        j += 1
    suf = ra[len(ra) - j:]
    ra, rb = ra[:len(ra) - j], rb[:len(rb) - j]
    if len(ra) == len(rb) and kind in ("list", "tuple") and all(
            x.op not in ("splat", "for", "when", "app") for x in ra + rb):
        mid = [phi(c, x, y) for x, y in zip(ra, rb)]
        return coll(kind, *pre, *mid, *suf)
    if len(ra) == len(rb) and kind == "dict" and all(
            x.op == "kv" and y.op == "kv" and x.args[0] is y.args[0] for x, y in zip(ra, rb)):
        mid = [mk("kv", x.args[0], phi(c, x.args[1], y.args[1])) for x, y in zip(ra, rb)]
        return coll(kind, *pre, *mid, *suf)
    out = list(pre)
    if ra:
        out.append(when(c, tuple(ra)))
    if rb:
        out.append(when(not_(c), tuple(rb)))
    return coll(kind, *out, *suf)


def when(c, parts):
    parts = tuple(parts)
    if len(parts) == 1 and parts[0].op == "when":
        return when(and_(c, parts[0].args[0]), parts[0].args[1])
    return mk("when", c, parts)


def for_(ix, parts):
    return mk("for", ix, tuple(parts))


def assume(t, c, val, depth=0):
    """simplify the outermost phis of t whose condition is decided by c == val"""
    if t.op != "phi" or depth > 8:
        return t
    k = known(t.args[0], c, val)
    if k is True:
        return assume(t.args[1], c, val, depth + 1)
    if k is False:
        return assume(t.args[2], c, val, depth + 1)
    return t


def known(q, c, val):
    if q is c:
        return val
    if q is not_(c):
        return not val
    if val and c.op == "and":
        for x in c.args:
            r = known(q, x, True)
            if r is not None:
                return r
    if not val and c.op == "not" and c.args[0].op == "and":
        pass
    if q.op == "and":
        rs = [known(x, c, val) for x in q.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
    if q.op == "not":
        r = known(q.args[0], c, val)
        return None if r is None else (not r)
    return None


def decide(q, facts):
    """decide boolean term q from a set of fact terms (each true)"""
    if q is TRUE:
        return True
    if q is FALSE:
        return False
    if q in facts:
        return True
    if not_(q) in facts:
        return False
    if q.op == "and":
        rs = [decide(x, facts) for x in q.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if q.op == "not":
        r = decide(q.args[0], facts)
        return None if r is None else (not r)
    for f in facts:
        r = known(q, f, True)
        if r is not None:
            return r
    if q.op == "lt":
        # x < y known false when y < x or x == y is known
        if lt_(q.args[1], q.args[0]) in facts or eq_(*q.args) in facts:
            return False
    if q.op == "eq":
        if lt_(q.args[0], q.args[1]) in facts or lt_(q.args[1], q.args[0]) in facts:
            return False
        # x == const1 known, const2 != const1
        for f in facts:
            if f.op == "eq":
                for a, b in ((f.args[0], f.args[1]), (f.args[1], f.args[0])):
                    if a in q.args and b.op in ("num", "str", "py"):
                        o = q.args[0] if q.args[1] is a else q.args[1]
                        if o.op in ("num", "str", "py") and o is not b:
                            return False
    for h in DECIDE_HOOKS:
        r = h(q, facts)
        if r is not None:
            return r
    return None


DECIDE_HOOKS = []


def specialise(t, facts, memo=None):
    """rebuild t with every phi / when / boolean decided by facts resolved"""
    memo = {} if memo is None else memo
    facts = set(facts)

    def f(x):
        if x in memo:
            return memo[x]
        memo[x] = x
        if x.op == "phi":
            c = f(x.args[0])
            d = decide(x.args[0], facts)
            if d is None:
                d = decide(c, facts)
            if d is True:
                y = f(x.args[1])
            elif d is False:
                y = f(x.args[2])
            else:
                y = phi(c, f(x.args[1]), f(x.args[2]))
        elif is_bool(x) and x.op not in ("py",):
            d = decide(x, facts)
            y = py(d) if d is not None else TT.rebuild(x, f)
        else:
            y = TT.rebuild(x, f)
        memo[x] = y
        return y
    return f(t)


# --------------------------------------------------------------- collections
MARK = ("splat", "for", "when", "app")


def coll(kind, *parts):
    out = []
    for p in parts:
        p = norm_part(p, kind)
        out.extend(p)
    if kind == "dict":
        out = _dedup_dict(out)
    if kind == "set":
        seen, o2 = set(), []
        for p in out:
            if p not in seen:
                seen.add(p)
                o2.append(p)
        out = o2
    return mk("coll", kind, tuple(out))


def _dedup_dict(parts):
    """a later unconditional kv(k, ..) replaces an earlier kv with the same key in place"""
    out = []
    pos = {}
    for p in parts:
        if p.op == "kv":
            if p.args[0] in pos:
                out[pos[p.args[0]]] = p
                continue
            pos[p.args[0]] = len(out)
        elif p.op in MARK:
            # opaque part: later kv may not move before it
            if p.op != "kv":
                pos = {}
        out.append(p)
    return out


def norm_part(p, kind):
    if p.op == "splat":
        x = p.args[0]
        if x.op == "coll":
            if kind == "dict" and x.args[0] != "dict":
                return [p]
            if kind != "dict" and x.args[0] == "dict":
                return _keys_parts(x.args[1])
            return list(x.args[1])
        if x.op == "phi":
            a, b = x.args[1], x.args[2]
            if a.op == "coll" or b.op == "coll":
                pa, pb = norm_part(mk("splat", a), kind), norm_part(mk("splat", b), kind)
                out = []
                if pa:
                    out.append(when(x.args[0], tuple(pa)))
                if pb:
                    out.append(when(not_(x.args[0]), tuple(pb)))
                return out
        return [p]
    if p.op == "for":
        ix, ps = p.args
        body = []
        for q in ps:
            body.extend(norm_part(q, kind))
        if not body:
            return []
        nv = numval(ix.args[0])
        if nv is not None and nv.denominator == 1 and nv <= 12:
            out = []
            for i in range(int(nv)):
                for q in body:
                    out.extend(norm_part(subst(q, {ix: num(i)}), kind))
            return out
        # for i: splat of X[i] over whole X  ==> splat X  (identity map)
        if len(body) == 1 and body[0].op == "sub" and body[0].args[1] is ix and kind != "dict":
            X = body[0].args[0]
            if not TT.has_term(X, ix) and len_(X) is ix.args[0]:
                return norm_part(mk("splat", X), kind)
        if len(body) == 1 and body[0].op == "kv" and kind == "dict":
            k, v = body[0].args
            if k.op == "sub" and k.args[1] is ix and v.op == "sub" and v.args[0] is k.args[0] and v.args[1] is k \
                    and not TT.has_term(k.args[0], ix):
                return [mk("splat", k.args[0])]
        return [mk("for", ix, tuple(body))]
    if p.op == "when":
        c, ps = p.args
        if c is FALSE:
            return []
        body = []
        for q in ps:
            body.extend(norm_part(q, kind))
        if c is TRUE:
            return body
        if not body:
            return []
        return [when(c, tuple(body))]
    return [p]


def _keys_parts(parts):
    out = []
    for p in parts:
        if p.op == "kv":
            out.append(p.args[0])
        elif p.op == "splat":
            out.append(p)
        elif p.op == "for":
            out.append(mk("for", p.args[0], tuple(_keys_parts(p.args[1]))))
        elif p.op == "when":
            out.append(mk("when", p.args[0], tuple(_keys_parts(p.args[1]))))
        elif p.op == "app":
            continue
        else:
            out.append(p)
    return out


def keys_of(x, kind="list"):
    if x.op == "coll" and x.args[0] == "dict":
        if has_app(x):                      # groups: the keys are distinct values of the grouping function
            return mk("keysof", x)
        return coll(kind, *_keys_parts(x.args[1]))
    return x


def _vals_parts(parts):
    out = []
    for p in parts:
        if p.op == "kv":
            out.append(p.args[1])
        elif p.op == "splat":
            out.append(mk("splat", mk("valuesof", p.args[0])))
        elif p.op == "for":
            out.append(mk("for", p.args[0], tuple(_vals_parts(p.args[1]))))
        elif p.op == "when":
            out.append(mk("when", p.args[0], tuple(_vals_parts(p.args[1]))))
    return out


def _items_parts(parts):
    out = []
    for p in parts:
        if p.op == "kv":
            out.append(coll("tuple", p.args[0], p.args[1]))
        elif p.op == "splat":
            out.append(mk("splat", mk("itemsof", p.args[0])))
        elif p.op == "for":
            out.append(mk("for", p.args[0], tuple(_items_parts(p.args[1]))))
        elif p.op == "when":
            out.append(mk("when", p.args[0], tuple(_items_parts(p.args[1]))))
    return out


def has_app(x):
    return x.op == "coll" and any(p.op == "app" or (p.op in ("for", "when") and contains(p, lambda q: q.op == "app"))
                                  for p in x.args[1])


def values_of(x):
    if x.op == "coll" and x.args[0] == "dict" and not has_app(x):
        return coll("list", *_vals_parts(x.args[1]))
    return mk("valuesof", x)


def items_of(x):
    if x.op == "coll" and x.args[0] == "dict" and not has_app(x):
        return coll("list", *_items_parts(x.args[1]))
    return mk("itemsof", x)


def to_dict(x):
    """dict(iterable of pairs)"""
    if x.op == "coll" and x.args[0] == "dict":
        return x
    if x.op == "coll":
        ps = _pairs(x.args[1])
        if ps is not None:
            return coll("dict", *ps)
    if x.op in ("zip", "itemsof", "enum"):
        ix, e = iterate1(x, 0)
        if e.op == "coll" and len(e.args[1]) == 2:
            return coll("dict", for_(ix, (mk("kv", e.args[1][0], e.args[1][1]),)))
    return coll("dict", mk("splat", x))


def _pairs(parts):
    out = []
    for p in parts:
        if p.op == "coll" and p.args[0] in ("tuple", "list") and len(p.args[1]) == 2 and \
                not any(q.op in MARK for q in p.args[1]):
            out.append(mk("kv", p.args[1][0], p.args[1][1]))
        elif p.op == "for":
            q = _pairs(p.args[1])
            if q is None:
                return None
            out.append(mk("for", p.args[0], tuple(q)))
        elif p.op == "when":
            q = _pairs(p.args[1])
            if q is None:
                return None
            out.append(mk("when", p.args[0], tuple(q)))
        else:
            return None
    return out


def concat(a, b):
    kind = a.args[0] if a.op == "coll" else (b.args[0] if b.op == "coll" else "list")
    return coll(kind, mk("splat", a), mk("splat", b))


def recoll(kind, x):
    """list(x), tuple(x), set(x)"""
    if x.op == "coll":
        if x.args[0] == "dict":
            return keys_of(x, kind)
        return coll(kind, *x.args[1])
    if x.op in ("zip", "enum", "itemsof", "valuesof", "rangeT"):
        ix, e = iterate1(x, 0)
        return coll(kind, for_(ix, (e,)))
    if x.op == "phi":
        a, b = x.args[1], x.args[2]
        if a.op == "coll" and b.op == "coll":
            return phi(x.args[0], recoll(kind, a), recoll(kind, b))
    return coll(kind, mk("splat", x))


def len_(x):
    if x.op == "coll":
        return len_parts(x)
    if x.op == "str":
        return num(len(x.args[0]))
    if x.op == "rangeT":
        a, b, s = x.args
        if numval(s) == 1:
            return nsub(b, a)
        return mk("len", x)
    if x.op in ("zip",):
        ls = [len_(y) for y in x.args]
        out = ls[0]
        for l in ls[1:]:
            if l is not out:
                d = nsub(l, out)
                if d.op == "num":
                    if d.args[0] < 0:
                        out = l
                else:
                    out = mk("min", *sorted((out, l), key=lambda t: t.n))
        return out
    if x.op in ("enum", "itemsof", "valuesof", "keysof", "reversedT", "rangeof"):
        return len_(x.args[0]) if x.op != "rangeof" else x.args[0]
    if x.op == "phi":
        return phi(x.args[0], len_(x.args[1]), len_(x.args[2]))
    if x.op == "sub" and x.args[1].op == "slice":
        base = x.args[0]
        lo, hi, st = x.args[1].args
        if st is NONE or numval(st) == 1:
            n = len_(base)
            l = num(0) if lo is NONE else lo
            h = n if hi is NONE else hi
            lv, hv = numval(l), numval(h)
            if lv is not None and lv < 0:
                l = add(n, l)
            if hv is not None and hv < 0:
                h = add(n, h)
            return nsub(h, l)
    if x.op == "repeat":
        return mul(x.args[0], len_(x.args[1]))
    return mk("len", x)


def len_parts(x):
    tot = num(0)
    if x.args[0] in ("set",) and len(x.args[1]) > 1:
        if any(p.op in MARK for p in x.args[1]):
            return mk("len", x)
    for p in x.args[1]:
        if p.op == "splat":
            if x.args[0] == "set":
                return mk("len", x)
            tot = add(tot, len_(p.args[0]))
        elif p.op == "for":
            body = p.args[1]
            if any(q.op in MARK for q in body) or (x.args[0] in ("set",)):
                return mk("len", x)
            tot = add(tot, mul(p.args[0].args[0], num(len(body))))
        elif p.op in ("when", "app"):
            return mk("len", x)
        else:
            tot = add(tot, num(1))
    return tot


def slice_(lo, hi, st):
    if lo.op == "num" and lo.args[0] == 0:
        lo = NONE
    if st.op == "num" and st.args[0] == 1:
        st = NONE
    return mk("slice", lo, hi, st)


def sub_(x, i):
    """x[i]"""
    if x.op == "phi":
        a, b = sub_(x.args[1], i), sub_(x.args[2], i)
        if not (a.op == "sub" and b.op == "sub" and a.args[0] is x.args[1] and b.args[0] is x.args[2]):
            return phi(x.args[0], a, b)
    if i.op == "slice":
        return slice_of(x, i)
    if x.op == "coll":
        kind, ps = x.args
        if kind in ("list", "tuple"):
            v = numval(i)
            if v is not None and v.denominator == 1:
                v = int(v)
                if v >= 0:
                    if all(p.op not in MARK for p in ps[:v + 1]) and v < len(ps):
                        return ps[v]
                else:
                    if -v <= len(ps) and all(p.op not in MARK for p in ps[v:]):
                        return ps[v]
            if len(ps) == 1 and ps[0].op == "for" and len(ps[0].args[1]) == 1 and ps[0].args[1][0].op not in MARK:
                if not (v is not None and v < 0):
                    return subst(ps[0].args[1][0], {ps[0].args[0]: i})
                if v is not None and v < 0:
                    return subst(ps[0].args[1][0], {ps[0].args[0]: add(ps[0].args[0].args[0], num(v))})
            if len(ps) == 1 and ps[0].op == "splat":
                return sub_(ps[0].args[0], i)
        if kind == "dict":
            cand = None
            for p in reversed(ps):
                if p.op == "kv":
                    if p.args[0] is i:
                        return p.args[1]
                    if p.args[0].op in ("str", "num") and i.op in ("str", "num"):
                        continue
                    if len(ps) > 1 and not all(q.op == "kv" for q in ps):
                        break
                    continue
                if p.op == "for" and len(p.args[1]) == 1 and p.args[1][0].op == "kv":
                    k, v = p.args[1][0].args
                    ix = p.args[0]
                    # key of the same family: {k(i): v(i)} [k(j)]
                    j = match_index(k, ix, i)
                    if j is not None:
                        return subst(v, {ix: j})
                if p.op == "splat" and len(ps) == 1:
                    return sub_(p.args[0], i)
                break
    if x.op == "rangeT":
        return add(x.args[0], mul(i, x.args[2]))
    if x.op == "zip":
        return coll("tuple", *[sub_(y, i) for y in x.args])
    if x.op == "enum":
        return coll("tuple", add(i, x.args[1]), sub_(x.args[0], i))
    if x.op == "sub" and x.args[1].op == "slice":
        lo, hi, st = x.args[1].args
        if st is NONE and (numval(i) is None or numval(i) >= 0):
            if lo is NONE:
                return sub_(x.args[0], i)
            lv = numval(lo)
            if lv is None or lv >= 0:
                return sub_(x.args[0], add(i, lo))
        if st is NONE and numval(i) == -1 and hi is NONE:
            return sub_(x.args[0], i)
    if x.op == "valuesof":
        return sub_(x.args[0], sub_(x.args[0], i))
    if x.op == "itemsof":
        k = sub_(x.args[0], i)
        return coll("tuple", k, sub_(x.args[0], k))
    if x.op == "keysof":
        return sub_(x.args[0], i)
    if x.op == "reversedT":
        return sub_(x.args[0], nsub(nsub(len_(x.args[0]), num(1)), i))
    # x[len(x)-1] -> x[-1]
    if i.op == "poly":
        d = nsub(i, len_(x))
        if d.op == "num" and d.args[0] < 0 and d.args[0].denominator == 1:
            i = d
    return mk("sub", x, i)


def match_index(k, ix, target):
    """j such that k[ix:=j] is target, when k is injective in ix by shape (a container element)"""
    if k.op == "sub" and k.args[1] is ix:
        if target.op == "sub" and target.args[0] is k.args[0]:
            return target.args[1]
        return None
    if k is ix:
        return target
    if k.op == target.op and k.op in ("attr", "call", "app1"):
        # same constructor around the element
        if k.op == "attr" and k.args[1] == target.args[1]:
            return match_index(k.args[0], ix, target.args[0])
        if k.op == "call" and k.args[0] is target.args[0] and len(k.args[1]) == len(target.args[1]) \
                and k.args[2] == target.args[2]:
            js = set()
            for a, b in zip(k.args[1], target.args[1]):
                if a is b and not TT.has_term(a, ix):
                    continue
                j = match_index(a, ix, b)
                if j is None:
                    return None
                js.add(j)
            if len(js) == 1:
                return js.pop()
    return None


def slice_of(x, s):
    lo, hi, st = s.args
    if x.op == "coll" and x.args[0] in ("list", "tuple") and all(p.op not in MARK for p in x.args[1]):
        vs = []
        for q in (lo, hi, st):
            if q is NONE:
                vs.append(None)
            elif numval(q) is not None:
                vs.append(int(numval(q)))
            else:
                return mk("sub", x, s)
        return coll(x.args[0], *x.args[1][slice(*vs)])
    if x.op == "cat" and lo is NONE and numval(hi) == -1 and st is NONE and x.args[-1].op == "str":
        return cat(*x.args[:-1], string(x.args[-1].args[0][:-1]))
    if x.op == "str":
        try:
            vs = [None if q is NONE else int(numval(q)) for q in (lo, hi, st)]
            return string(x.args[0][slice(*vs)])
        except Exception:
            pass
    if lo is NONE and hi is NONE and st is NONE:
        return recoll("list", x) if x.op == "coll" else mk("sub", x, s)
    if lo is NONE and hi is NONE and numval(st) == -1:
        return mk("reversedT", x)
    if x.op == "sub" and x.args[1].op == "slice" and st is NONE and x.args[1].args[2] is NONE:
        l2, h2, _ = x.args[1].args
        if h2 is NONE and hi is NONE:
            return sub_(x.args[0], slice_(add(num(0) if l2 is NONE else l2, num(0) if lo is NONE else lo), NONE, NONE))
    return mk("sub", x, s)


def iterate1(x, level):
    """(ix, element) for a summarised iteration over x"""
    n = len_(x)
    ix = mk("ix", n, level)
    return ix, sub_(x, ix)


# ------------------------------------------------------------------- strings
def tostr(t):
    if t.op in ("str", "cat", "tostr", "join"):
        return t
    if t.op == "num" and t.args[0].denominator == 1:
        return string(str(int(t.args[0])))
    if t is NONE or t is TRUE or t is FALSE:
        return string(str(t.args[0]))
    if t.op == "phi":
        return phi(t.args[0], tostr(t.args[1]), tostr(t.args[2]))
    return mk("tostr", t)


def cat(*xs):
    out = []
    for x in xs:
        x = tostr(x)
        ys = x.args if x.op == "cat" else (x,)
        for y in ys:
            if y.op == "str" and y.args[0] == "":
                continue
            if y.op == "str" and out and out[-1].op == "str":
                out[-1] = string(out[-1].args[0] + y.args[0])
            else:
                out.append(y)
    if not out:
        return string("")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def is_strish(t):
    if t.op == "attr" and t.args[1] in ("name", "__name__", "code") or \
            t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1].endswith("coords_code"):
        return True
    return t.op in ("str", "cat", "tostr", "join") or (t.op == "phi" and is_strish(t.args[1]) and is_strish(t.args[2]))


def join(sep, x):
    if x.op == "coll" and sep.op == "str" and all(p.op not in MARK for p in x.args[1]):
        out = []
        for k, p in enumerate(x.args[1]):
            if k:
                out.append(sep)
            out.append(p)
        return cat(*out)
    return mk("join", sep, x)


# --------------------------------------------------------------- re-normalise
CALL_HOOK = [lambda f, a, k: None]


def call(f, args, kwargs=()):
    r = CALL_HOOK[0](f, tuple(args), tuple(kwargs))
    if r is not None:
        return r
    return mk("call", f, tuple(args), tuple(sorted(kwargs, key=lambda p: p[0] or "")))


def attr(o, name):
    if o.op == "phi" and o.args[1].op == "global":
        pass
    return mk("attr", o, name)


_RENORM = {
    "phi": phi, "coll": lambda kind, parts: coll(kind, *parts), "not": not_, "and": and_, "eq": eq_, "lt": lt_,
    "is": is_, "in": in_, "sub": sub_, "len": len_, "tostr": tostr, "cat": cat, "join": join, "exists": exists,
    "call": lambda f, a, k: call(f, a, k), "slice": slice_, "itemsof": items_of, "valuesof": values_of,
    "truth": truthy, "pow": power,
}


def renorm(op, args):
    f = _RENORM.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


TT.NORMALISE[0] = renorm
TT_BINDERS = BINDERS
