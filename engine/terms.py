"""Hash-consed value-graph terms with an arithmetic normal form.

A term T(op, args) is a node of the gated value graph the evaluator builds.
Arithmetic is kept in a normal form (sum of monomials with rational
coefficients, Matrix-valued factors kept in order) so that reordering,
re-association and helper extraction do not change a term.
"""
from fractions import Fraction

_INTERN = {}


class T:
    __slots__ = ("op", "args", "n", "fv")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.n < other.n


def mk(op, *args):
    key = (op, args)
    t = _INTERN.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        t.n = len(_INTERN)
        fv = _fv(args, _EMPTY)
        if op in ("ix", "carry", "ref"):
            fv = fv | {t}
        t.fv = fv
        _INTERN[key] = t
    return t


_EMPTY = frozenset()


def _fv(x, acc):
    """loop indices, carried values and references occurring in a term (kept with the node)"""
    for y in x:
        if isinstance(y, T):
            if y.fv:
                acc = acc | y.fv if acc else y.fv
        elif isinstance(y, tuple):
            acc = _fv(y, acc)
    return acc


# ---------------------------------------------------------------- constants
def num(v):
    if isinstance(v, bool):
        return mk("py", v)
    if isinstance(v, float):
        v = Fraction(repr(v)) if v == v and v not in (float("inf"), float("-inf")) else None
        if v is None:
            return mk("py", "nonfinite")
    return mk("num", Fraction(v))


def py(v):
    return mk("py", v)


NONE, TRUE, FALSE = py(None), py(True), py(False)


def string(s):
    return mk("str", s)


def const(v):
    if v is None or isinstance(v, bool) or v is Ellipsis:
        return py(v) if v is not Ellipsis else mk("py", "...")
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return string(v)
    if isinstance(v, complex):
        return mk("py", ("complex", str(v)))
    if isinstance(v, bytes):
        return mk("py", ("bytes", v))
    return mk("py", repr(v))


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


# --------------------------------------------------------------- arithmetic
# poly: T('poly', ((mono, coef), ...)); mono = (comm, nc)
#   comm = ((atom, exponent Fraction), ...) sorted by atom.n;  nc = (T, ...)

NC_HOOK = [lambda t: False]      # predicate: is this atom a Matrix (non commutative) value?


def _mono_mul(m1, m2):
    comm = dict(m1[0])
    for a, e in m2[0]:
        comm[a] = comm.get(a, 0) + e
        if comm[a] == 0:
            del comm[a]
    return (tuple(sorted(comm.items(), key=lambda p: p[0].n)), m1[1] + m2[1])


def to_poly(t):
    """dict mono -> Fraction"""
    if t.op == "num":
        return {((), ()): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "matmulchain":
        return {((), t.args): Fraction(1)}
    if NC_HOOK[0](t):
        return {((), (t,)): Fraction(1)}
    return {(((t, Fraction(1)),), ()): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1:
            if not m[0] and not m[1]:
                return num(1)
            if len(m[0]) == 1 and not m[1] and m[0][0][1] == 1:
                return m[0][0][0]
            if not m[0] and len(m[1]) == 1:
                return m[1][0]
        if not m[0] and not m[1]:
            return mk("num", c)
    items = tuple(sorted(p.items(), key=lambda mc: (tuple((a.n, e) for a, e in mc[0][0]),
                                                    tuple(a.n for a in mc[0][1]))))
    return mk("poly", items)


def add(a, b):
    pa, pb = to_poly(a), dict(to_poly(b))
    for m, c in pa.items():
        pb[m] = pb.get(m, 0) + c
    return from_poly(pb)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 400:
        return mk("bigmul", a, b)
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return from_poly(out)


def power(a, e):
    """a ** e"""
    ev = numval(e)
    if ev is None:
        return mk("pow", a, e)
    if a.op == "num":
        if ev.denominator == 1 and (a.args[0] != 0 or ev >= 0) and abs(ev) < 64:
            return mk("num", a.args[0] ** int(ev))
        return mk("pow", a, e)
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if not m[1]:
            if c == 1:
                return from_poly({(tuple((x, k * ev) for x, k in m[0] if k * ev != 0), ()): Fraction(1)})
            if ev.denominator == 1:
                return from_poly({(tuple((x, k * ev) for x, k in m[0] if k * ev != 0), ()): c ** int(ev)})
    if ev.denominator == 1 and 0 <= ev <= 4:
        out = num(1)
        for _ in range(int(ev)):
            out = mul(out, a)
        return out
    if ev == 1:
        return a
    atom = mk("pw", a, e)
    # keep (poly)**-k as atom base with exponent
    return from_poly({(((mk("grp", a), ev),), ()): Fraction(1)}) if not _has_nc(a) else atom


def _has_nc(t):
    return any(m[1] for m in to_poly(t))


def div(a, b):
    return mul(a, power(b, num(-1)))


# --------------------------------------------------------------- structure
def children(t):
    """immediate sub-terms of t"""
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    rec(t.args)
    return out


def walk(t, seen=None):
    """all sub-terms (each once), pre-order"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(reversed(children(x)))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def has_op(t, op):
    """does t contain an ix / carry / ref"""
    return any(x.op == op for x in t.fv)


def has_term(t, sub_):
    if sub_.op in ("ix", "carry", "ref"):
        return sub_ in t.fv
    return any(x is sub_ for x in walk(t))


def rebuild(t, f):
    """rebuild t with f applied to its children, re-normalising arithmetic"""
    if t.op == "num" or t.op == "str" or t.op == "py":
        return t
    if t.op == "poly":
        out = num(0)
        for (comm, nc), c in t.args[0]:
            term = mk("num", c)
            for a, e in comm:
                term = mul(term, power(f(a), mk("num", e)))
            for a in nc:
                term = mul(term, f(a))
            out = add(out, term)
        return out
    if t.op == "grp":
        return mk("grp", f(t.args[0])) if f(t.args[0]).op == "poly" else f(t.args[0])

    changed = [False]

    def rec(x):
        if isinstance(x, T):
            y = f(x)
            if y is not x:
                changed[0] = True
            return y
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    args = tuple(rec(a) for a in t.args)
    if not changed[0]:
        return t
    return NORMALISE[0](t.op, args)


NORMALISE = [lambda op, args: mk(op, *args)]


def subst(t, m, memo=None):
    """simultaneous substitution {T: T}; does not enter a binder that rebinds a substituted index"""
    memo = {} if memo is None else memo

    quick = all(k.op in ("ix", "carry", "ref") for k in m)

    def f(x):
        if x in m:
            return m[x]
        if quick and not any(k in x.fv for k in m):
            return x
        if x in memo:
            return memo[x]
        if x.op in ("for", "exists", "fold", "sumover", "prodover", "first", "lastof") and x.args[0] in m:
            m2 = {k: v for k, v in m.items() if k is not x.args[0]}
            y = subst(x, m2) if m2 else x
        else:
            y = rebuild(x, f)
        memo[x] = y
        return y
    return f(t)


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 9:
        return "…"
    d = depth + 1
    s = lambda x: show(x, d)
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "py":
        return str(a[0])
    if op == "param":
        return a[0]
    if op == "global":
        return a[0].split(".")[-1] if not a[0].startswith("sympkf") else a[0].split(".")[-1]
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if op == "call":
        xs = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        return f"{s(a[0])}({', '.join(xs)})"
    if op == "poly":
        parts = []
        for (comm, nc), c in a[0]:
            fs = [s(x) + (f"**{e}" if e != 1 else "") for x, e in comm] + [s(x) for x in nc]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")"
    if op == "ix":
        return f"i{t.n}"
    if op == "coll":
        b = {"list": "[]", "tuple": "()", "set": "{}", "dict": "{}"}[a[0]]
        return b[0] + ", ".join(s(x) for x in a[1]) + b[1]
    if op == "kv":
        return f"{s(a[0])}: {s(a[1])}"
    if op == "splat":
        return "*" + s(a[0])
    if op == "for":
        return f"<{', '.join(s(x) for x in a[1])} for {s(a[0])}<{s(a[0].args[0])}>"
    if op == "when":
        return f"<{', '.join(s(x) for x in a[1])} if {s(a[0])}>"
    if op == "phi":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    return f"{op}({', '.join(_sa(x, s) for x in a)})"


def _sa(x, s):
    if isinstance(x, T):
        return s(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(_sa(y, s) for y in x) + ")"
    return str(x)
