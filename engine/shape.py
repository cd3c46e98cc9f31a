"""Partial evaluation of value-graph terms over shapes.

A shape fixes the sizes (number of coordinates, of functions..) and a few facts; everything else stays a token (Sym).  Texts are
sequences of literal pieces and tokens, so the layout of a generated text is compared without running anything."""
from fractions import Fraction
from .terms import T
from . import terms as TT


def frozen(v):
    return tuple(frozen(x) for x in v) if isinstance(v, (list, tuple)) else v


def unify(p, t, b=None):
    """bindings of the loop indexes of p that make it t, or None"""
    b = {} if b is None else b
    if p is t:
        return b
    if isinstance(p, T) and p.op == "ix":
        if b.get(p, t) is not t:
            return None
        b[p] = t
        return b
    if isinstance(p, T) and isinstance(t, T):
        if p.op != t.op or len(p.args) != len(t.args):
            return None
        for x, y in zip(p.args, t.args):
            if unify(x, y, b) is None:
                return None
        return b
    if isinstance(p, tuple) and isinstance(t, tuple) and len(p) == len(t):
        for x, y in zip(p, t):
            if unify(x, y, b) is None:
                return None
        return b
    return b if p == t and not isinstance(p, T) else None


class Arr:
    """array of numbers"""

    def __init__(self, xs):
        self.xs = tuple(Fraction(x) for x in xs)

    def _op(self, o, f):
        if isinstance(o, Arr):
            if len(o.xs) != len(self.xs):
                raise Unknown("lengths of arrays")
            return Arr(f(a, b) for a, b in zip(self.xs, o.xs))
        return Arr(f(a, Fraction(o)) for a in self.xs)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __mod__(self, o):
        return self._op(o, lambda a, b: a % b)

    def __pow__(self, n):
        return Arr(a ** int(n) for a in self.xs)
    __radd__, __rmul__ = __add__, __mul__

    def __eq__(self, o):
        return isinstance(o, Arr) and o.xs == self.xs

    def __hash__(self):
        return hash(self.xs)

    def __repr__(self):
        return "array(" + ",".join(map(str, self.xs)) + ")"


class Unknown(Exception):
    """the shape does not decide the term"""


class Raised(Exception):
    """the shape leads to an exception"""


KEY = TT.mk("param", "%key")
NONE_ = TT.NONE


class Sym:
    __slots__ = ("kind", "data")
    _all = {}

    def __new__(cls, kind, *data):
        k = (kind, data)
        s = cls._all.get(k)
        if s is None:
            s = object.__new__(cls)
            s.kind, s.data = kind, data
            cls._all[k] = s
        return s

    def __repr__(self):
        return f"<{self.kind}{''.join(' ' + str(d) for d in self.data)}>"


class Text:
    __slots__ = ("parts",)

    def __init__(self, *parts):
        out = []
        for p in parts:
            for q in (p.parts if isinstance(p, Text) else (p,)):
                if q == "":
                    continue
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, Text) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "".join(str(p) for p in self.parts)

    @property
    def literal(self):
        return all(isinstance(p, str) for p in self.parts)


def copied(v, deep):
    sub = (lambda x: copied(x, True)) if deep else (lambda x: x)
    return {k: sub(x) for k, x in v.items()} if isinstance(v, dict) else [sub(x) for x in v] if isinstance(v, list) else v


def text(v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text(v)
    if isinstance(v, bool) or v is None or isinstance(v, int):
        return Text(str(v))
    if isinstance(v, Fraction) and v.denominator == 1:
        return Text(str(int(v)))
    if isinstance(v, Sym):
        return Text(v)
    raise Unknown(f"text of {v!r}")


class NoOrder:
    """key which has no known place among the others (equal to itself)"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if isinstance(o, NoOrder) and (self.k is o.k or repr(self.k) == repr(o.k)):
            return True
        raise Unknown(f"order of {self.k!r}")

    def __lt__(self, o):
        raise Unknown(f"order of {self.k!r}")

    __gt__ = __le__ = __ge__ = __lt__
    __hash__ = object.__hash__


class Shape:
    tie = None

    def __init__(self, hook=None, nexts=None, compare=None):
        self.hook = hook or (lambda t, e, S: NotImplemented)
        self.nexts = nexts or {}
        self.compare = compare
        self.steps = 0
        self.memo, self.kept, self.names = {}, [], {}

    def loopvars(self, t):
        r = self.names.get(t)
        if r is None:
            r = self.names[t] = tuple({x for x in TT.walk(t) if x.op in ("ix", "carry")})
        return r

    def val(self, t, env):
        if t in env:
            return env[t]
        if t.op in ("num", "str", "py"):
            return getattr(self, "v_" + t.op)(t, env)
        key = [t]
        for x in self.loopvars(t):
            if x in env:
                v = env[x]
                key += [x, v if isinstance(v, (int, Fraction, Text, Sym, Arr)) else id(v)]
        key = tuple(key)
        # bindings of other terms (parameters, tokens) are those of the outermost environment
        extra = self.extra(env)
        if extra is not None:
            key = key + (extra,)
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        self.kept.append(env)
        try:
            r = self.val_(t, env)
        except RecursionError:
            raise Unknown(f"circular value: {str(t)[:100]}")
        except (Unknown, Raised) as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def extra(self, env):
        k = tuple((x, id(v)) for x, v in env.items() if x.op not in ("ix", "carry"))
        return k or None

    def val_(self, t, env):
        self.steps += 1
        if self.steps > 400000:
            raise Unknown("too long")
        r = self.hook(t, env, self)
        if r is not NotImplemented:
            return r
        m = getattr(self, "v_" + t.op, None)
        if m is None:
            raise Unknown(f"{t.op}: {str(t)[:120]}")
        return m(t, env)

    # constants
    def v_num(self, t, env):
        q = t.args[0]
        return int(q) if q.denominator == 1 else q

    def v_py(self, t, env):
        return t.args[0]

    def v_str(self, t, env):
        return Text(t.args[0])

    def v_poly(self, t, env):
        r = 0
        lin = []
        for (mono, c) in TT.to_poly(t).items():
            v = c
            if mono[1]:
                raise Unknown("matrix")
            for b, e in mono[0]:
                x = self.val(b, env)
                if not isinstance(x, (int, Fraction, Arr)) or e != int(e):
                    raise Unknown(f"arithmetic on {x!r}")
                if e < 0 and (x == 0 or isinstance(x, Arr) and 0 in x.xs):
                    raise Raised("division by zero")
                v = v * ((x if isinstance(x, Arr) else Fraction(x)) ** int(e))
            r = v + r
        if isinstance(r, Arr):
            return r
        return int(r) if r == int(r) else r

    def v_floordiv(self, t, env):
        a, b = (self.val(x, env) for x in t.args)
        if not isinstance(a, (int, Fraction)) or not isinstance(b, (int, Fraction)) or b == 0:
            raise Unknown("//")
        return a // b

    def v_mod(self, t, env):
        a, b = (self.val(x, env) for x in t.args)
        if not isinstance(a, (int, Fraction, Arr)) or not isinstance(b, (int, Fraction)) or b == 0:
            raise Unknown("%")
        return a % b

    def v_abs(self, t, env):
        a = self.val(t.args[0], env)
        if isinstance(a, (int, Fraction)):
            return abs(a)
        raise Unknown("abs")

    def v_min(self, t, env):
        return min(self.number(x, env) for x in t.args)

    def v_max(self, t, env):
        return max(self.number(x, env) for x in t.args)

    def number(self, x, env):
        v = self.val(x, env)
        if not isinstance(v, (int, Fraction)) or isinstance(v, bool):
            raise Unknown(f"number {v!r}")
        return v

    # logic
    def v_not(self, t, env):
        return not self.truth(self.val(t.args[0], env))

    def v_and(self, t, env):
        unk = None
        for x in t.args:
            try:
                if not self.truth(self.val(x, env)):
                    return False
            except (Unknown, Raised) as e:
                unk = e if unk is None or isinstance(e, Unknown) else unk
        if unk:
            raise unk
        return True

    def v_or(self, t, env):
        unk = None
        for x in t.args:
            try:
                if self.truth(self.val(x, env)):
                    return True
            except (Unknown, Raised) as e:
                unk = e if unk is None or isinstance(e, Unknown) else unk
        if unk:
            raise unk
        return False

    def truth(self, v):
        if isinstance(v, Sym):
            raise Unknown(f"truth of {v}")
        if isinstance(v, Text):
            if not v.parts:
                return False
            return True
        return bool(v)

    def v_truth(self, t, env):
        return self.truth(self.val(t.args[0], env))

    def v_phi(self, t, env):
        try:
            c = self.truth(self.val(t.args[0], env))
        except Raised:
            # the tests of a value are in no order: this one may be meant for the other cases only
            try:
                a, b = self.val(t.args[1], env), self.val(t.args[2], env)
                same = self.equal(a, b)
            except (Raised, Unknown):
                same = False
            if same is not True:
                raise
            return a
        return self.val(t.args[1] if c else t.args[2], env)

    def equal(self, a, b):
        if isinstance(a, str):
            a = Text(a)
        if isinstance(b, str):
            b = Text(b)
        if self.compare is not None:
            r = self.compare(a, b)
            if r is not None:
                return r
        if isinstance(a, Text) and isinstance(b, Text):
            if a == b:
                return True
            if a.literal and b.literal:
                return False
            raise Unknown(f"{a} == {b}")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a is b
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unknown(f"{a} == {b}")
        return a == b

    def v_eq(self, t, env):
        return self.equal(self.val(t.args[0], env), self.val(t.args[1], env))

    def v_is(self, t, env):
        a, b = (self.val(x, env) for x in t.args)
        if a is None or b is None:
            if isinstance(a, Sym) and a.kind == "any" or isinstance(b, Sym) and b.kind == "any":
                raise Unknown("is None")
            return a is b
        return self.equal(a, b)

    def v_lt(self, t, env):
        a, b = (self.val(x, env) for x in t.args)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return a < b
        raise Unknown(f"{a} < {b}")

    def v_in(self, t, env):
        a, b = self.val(t.args[0], env), self.val(t.args[1], env)
        if isinstance(b, (list, dict, set)):
            return any(self.equal(a, x) for x in b)
        if isinstance(a, Text) and isinstance(b, Text) and a.literal and b.literal:
            return repr(a) in repr(b)
        raise Unknown("in")

    # loops
    def count(self, ix, env):
        n = self.val(ix.args[0], env)
        if not isinstance(n, int):
            raise Unknown("loop length")
        return n

    def v_exists(self, t, env):
        ix, c = t.args
        unk = None
        for i in range(self.count(ix, env)):
            try:
                if self.truth(self.val(c, {**env, ix: i})):
                    return True
            except Unknown as e:
                unk = e
        if unk:
            raise unk
        return False

    def v_fold(self, t, env):
        ix, carry, init, body = t.args
        v = self.val(init, env)
        for i in range(self.count(ix, env)):
            v = self.val(body, {**env, ix: i, carry: v})
        return v

    def v_first(self, t, env):
        ix, cond, body = t.args
        for i in range(self.count(ix, env)):
            if self.truth(self.val(cond, {**env, ix: i})):
                return self.val(body, {**env, ix: i})
        raise Unknown("first")

    def v_lastof(self, t, env):
        ix, body = t.args[:2]
        n = self.count(ix, env)
        if n == 0:
            if len(t.args) > 2:
                return self.val(t.args[2], env)
            raise Unknown("last of nothing")
        return self.val(body, {**env, ix: n - 1})

    def v_carry(self, t, env):
        ix = t.args[0]
        nxt = self.nexts.get(t)
        if nxt is None:
            nxt = self.nexts[t] = self.renamed(t)
        if nxt is None or ix not in env:
            raise Unknown(f"carry {t}")
        e = {k: v for k, v in env.items() if not (k.op == "carry" and k.args[0] is ix)}
        i = e.pop(ix)
        v = self.val(t.args[1], e)
        for j in range(i):
            v = self.val(nxt, {**e, ix: j, t: v})
        return v

    def renamed(self, t):
        """next value of a carry whose loop index was replaced by another one (an element of a list built in a
        loop, read in another loop)"""
        found = {}
        for c, nxt in list(self.nexts.items()):
            if nxt is None or c is t:
                continue
            b = unify(c, t)
            if b:
                found.setdefault(TT.subst(nxt, {**b, c: t}), set()).add(c.args[0].args[0])
        if len(found) > 1:
            # two loops start alike: the list read is that of the loop with the same number of steps
            bound = t.args[0].args[0]
            steps = {bound, *TT.walk(bound)} if bound.op == "min" else {bound}
            found = {n: bs for n, bs in found.items() if bs & steps}
        return next(iter(found)) if len(found) == 1 else None

    def v_sumover(self, t, env):
        ix, body = t.args
        return sum(self.number(body, {**env, ix: i}) for i in range(self.count(ix, env)))

    def v_prodover(self, t, env):
        ix, body = t.args
        r = 1
        for i in range(self.count(ix, env)):
            r = r * self.number(body, {**env, ix: i})
        return r

    # collections
    def items(self, parts, env, kind):
        for p in parts:
            if p.op == "for":
                for i in range(self.count(p.args[0], env)):
                    yield from self.items(p.args[1], {**env, p.args[0]: i}, kind)
            elif p.op == "when":
                if self.truth(self.val(p.args[0], env)):
                    yield from self.items(p.args[1], env, kind)
            elif p.op == "splat":
                v = self.val(p.args[0], env)
                if isinstance(v, dict):
                    yield from v.items() if kind == "dict" else v
                elif isinstance(v, list):
                    yield from v
                else:
                    raise Unknown(f"* {v!r}")
            elif p.op == "kv":
                yield self.val(p.args[0], env), self.val(p.args[1], env)
            elif p.op == "app":
                yield "app", self.val(p.args[0], env), self.val(p.args[1], env)
            else:
                yield self.val(p, env)

    def v_coll(self, t, env):
        kind, parts = t.args
        if kind == "dict":
            d = {}
            for x in self.items(parts, env, kind):
                if len(x) == 3:
                    k = frozen(x[1])
                    d[k] = d.get(k, []) + list(x[2])
                else:
                    d[frozen(x[0])] = x[1]
            return d
        out = []
        for x in self.items(parts, env, kind):
            if kind == "set" and any(self.equal(x, y) for y in out):
                continue
            out.append(x)
        return out

    def v_len(self, t, env):
        v = self.val(t.args[0], env)
        if isinstance(v, (list, dict)):
            return len(v)
        if isinstance(v, Text) and v.literal:
            return len(repr(v))
        raise Unknown(f"len {v!r}")

    def v_sub(self, t, env):
        o = self.val(t.args[0], env)
        if t.args[1].op == "slice":
            lo, hi, st = (self.val(x, env) for x in t.args[1].args)
            if isinstance(o, list):
                return o[lo:hi:st]
            if isinstance(o, Text):
                if o.literal:
                    return Text(repr(o)[lo:hi:st])
                if lo in (None, 0) and st in (None, 1) and isinstance(hi, int) and hi < 0 and isinstance(o.parts[-1], str) \
                        and len(o.parts[-1]) >= -hi:
                    return Text(*o.parts[:-1], o.parts[-1][:hi])
            raise Unknown("slice")
        k = self.val(t.args[1], env)
        if t.args[1].op == "ix" and isinstance(o, dict) and t.args[1].args[0] is TT.mk("len", t.args[0]):
            return list(o)[k]                  # iteration over the keys
        return self.index(o, k)

    def index(self, o, k):
        if isinstance(o, list) and isinstance(k, int):
            if not -len(o) <= k < len(o):
                raise Raised(f"index {k} of {len(o)} elements")
            return o[k]
        if isinstance(o, dict):
            for q in o:
                if self.equal(q, k):
                    return o[q]
            if isinstance(k, int) and not any(isinstance(q, int) for q in o) and 0 <= k < len(o):
                return list(o)[k]          # k-th key (iteration)
            raise Raised(f"key {k!r}")
        if isinstance(o, Text) and o.literal and isinstance(k, int):
            if not -len(repr(o)) <= k < len(repr(o)):
                raise Raised(f"index {k} of {o!r}")
            return Text(repr(o)[k])
        if isinstance(o, list) and isinstance(k, (Text, str)):
            raise Raised(f"list index {k!r}")
        raise Unknown(f"{o!r}[{k!r}]")

    def v_dictget(self, t, env):
        o = self.val(t.args[0], env)
        k = self.val(t.args[1], env)
        if isinstance(o, dict):
            for q in o:
                if self.equal(q, k):
                    return o[q]
            return self.val(t.args[2], env)
        raise Unknown("get")

    def v_keysof(self, t, env):
        v = self.val(t.args[0], env)
        if isinstance(v, dict):
            return list(v)
        raise Unknown("keys")

    def v_valuesof(self, t, env):
        v = self.val(t.args[0], env)
        if isinstance(v, dict):
            return list(v.values())
        raise Unknown("values")

    def v_itemsof(self, t, env):
        v = self.val(t.args[0], env)
        if isinstance(v, dict):
            return [list(x) for x in v.items()]
        raise Unknown("items")

    def v_reversedT(self, t, env):
        v = self.val(t.args[0], env)
        if isinstance(v, list):
            return v[::-1]
        raise Unknown("reversed")

    def v_rangeT(self, t, env):
        return list(range(*[self.number(x, env) for x in t.args]))

    def v_zip(self, t, env):
        return [list(x) for x in zip(*[self.seq(x, env) for x in t.args])]

    def v_enum(self, t, env):
        st = self.number(t.args[1], env) if len(t.args) > 1 else 0
        return [[i + st, x] for i, x in enumerate(self.seq(t.args[0], env))]

    def seq(self, t, env):
        v = self.val(t, env)
        if isinstance(v, Text) and v.literal:
            return [Text(c) for c in repr(v)]
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, list):
            return v
        raise Unknown(f"iteration over {v!r}")

    def v_setitem(self, t, env):
        o = self.val(t.args[0], env)
        if not isinstance(o, dict):
            raise Unknown("setitem")
        k = frozen(self.val(t.args[1], env))
        return {**o, k: self.val(t.args[2], env)}

    def v_indexof(self, t, env):
        o, x = (self.val(a, env) for a in t.args)
        for i, y in enumerate(o):
            if self.equal(y, x):
                return i
        raise Raised(f"{x!r} is not in list")

    def v_sortedT(self, t, env):
        xs = self.seq(t.args[0], env)
        key, rev = t.args[1], self.truth(self.val(t.args[2], env))
        if key.op == "lam":
            ks = [self.val(key.args[0], {**env, KEY: x}) for x in xs]
        elif key is NONE_:
            ks = list(xs)
        elif key.op == "global":
            ks = [self.val(TT.mk("call", key, (KEY,), ()) if key.args[0].split(".")[-1] != "len" else TT.mk("len", KEY), {**env, KEY: x})
                  for x in xs]
        elif key.op == "attr" and key.args[1] == "index":
            ks = [self.val(TT.mk("indexof", key.args[0], KEY), {**env, KEY: x}) for x in xs]
        else:
            raise Unknown(f"order {key}")
        if len(xs) < 2:
            return xs
        ks = [self.sortkey(k) for k in ks]
        try:
            return [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev)]
        except TypeError:
            raise Unknown("order")

    def v_zipstar(self, t, env):
        xs = []
        for a in t.args:
            xs += [self.seq(x, env) if isinstance(x, T) else x for x in (self.seq(a.args[0], env) if a.op == "star" else [a])]
        return [list(x) for x in zip(*xs)]

    def sortkey(self, k):
        if isinstance(k, (int, Fraction)):
            return k
        if isinstance(k, Text) and k.literal:
            return repr(k)
        if isinstance(k, (list, tuple)):
            return tuple(self.sortkey(x) for x in k)
        if isinstance(k, Sym) and k.kind == "sortkey":
            return k.data[0]
        return NoOrder(k) if self.tie is None else (self.tie * int.from_bytes(repr(k).encode()[:24].ljust(24), "big"))

    def v_grp(self, t, env):
        return self.val(t.args[0], env)

    def v_int(self, t, env):
        v = self.val(t.args[0], env)
        if isinstance(v, (int, Fraction)):
            return int(v)
        raise Unknown("int")

    def v_sumof(self, t, env):
        return sum(self.num_(x) for x in self.seq(t.args[0], env))

    def v_maxof(self, t, env):
        xs = [self.num_(x) for x in self.seq(t.args[0], env)]
        if not xs:
            raise Raised("max of nothing")
        return max(xs)

    def v_minof(self, t, env):
        return min(self.num_(x) for x in self.seq(t.args[0], env))

    def num_(self, v):
        if not isinstance(v, (int, Fraction)) or isinstance(v, bool):
            raise Unknown(f"number {v!r}")
        return v

    # strings
    def v_tostr(self, t, env):
        return text(self.val(t.args[0], env))

    def v_cat(self, t, env):
        return Text(*[text(self.val(x, env)) for x in t.args])

    def v_join(self, t, env):
        sep = text(self.val(t.args[0], env))
        out = []
        for k, x in enumerate(self.seq(t.args[1], env)):
            if k:
                out.append(sep)
            out.append(text(x))
        return Text(*out)

    def v_call(self, t, env):
        f = t.args[0]
        if f.op == "attr" and f.args[1] in ("rstrip", "strip", "lstrip") and len(t.args[1]) == 1:
            o, c = self.val(f.args[0], env), self.val(t.args[1][0], env)
            if isinstance(o, Text) and isinstance(c, Text) and c.literal:
                ps = list(o.parts)
                cs = repr(c)
                if f.args[1] != "lstrip" and ps and isinstance(ps[-1], str):
                    ps[-1] = ps[-1].rstrip(cs)
                if f.args[1] != "rstrip" and ps and isinstance(ps[0], str):
                    ps[0] = ps[0].lstrip(cs)
                return Text(*ps)
        if f.op == "attr" and f.args[1] in ("startswith", "endswith", "replace", "lower", "upper", "isidentifier", "split", "strip") and not t.args[2]:
            o = self.val(f.args[0], env)
            xs = [self.val(a, env) for a in t.args[1]]
            if isinstance(o, Text) and o.literal and all(isinstance(x, Text) and x.literal or isinstance(x, int) for x in xs):
                r = getattr(repr(o), f.args[1])(*[repr(x) if isinstance(x, Text) else x for x in xs])
                return Text(r) if isinstance(r, str) else [Text(q) for q in r] if isinstance(r, list) else r
        if f.op == "attr" and f.args[1] == "copy" and not t.args[1]:
            v = self.val(f.args[0], env)
            if isinstance(v, (dict, list)):
                return copied(v, False)
        if f.op == "attr" and f.args[1] == "get" and len(t.args[1]) in (1, 2) and not t.args[2]:
            o = self.val(f.args[0], env)
            if isinstance(o, dict):
                k = self.val(t.args[1][0], env)
                for q in o:
                    if self.equal(q, k):
                        return o[q]
                return self.val(t.args[1][1], env) if len(t.args[1]) == 2 else None
        if f.op == "attr" and f.args[1] == "join" and len(t.args[1]) == 1:
            sep = text(self.val(f.args[0], env))
            out = []
            for k, x in enumerate(self.seq(t.args[1][0], env)):
                if k:
                    out.append(sep)
                out.append(text(x))
            return Text(*out)
        if f.op == "global" and not t.args[2]:
            n = f.args[0].split(".")[-1]
            if n in ("abs",) and len(t.args[1]) == 1:
                return abs(self.number(t.args[1][0], env))
            if n == "prod" and len(t.args[1]) == 1:
                r = 1
                for x in self.seq(t.args[1][0], env):
                    r = r * self.num_(x)
                return r
            if n in ("deepcopy", "copy", "dict") and len(t.args[1]) == 1:
                v = self.val(t.args[1][0], env)
                if isinstance(v, (dict, list)):
                    return copied(v, n == "deepcopy")
            if n in ("any", "all") and len(t.args[1]) == 1:
                xs = [self.truth(x) for x in self.seq(t.args[1][0], env)]
                return any(xs) if n == "any" else all(xs)
            if n in ("list", "tuple", "sorted") and len(t.args[1]) == 1 and n != "sorted":
                return list(self.seq(t.args[1][0], env))
            if n == "str" and len(t.args[1]) == 1:
                return text(self.val(t.args[1][0], env))
            if n == "int" and len(t.args[1]) == 1:
                return self.number(t.args[1][0], env)
        raise Unknown(f"call {str(t)[:120]}")
