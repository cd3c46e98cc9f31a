"""C23: correlation functions of the closures and the coefficients of their expansions."""
import itertools
from fractions import Fraction
from math import factorial
from .base import *
from .c19 import outcome
from engine.shape import Shape, Sym, Text, Unknown, Raised, frozen, text


# ------------------------------------------------------------------ exact arithmetic: rational * product of prime powers * exp(rational)
class Num:
    def __init__(self, sign, powers, ex):
        self.sign = sign
        self.powers = {p: e for p, e in powers.items() if e} if sign else {}
        self.ex = ex if sign else Fraction(0)

    @staticmethod
    def of(q):
        if isinstance(q, Num):
            return q
        q = Fraction(q)
        if q == 0:
            return Num(0, {}, Fraction(0))
        pw = {}
        for n, s in ((abs(q.numerator), 1), (q.denominator, -1)):
            p = 2
            while n > 1:
                while n % p == 0:
                    pw[p] = pw.get(p, 0) + s
                    n //= p
                p += 1
        return Num(1 if q > 0 else -1, {p: Fraction(e) for p, e in pw.items()}, Fraction(0))

    def __mul__(self, o):
        o = Num.of(o)
        pw = dict(self.powers)
        for p, e in o.powers.items():
            pw[p] = pw.get(p, 0) + e
        return Num(self.sign * o.sign, pw, self.ex + o.ex)

    def __pow__(self, e):
        e = Fraction(e)
        if self.sign < 0 and e.denominator != 1:
            raise Unknown("root of a negative number")
        if self.sign == 0 and e <= 0:
            raise Unknown("power of zero")
        return Num(self.sign if e.denominator == 1 and e.numerator % 2 or self.sign >= 0 else 1, {p: x * e for p, x in self.powers.items()}, self.ex * e)

    def key(self):
        return self.sign, tuple(sorted(self.powers.items())), self.ex

    def rational(self):
        if self.ex or any(e.denominator != 1 for e in self.powers.values()):
            return None
        q = Fraction(self.sign)
        for p, e in self.powers.items():
            q *= Fraction(p) ** int(e)
        return q

    def __eq__(self, o):
        return isinstance(o, Num) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        q = self.rational()
        if q is not None:
            return str(q)
        return "*".join([str(self.sign)] + [f"{p}^({e})" for p, e in sorted(self.powers.items())] + ([f"exp({self.ex})"] if self.ex else []))


class Mat:
    def __init__(self, rows):
        self.rows = tuple(tuple(Fraction(x) for x in r) for r in rows)

    @property
    def shape(self):
        return len(self.rows), len(self.rows[0])

    def t(self):
        return Mat(zip(*self.rows))

    def __add__(self, o):
        if not isinstance(o, Mat) or o.shape != self.shape:
            raise Unknown("sum of matrices")
        return Mat([a + b for a, b in zip(r, s)] for r, s in zip(self.rows, o.rows))

    def scale(self, q):
        return Mat([q * a for a in r] for r in self.rows)

    def __matmul__(self, o):
        if self.shape[1] != o.shape[0]:
            raise Unknown("product of matrices")
        return Mat([sum(a * b for a, b in zip(r, c)) for c in zip(*o.rows)] for r in self.rows)

    def det(self):
        n = len(self.rows)
        tot = Fraction(0)
        for p in itertools.permutations(range(n)):
            s = 1
            for i in range(n):
                for j in range(i):
                    if p[j] > p[i]:
                        s = -s
            for i in range(n):
                s *= self.rows[i][p[i]]
            tot += s
        return tot

    def inv(self):
        n, d = len(self.rows), self.det()
        if not d or self.shape[0] != self.shape[1]:
            raise Unknown("inverse")
        if n == 1:
            return Mat([[1 / d]])

        def minor(i, j):
            return Mat([[self.rows[r][c] for c in range(n) if c != j] for r in range(n) if r != i]).det()
        return Mat([[(-1) ** (i + j) * minor(j, i) / d for j in range(n)] for i in range(n)])

    def __eq__(self, o):
        return isinstance(o, Mat) and o.rows == self.rows

    def __hash__(self):
        return hash(self.rows)

    def __repr__(self):
        return str([[str(x) for x in r] for r in self.rows])


SAMPLES = {1: (Mat([[3]]), Mat([[5]])), 2: (Mat([[3, 1], [1, 2]]), Mat([[5, -1], [-1, 3]])),
           3: (Mat([[3, 1, 0], [1, 2, 1], [0, 1, 4]]), Mat([[5, -1, 1], [-1, 3, 0], [1, 0, 2]]))}
POINTS = {1: ((2,), (7,)), 2: ((2, 3), (7, 4)), 3: ((2, 3, 5), (7, 4, -1))}


class Formula(Shape):
    def v_poly(self, t, env):
        tot = None
        for (mono, c) in TT.to_poly(t).items():
            v = Fraction(c)
            mats = []
            for b, e in mono[0]:
                x = self.power(self.val(b, env), e)
                if isinstance(x, Mat):
                    mats.append(x)
                else:
                    v = self.times(v, x)
            if mats:
                v = self.times(v, self.chain(mats))
            for b in mono[1]:
                b, e = (b if isinstance(b, tuple) else (b, 1))
                v = self.times(v, self.power(self.val(b, env), e))
            tot = v if tot is None else self.plus(tot, v)
        return tot if tot is not None else Fraction(0)

    def chain(self, mats):
        """product of matrices written with *: the order of the factors is the one which gives a number"""
        if len(mats) == 1:
            return mats[0]
        out = []
        for p in itertools.permutations(mats):
            if all(a.shape[1] == b.shape[0] for a, b in zip(p, p[1:])):
                r = p[0]
                for q in p[1:]:
                    r = r @ q
                if r.shape == (1, 1) and r not in out:
                    out.append(r)
        if len(out) != 1:
            raise Unknown("order of a product of matrices")
        return out[0]

    def power(self, v, e):
        if e == 1:
            return v
        if isinstance(v, Mat):
            if e == -1:
                return v.inv()
            raise Unknown("power of a matrix")
        if isinstance(v, (int, Fraction, Num)):
            return simple(Num.of(v) ** e)
        raise Unknown(f"power of {v!r}")

    def times(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            return a @ b
        if isinstance(b, Mat):
            a, b = b, a
        if isinstance(a, Mat):
            if isinstance(b, (int, Fraction)):
                return a.scale(b)
            raise Unknown("product")
        if all(isinstance(x, (int, Fraction, Num)) for x in (a, b)):
            return simple(Num.of(a) * Num.of(b))
        raise Unknown(f"product {a!r} {b!r}")

    def plus(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            return a + b
        a, b = (simple(x) if isinstance(x, Num) else x for x in (a, b))
        if all(isinstance(x, (int, Fraction)) for x in (a, b)):
            return a + b
        raise Unknown("sum")

    def v_sub(self, t, env):
        if t.args[1].op != "slice":
            o = self.val(t.args[0], env)
            if isinstance(o, Mat):
                k = self.val(t.args[1], env)
                flat = [x for r in o.rows for x in r]
                if isinstance(k, list) and len(k) == 2:
                    return o.rows[k[0]][k[1]]
                if isinstance(k, int) and -len(flat) <= k < len(flat):
                    return flat[k]
                raise Raised(f"entry {k!r}")
        return super().v_sub(t, env)


def simple(x):
    q = x.rational()
    return x if q is None else q


def formula_hook(me, par, n, A, B, px, py, tensors):
    def value(t, env, S):
        if t.op == "attr" and t.args[0] is me:
            if t.args[1] in ("spatial_coordinates", "_x"):
                return [Sym("coordinate", k) for k in range(n)]
            if t.args[1] in tensors:
                return Sym("tensor", t.args[1])
            if t.args[1] == "mfield":
                return Sym("mfield")
        if t.op == "attr" and t.args[1] in tensors and S.val(t.args[0], env) is Sym("mfield"):
            return Sym("tensor", t.args[1])
        if t.op == "matmul" or gcall(t, "matmul"):
            a, b = (S.val(x, env) for x in (t.args if t.op == "matmul" else t.args[1]))
            return S.times(a, b)
        if t.op == "attr" and t.args[1] in ("T",):
            v = S.val(t.args[0], env)
            if isinstance(v, Mat):
                return v.t()
        if gcall(t, "Matrix", "ImmutableMatrix") and len(t.args[1]) == 1:
            v = S.val(t.args[1][0], env)
            if isinstance(v, Mat):
                return v
            if isinstance(v, list) and all(isinstance(x, (int, Fraction)) for x in v):
                return Mat([[x] for x in v])
            if isinstance(v, list) and v and all(isinstance(x, list) for x in v):
                return Mat(v)
        if gcall(t, "exp") and len(t.args[1]) == 1:
            v = S.val(t.args[1][0], env)
            if isinstance(v, (int, Fraction)):
                return Num(1, {}, Fraction(v))
        if gcall(t, "sqrt") and len(t.args[1]) == 1:
            return S.power(S.val(t.args[1][0], env), Fraction(1, 2))
        if gcall(t, "Rational", "Integer", "S", "sympify") and not t.args[2]:
            xs = [S.val(a, env) for a in t.args[1]]
            return Fraction(xs[0]) / (Fraction(xs[1]) if len(xs) > 1 else 1)
        if gcall(t, "det", "inv", "transpose") and len(t.args[1]) == 1:
            v = S.val(t.args[1][0], env)
            if isinstance(v, Mat):
                return {"det": v.det, "inv": v.inv, "transpose": v.t}[str(t.args[0].args[0]).split(".")[-1]]()
        if t.op == "call" and t.args[0].op == "attr":
            m = t.args[0].args[1]
            if m in ("det", "inv", "transpose", "dot", "simplify", "expand", "doit", "trace", "LUsolve", "solve", "LDLsolve",
                     "cholesky_solve", "QRsolve", "adjugate", "multiply", "norm"):
                v = S.val(t.args[0].args[0], env)
                if isinstance(v, Mat):
                    if m == "det":
                        return v.det()
                    if m == "inv":
                        return v.inv()
                    if m == "transpose":
                        return v.t()
                    if m in ("simplify", "expand", "doit"):
                        return v
                    if m == "trace":
                        return sum(v.rows[k][k] for k in range(len(v.rows)))
                    if m == "adjugate":
                        return v.inv().scale(v.det())
                    if m in ("LUsolve", "solve", "LDLsolve", "cholesky_solve", "QRsolve", "multiply"):
                        w = S.val(t.args[1][0], env)
                        if isinstance(w, Mat):
                            return (v if m == "multiply" else v.inv()) @ w
                    if m == "norm" and not t.args[1] and 1 in v.shape:
                        return simple(Num.of(sum(x * x for r in v.rows for x in r)) ** Fraction(1, 2))
                    if m == "dot":
                        w = S.val(t.args[1][0], env)
                        if isinstance(w, Mat) and 1 in v.shape and 1 in w.shape:
                            return sum(a * b for a, b in zip([x for r in v.rows for x in r], [x for r in w.rows for x in r]))
                if isinstance(v, (int, Fraction, Num)) and m in ("simplify", "expand", "doit"):
                    return v
            if m in ("subs", "xreplace"):
                inner = t.args[0].args[0]
                leaf = lambda y: y.op == "attr" and y.args[1] in tensors and (y.args[0] is me or y.args[0] is mk("attr", me, "mfield"))
                if not leaf(inner) and any(leaf(y) for y in TT.walk(inner)) and not any(mcall(y, "subs", "xreplace") for y in TT.walk(inner)):
                    # the value at a point of an expression of the tensors is the expression of their values at this point
                    return S.val(rewrite(inner, lambda y: mk("call", mk("attr", y, m), t.args[1], t.args[2]) if leaf(y) else y), env)
                v = S.val(inner, env)
                if isinstance(v, Sym) and v.kind == "tensor":
                    d = S.val(t.args[1][0], env)
                    if isinstance(d, list):
                        d = {frozen(k): x for k, x in d}
                    if isinstance(d, dict):
                        img = tuple(d.get(Sym("coordinate", k)) for k in range(n))
                        if img == tuple(map(Fraction, px)) or img == tuple(px):
                            return A
                        if img == tuple(py):
                            return B
                        if any(x is None for x in img) or True:
                            raise Mixed(f"{v.data[0]} evaluated at {img}, with x={px} and y={py}")
        return NotImplemented
    return value


class Mixed(Exception):
    pass


def gaussian(S, A, B, px, py, two):
    """heterogeneous Gaussian |A|^1/4 |B|^1/4 / |(A+B)/2|^1/2 exp(-k ||x-y||^2_(A+B)^-1)"""
    d = Mat([[a - b] for a, b in zip(px, py)])
    q = (d.t() @ (A + B).inv() @ d).rows[0][0]
    return Num.of(A.det()) ** Fraction(1, 4) * (Num.of(B.det()) ** Fraction(1, 4)) * (Num.of((A + B).scale(Fraction(1, 2)).det()) ** Fraction(-1, 2)) \
        * Num(1, {}, -q * two)


def correlations(ctx, rep):
    C = ctx.cls("Closure")
    todo = [(C, "correlation", "aspect", "hetero", Fraction(1), {}), (C, "correlation_in_diffusion", "diffusion", "hetero", Fraction(1, 2), {})]
    for c in ctx.classes():
        if c is not C and C in ctx.pkg.mro(c):
            if "correlation" in c.methods:
                todo.append((c, "correlation", "metric", "local", None, {"metric": TRUE}))
                todo.append((c, "correlation", "aspect", "local", None, {"metric": FALSE}))
                todo.append((c, "correlation", None, "local", None, {}))
    for c, m, tensor, kind, two, extra in todo:
        f = ctx.pkg.find_method(c, m)
        if f is None:
            raise AnalysisBroken(f"{c.qual}.{m} not found")
        args = [a.arg for a in f.node.args.args][1:]
        if any(k not in args for k in extra):
            continue
        # default values of the parameters which are not given
        if not extra:
            dflt = f.node.args.defaults
            for a, d in zip(args[len(args) - len(dflt):], dflt):
                if getattr(d, "value", None) in (True, False):
                    extra = {**extra, a: TRUE if d.value else FALSE}
            label0 = " (default)"
        else:
            label0 = f" ({', '.join(f'{k}={v_.args[0]}' for k, v_ in extra.items())})"
        I, v, s = ctx.run(f, cls=c, args={**{a: mk("param", a) for a in args[:2]}, **extra})
        me = mk("self", c.qual)
        name = f"{c.qual.split('.')[-1]}.{m}" + label0
        for n in (1, 2, 3):
            A, B = SAMPLES[n]
            for label, (px, py, MA, MB) in {"generic points": (*POINTS[n], A, B), "same point": (POINTS[n][0], POINTS[n][0], A, A),
                                           "swapped points": (POINTS[n][1], POINTS[n][0], B, A),
                                           "homogeneous tensors": (*POINTS[n], A, A)}.items():
                px, py = tuple(map(Fraction, px)), tuple(map(Fraction, py))
                env = {mk("param", args[0]): list(px), mk("param", args[1]): list(py)}
                S = Formula(formula_hook(me, args, n, MA, MB, px, py, ("aspect", "diffusion", "metric")), I.nexts)
                inst = f"{name}, dimension {n}, {label}"
                # which tensor is used
                used = {x.args[1] for x in TT.walk(v) if x.op == "attr" and x.args[1] in ("aspect", "diffusion", "metric")
                        and (x.args[0] is me or x.args[0] is mk("attr", me, "mfield"))}
                if tensor is None and len(used) == 1:
                    tensor = next(iter(used))
                if used - {tensor} and len(used) == 1:
                    rep.bad("correlation", inst, f.where, f"written with {sorted(used)} in place of {tensor}")
                    continue
                d = Mat([[a - b] for a, b in zip(px, py)])
                if kind == "hetero":
                    want = gaussian(S, MA, MB, px, py, two)
                elif tensor == "metric":
                    want = Num(1, {}, -(d.t() @ MA @ d).rows[0][0] / 2)
                else:
                    want = Num(1, {}, -(d.t() @ MA.inv() @ d).rows[0][0] / 2)
                try:
                    r = S.val(v, env)
                except Mixed as e:
                    rep.bad("correlation", inst, f.where, str(e))
                    continue
                except Unknown as e:
                    rep.unsure("correlation", inst, f.where, e)
                    continue
                except Raised as e:
                    rep.bad("correlation", inst, f.where, f"raises {e}")
                    continue
                if isinstance(r, (int, Fraction)):
                    r = Num.of(r)
                if not isinstance(r, Num):
                    rep.unsure("correlation", inst, f.where, f"value {r!r}")
                    continue
                rep.check("correlation", inst, f.where, r == want, "" if r == want else f"value {r} in place of {want}")


# ------------------------------------------------------------------ memory of an object
HELD = Sym("value of another order")


class Store:
    def __init__(self, e, key, value):
        self.target, self.key, self.value, self.loops, self.pc = e.target, key, value, e.loops, e.pc


def memory_stores(I, me):
    """what is stored in the memories: m[k] = v, m.setdefault(k, v), m.update({k: v})"""
    out = []
    for e in I.effects:
        if not (isinstance(e.target, T) and e.target.op == "attr" and e.target.args[0] is me):
            continue
        if e.kind == "sub":
            out.append(Store(e, e.key, e.value))
        elif e.kind == "mut" and e.key == "setdefault" and len(e.value or ()) == 2:
            out.append(Store(e, *e.value))
        elif e.kind == "mut" and e.key == "update" and len(e.value or ()) == 1 and isinstance(e.value[0], T) and \
                e.value[0].op == "coll" and e.value[0].args[0] == "dict":
            out += [Store(e, *x.args) for x in e.value[0].args[1] if x.op == "kv"]
    return out


def fresh(I, s, me, hook, held=None):
    """hook with the semantics of a new object: its memories are empty, then hold what the function stores; with held, the
    memories hold already what was stored for other arguments"""
    stores = memory_stores(I, me)

    def memory(t):
        return t.op == "attr" and t.args[0] is me and any(e.target is t for e in stores)

    def kept(t, env, S, k):
        for e in stores:
            if e.target is t and not e.loops and S.equal(S.val(I.fz(e.key, s), held), k):
                return True
        return False

    def h(t, env, S):
        if t.op == "in" and t.args[1].op == "attr" and t.args[1].args[0] is me and t.args[1].args[1].startswith("_"):
            return held is not None and memory(t.args[1]) and kept(t.args[1], env, S, S.val(t.args[0], env))
        if t.op == "truth" and memory(t.args[0]):
            return held is not None
        if t.op == "len" and memory(t.args[0]):
            return 0 if held is None else 1
        if t.op == "dictget" and memory(t.args[0]):
            return HELD if held is not None and kept(t.args[0], env, S, S.val(t.args[1], env)) else S.val(t.args[2], env)
        if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[0] is me and any(e.target is t.args[0] for e in stores):
            k = S.val(t.args[1], env)
            if held is not None and kept(t.args[0], env, S, k):
                return HELD
            for e in stores:
                if e.target is t.args[0] and not e.loops and S.equal(S.val(I.fz(e.key, s), env), k) \
                        and all(S.truth(S.val(I.fz(c, s), env)) for c in e.pc):
                    return S.val(I.fz(e.value, s), env)
            raise Raised(f"nothing is stored at {k!r}")
        return hook(t, env, S)
    return h


def memo_keys(ctx, rep, rule, f, I, s, me, par, orders, base):
    for e in memory_stores(I, me):
        if True:
            ks = []
            try:
                for o in orders:
                    ks.append(frozen(Shape(base, I.nexts).val(I.fz(e.key, s), {par: o})))
            except (Unknown, Raised) as ex:
                rep.unsure(rule, f"memory {e.target.args[1]}", f.where, ex)
                continue
            rep.check(rule, f"memory {e.target.args[1]}", f.where, len(set(map(repr, ks))) == len(ks),
                      f"orders {list(orders)} are stored at the keys {ks}: one is given for another")


def monomial(syms):
    return tuple(sorted(((y, int(g) if g == int(g) else g) for y, g in syms.items() if g), key=repr))


def expression(tot):
    out = [(q, m) for m, q in tot.items() if q]
    if not out:
        return 0
    if len(out) == 1 and out[0][0] == 1 and len(out[0][1]) == 1 and out[0][1][0][1] == 1:
        return out[0][1][0][0]
    if len(out) == 1 and not out[0][1]:
        return out[0][0]
    return Sym("expr", tuple(sorted(out, key=repr)))


def base_hook(me, n):
    def h(t, env, S):
        if t.op == "attr" and t.args[0] is me:
            if t.args[1] in ("spatial_coordinates", "_x"):
                return [Sym("x", k) for k in range(n)]
            if t.args[1] == "_dx":
                return [Sym("dx", k) for k in range(n)]
            if t.args[1] == "epsilon":
                return Sym("eps")
        if gcall(t, "Integer", "int") and len(t.args[1]) == 1:
            v = S.val(t.args[1][0], env)
            if isinstance(v, (int, Fraction)):
                return v
        if t.op == "poly":
            # product or sum with symbols
            p = TT.to_poly(t)
            if any(isinstance(S.val(b, env), Sym) for mono in p for b, e in mono[0]) and all(not mono[1] for mono in p):
                tot = {}
                for mono, c in p.items():
                    q, syms = Fraction(c), {}
                    for b, e in mono[0]:
                        v = S.val(b, env)
                        if isinstance(v, (int, Fraction)):
                            q *= Fraction(v) ** int(e)
                        elif isinstance(v, Sym) and v.kind == "expr" and len(v.data[0]) == 1 and e == int(e):
                            q *= v.data[0][0][0] ** int(e)
                            for y, g in v.data[0][0][1]:
                                syms[y] = syms.get(y, 0) + g * e
                        elif isinstance(v, Sym):
                            syms[v] = syms.get(v, 0) + e
                        else:
                            raise Unknown(f"product with {v!r}")
                    k = monomial(syms)
                    tot[k] = tot.get(k, 0) + q
                return expression(tot)
        return NotImplemented
    return h


def expansion(ctx, rep):
    c = ctx.cls("Closure")
    f = ctx.method("Closure", "taylor")
    I, v, s = ctx.run_method("Closure", "taylor", opaque={"correlation", "remove_eval_derivative"})
    me, par = mk("self", c.qual), mk("param", f.node.args.args[1].arg)
    memo_keys(ctx, rep, "expansion", f, I, s, me, par, (1, 2, 3), base_hook(me, 2))
    for n in (1, 2, 3):
        for order, other in ((1, None), (3, None), (3, 2), (2, 3)):
            b = base_hook(me, n)

            def hook(t, env, S):
                if (gcall(t, "correlation") or mcall(t, "correlation")) and len(t.args[1]) == 2:
                    return Sym("correlation", *[frozen(S.val(a, env)) for a in t.args[1]])
                if gcall(t, "remove_eval_derivative"):
                    return S.val(t.args[1][0], env)
                if mcall(t, "removeO", "doit", "expand", "simplify"):
                    return S.val(t.args[0].args[0], env)
                if mcall(t, "series") or gcall(t, "series"):
                    o = t.args[0].args[0] if mcall(t, "series") else t.args[1][0]
                    a = t.args[1] if mcall(t, "series") else t.args[1][1:]
                    kw = dict(t.args[2])
                    x, x0, m = [S.val(a[k], env) if len(a) > k else S.val(kw[q], env) if q in kw else dflt
                                for k, (q, dflt) in enumerate((("x", None), ("x0", 0), ("n", 6)))]
                    return Sym("series", S.val(o, env), x, x0, m)
                return b(t, env, S)
            inst = f"dimension {n}, order {order}" + (f" after order {other}" if other else "")
            S = Shape(fresh(I, s, me, hook, other and {par: other}), I.nexts)
            try:
                kind, r = outcome(I, v, s, S, {par: order})
            except Unknown as e:
                rep.unsure("expansion", inst, f.where, e)
                continue
            except Raised as e:
                rep.bad("expansion", inst, f.where, f"raises {e}")
                continue
            steps, x = [], r
            while isinstance(x, Sym) and x.kind == "series":
                steps.append(x.data[1:])
                x = x.data[0]
            if not (isinstance(x, Sym) and x.kind == "correlation"):
                rep.check("expansion", inst, f.where, False if r is HELD else None, f"{r}")
                continue
            X = tuple(Sym("x", k) for k in range(n))
            Y = tuple(Sym("expr", tuple(sorted([(Fraction(1), ((Sym("x", k), 1),)), (Fraction(1), ((Sym("dx", k), 1),))], key=repr)))
                      for k in range(n))
            pts = tuple(map(tuple, x.data))
            okp = pts in ((X, Y), (Y, X))
            oks = sorted(map(repr, steps)) == sorted(repr((Sym("dx", k), 0, order)) for k in range(n))
            rep.check("expansion", inst + ": points", f.where, okp, f"correlation between {pts[0]} and {pts[1]} in place of x and x + dx")
            rep.check("expansion", inst + ": series", f.where, oks, f"expansions {steps}: one about 0 in each grid step, of the given order, is due")


def steps_rule(ctx, rep):
    """the components of dx: one symbol of its own for each coordinate"""
    c = ctx.cls("Closure")
    f = ctx.method("Closure", "__init__")
    I, v, s = ctx.run_method("Closure", "__init__")
    me, par = mk("self", c.qual), mk("param", f.node.args.args[1].arg)
    t = s.attrs.get((me, "_dx"))
    if t is None:
        return rep.unsure("expansion", "grid steps", f.where, "no attribute _dx")
    t = I.fz(t, s)
    for n in (1, 2, 3):
        names = ["x", "y", "z"][:n]

        def hook(t, env, S):
            if t is par or gcall(t, "Field"):
                return Sym("field")
            if t.op == "attr" and t.args[1] in ("spatial_coordinates", "coordinates", "_x"):
                return [Sym("x", k) for k in range(n)]
            if t.op == "tostr" or t.op == "attr" and t.args[1] == "name":
                o = S.val(t.args[0], env)
                if isinstance(o, Sym) and o.kind == "x":
                    return Text(names[o.data[0]])
            if gcall(t, "symbols", "Symbol") and len(t.args[1]) == 1:
                o = S.val(t.args[1][0], env)
                if isinstance(o, list):
                    return [Sym("symbol", repr(text(x))) for x in o]
                if isinstance(o, Text) and o.literal:
                    xs = repr(o).replace(",", " ").split()
                    return Sym("symbol", xs[0]) if len(xs) == 1 and not repr(o).rstrip().endswith(",") else [Sym("symbol", x) for x in xs]
            if t.op == "isinstance":
                o = S.val(t.args[0], env)
                k = str(t.args[1]).split(".")[-1]
                if k in ("tuple", "Symbol"):
                    return isinstance(o, list) == (k == "tuple")
                if t.args[0] is par:
                    return True
            return NotImplemented
        want = [Sym("symbol", "d" + x) for x in names]
        try:
            r = Shape(hook, I.nexts).val(t, {})
            r = list(r) if isinstance(r, tuple) else r
        except Unknown as e:
            rep.unsure("expansion", f"grid steps, dimension {n}", f.where, e)
            continue
        except Raised as e:
            r = e
        rep.check("expansion", f"grid steps, dimension {n}", f.where, r == want, f"{r} in place of {want}")


def alphas(n, degree):
    return [a for a in itertools.product(range(degree + 1), repeat=n) if sum(a) == degree]


def alpha_hook(me, n, base):
    def h(t, env, S):
        if mcall(t, "all_of_degree") or gcall(t, "all_of_degree"):
            a = [S.val(x, env) for x in t.args[1]]
            if frozen(a[0]) == tuple(Sym("x", k) for k in range(n)) and isinstance(a[1], int):
                return [Sym("alpha", q) for q in alphas(n, a[1])]
            raise Unknown(f"multi-indices of {a}")
        if t.op == "attr" and t.args[1] in ("as_sequence", "as_couples", "as_tuple", "_as_tuple", "as_dict", "degree", "_degree"):
            o = S.val(t.args[0], env)
            if isinstance(o, Sym) and o.kind == "alpha":
                q = o.data[0]
                if t.args[1] in ("as_tuple", "_as_tuple"):
                    return list(q)
                if t.args[1] in ("degree", "_degree"):
                    return sum(q)
                if t.args[1] == "as_sequence":
                    return [Sym("x", k) for k in range(n) for _ in range(q[k])]
                if t.args[1] == "as_couples":
                    return [[Sym("x", k), q[k]] for k in range(n) if q[k]]
                if t.args[1] == "as_dict":
                    return {Sym("x", k): q[k] for k in range(n) if q[k]}
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("count", "index") and len(t.args[1]) == 1:
            o = S.val(t.args[0].args[0], env)
            if isinstance(o, list):
                x = S.val(t.args[1][0], env)
                return sum(1 for y in o if S.equal(x, y)) if t.args[0].args[1] == "count" else [S.equal(x, y) for y in o].index(True)
        if gcall(t, "factorial") and len(t.args[1]) == 1:
            return factorial(int(S.number(t.args[1][0], env)))
        if gcall(t, "Derivative"):
            o = S.val(t.args[1][0], env)
            cs = []
            for a in t.args[1][1:]:
                if a.op == "star":
                    cs += S.seq(a.args[0], env)
                else:
                    cs.append(S.val(a, env))
            q = [0] * n
            i = 0
            while i < len(cs):
                x = cs[i]
                if isinstance(x, list):
                    q[x[0].data[0]] += x[1]
                elif isinstance(x, Sym):
                    k = 1
                    if i + 1 < len(cs) and isinstance(cs[i + 1], int):
                        k = cs[i + 1]
                        i += 1
                    q[x.data[0]] += k
                i += 1
            return Sym("D", o, tuple(q)) if any(q) else o
        if gcall(t, "Expectation"):
            return Sym("E", S.val(t.args[1][0], env))
        return base(t, env, S)
    return h


def expect(n, a):
    eps = Sym("eps")
    d = Sym("D", eps, a) if any(a) else eps
    if d is eps:
        return {Sym("E", Sym("expr", ((Fraction(1), ((eps, 2),)),)))}, d
    return {Sym("E", Sym("expr", ((Fraction(1), tuple(sorted([(eps, 1), (d, 1)], key=repr))),)))}, d


def coefficients(ctx, rep, tier):
    c = ctx.cls("Closure")
    f = ctx.method("Closure", "closure_by_order")
    I, v, s = ctx.run_method("Closure", "closure_by_order", opaque={"taylor", "all_of_degree"})
    me, par = mk("self", c.qual), mk("param", f.node.args.args[1].arg)
    memo_keys(ctx, rep, "coefficients", f, I, s, me, par, (0, 1, 2, 3), base_hook(me, 2))
    for n in (1, 2, 3):
        for order in range(0, (4 if n < 3 else 3) if tier == "quick" else 6 if n < 3 else 4):
            b = alpha_hook(me, n, base_hook(me, n))

            def hook(t, env, S):
                if (gcall(t, "taylor") or mcall(t, "taylor")) and len(t.args[1]) == 1:
                    return Sym("coeff", S.number(t.args[1][0], env), ())
                if mcall(t, "coeff"):
                    o = S.val(t.args[0].args[0], env)
                    a = [S.val(x, env) for x in t.args[1]]
                    if isinstance(o, Sym) and o.kind == "coeff" and isinstance(a[0], Sym) and a[0].kind == "dx":
                        return Sym("coeff", o.data[0], tuple(sorted(o.data[1] + ((a[0].data[0], a[1] if len(a) > 1 else 1),))))
                if mcall(t, "expand", "doit", "removeO"):
                    return S.val(t.args[0].args[0], env)
                return b(t, env, S)
            for other in {order - 1, order + 1} - {-1}:
                try:
                    r = Shape(fresh(I, s, me, hook, {par: other}), I.nexts).val(v, {par: order})
                except Raised as e:
                    r = e
                except Unknown as e:
                    rep.unsure("coefficients", f"dimension {n}, order {order} after order {other}", f.where, e)
                    continue
                ok = isinstance(r, dict) and r is not HELD and HELD not in r.values()
                rep.check("coefficients", f"dimension {n}, order {order} after order {other}", f.where, ok, "" if ok else f"{r}")
            S = Shape(fresh(I, s, me, hook), I.nexts)
            inst = f"dimension {n}, order {order}"
            try:
                kind, r = outcome(I, v, s, S, {par: order})
            except Unknown as e:
                rep.unsure("coefficients", inst, f.where, e)
                continue
            except Raised as e:
                kind, r = "raises", e
            if kind == "raises" or not isinstance(r, dict):
                rep.bad("coefficients", inst, f.where, f"{kind} {r}")
                continue
            keys_ok = sorted(map(repr, r)) == sorted(repr(k) for k in range(order + 1))
            rep.check("coefficients", inst + ": orders", f.where, keys_ok, f"orders {list(r)} in place of 0..{order}")
            for p in range(order + 1):
                got = r.get(p)
                if not isinstance(got, dict):
                    continue
                left = dict(got)
                for a in alphas(n, p):
                    names, d = expect(n, a)
                    hit = [k for k in left if k in names]
                    i2 = f"{inst}: multi-index {a}"
                    if not hit:
                        rep.bad("coefficients", i2, f.where, f"no term for E[eps D^{a} eps] among {list(got)[:4]}")
                        continue
                    val = left.pop(hit[0])
                    rep.check("coefficients", i2, f.where, *coefficient_ok(val, a, n))
                if left:
                    rep.bad("coefficients", f"{inst}: degree {p}", f.where, f"further terms {list(left)[:3]}")


def coefficient_ok(val, a, n):
    fac = 1
    for q in a:
        fac *= factorial(q)
    k, x = Fraction(1), val
    if isinstance(val, Sym) and val.kind == "expr" and len(val.data[0]) == 1 and len(val.data[0][0][1]) == 1 and val.data[0][0][1][0][1] == 1:
        k, x = val.data[0][0][0], val.data[0][0][1][0][0]
    if not (isinstance(x, Sym) and x.kind == "coeff"):
        return False if isinstance(val, (int, Fraction)) else None, f"value {val}"
    order, cs = x.data
    if list(cs) != [(j, a[j]) for j in range(n)]:
        return False, f"coefficient of {' '.join(f'dx{j}^{q}' for j, q in cs)} in place of {' '.join(f'dx{j}^{q}' for j, q in enumerate(a))}"
    if order <= max(a):
        return False, f"the expansion of order {order} has no term in dx^{max(a)}"
    if k != fac:
        return False, f"factor {k} in place of {fac} (factorial of the multi-index)"
    return True, ""


def fresh_copies(ctx, rep):
    """the caller (in_metric_by_order) updates the result: the stored closures must not change"""
    c = ctx.cls("Closure")
    f = ctx.method("Closure", "closure_by_order")
    I, v, s = ctx.run_method("Closure", "closure_by_order", opaque={"taylor", "all_of_degree"})
    me = mk("self", c.qual)
    stored = [e.target for e in I.effects if e.kind == "sub" and isinstance(e.target, T) and e.target.op == "attr" and e.target.args[0] is me]
    if not stored:
        return rep.ok("copies", "nothing is stored", f.where)

    def fresh_term(t, depth):
        """True when the dictionary (and its values down to depth) is built by the call"""
        if t.op == "phi":
            return all_(fresh_term(t.args[1], depth), fresh_term(t.args[2], depth))
        if gcall(t, "deepcopy"):
            return True
        if t.op == "coll":
            if depth == 0:
                return True
            out = True
            for p, gs, ixs in parts_flat(t.args[1]):
                if p.op == "kv":
                    out = all_(out, fresh_term(p.args[1], depth - 1))
                elif p.op == "splat":
                    out = all_(out, False if stored_in(p.args[0]) else None)
            return out
        if mcall(t, "copy") or gcall(t, "dict", "copy"):
            if depth == 0:
                return True
            o = t.args[0].args[0] if mcall(t, "copy") else t.args[1][0]
            return False if stored_in(o) else None
        if stored_in(t):
            return False
        return None

    def stored_in(t):
        return t.op == "sub" and (t.args[0] in stored or stored_in(t.args[0])) or t in stored

    def all_(a, b):
        return False if a is False or b is False else None if a is None or b is None else True
    r = fresh_term(v, 1)
    rep.check("copies", "closure_by_order", f.where, r, "the stored terms are given to the caller, who updates them" if r is False else short(v))


def in_metric(ctx, rep):
    c = ctx.cls("Closure")
    f = ctx.method("Closure", "in_metric_by_order")
    I, v, s = ctx.run_method("Closure", "in_metric_by_order", opaque={"closure_by_order", "all_of_degree", "metric_func", "aspect_func"})
    me, par = mk("self", c.qual), mk("param", f.node.args.args[1].arg)
    for n, order in ((1, 2), (1, 4), (2, 2), (2, 3), (3, 2), (3, 3)):
        cl = {}
        for p in range(order + 1):
            cl[p] = {next(iter(expect(n, a)[0])): Sym("C", a) for a in alphas(n, p)}
        b = alpha_hook(me, n, base_hook(me, n))

        def hook(t, env, S):
            if (gcall(t, "closure_by_order") or mcall(t, "closure_by_order")) and len(t.args[1]) == 1:
                return cl
            if mcall(t, "metric_func", "aspect_func") or gcall(t, "metric_func", "aspect_func"):
                nm = str(t.args[0].args[-1]).split(".")[-1]
                return Sym(nm, tuple(sorted(S.val(x, env) for x in t.args[1])))
            if mcall(t, "atoms") and str(t.args[1][0].args[0]).endswith("Derivative"):
                o = S.val(t.args[0].args[0], env)
                return [Sym("derivative", o, 1), Sym("derivative", o, 2)]
            if t.op == "attr" and t.args[1] in ("derivative_count", "variables", "expr", "args", "is_Derivative"):
                o = S.val(t.args[0], env)
                if isinstance(o, Sym) and o.kind == "derivative":
                    return {"derivative_count": o.data[1], "variables": [Sym("x", 0)] * o.data[1], "is_Derivative": True,
                            "expr": Sym("differentiated", o.data[0]), "args": [Sym("differentiated", o.data[0]), [Sym("x", 0), o.data[1]]]}[t.args[1]]
            if gcall(t, "Eq"):
                return Sym("Eq", *[S.val(x, env) for x in t.args[1]])
            if gcall(t, "solve"):
                un = []
                for a in t.args[1][1:]:
                    un += S.seq(a.args[0], env) if a.op == "star" else S.val(a, env) if isinstance(S.val(a, env), list) else [S.val(a, env)]
                sysm = S.val(t.args[1][0], env)
                return Sym("solution", tuple(sorted(map(repr, sysm))), tuple(sorted(map(repr, un))))
            if mcall(t, "subs"):
                o, d = S.val(t.args[0].args[0], env), S.val(t.args[1][0], env)
                if isinstance(d, dict) and d and all(isinstance(k, Sym) and k.kind == "derivative" and k.data[0] is o for k in d):
                    if any(x != 0 for x in d.values()):
                        return Sym("other", o, *d.values())
                    return Sym("plain", o) if len(d) == 2 else Sym("with derivatives", o)
                if isinstance(d, Sym) and d.kind == "solution":
                    return Sym("solved", o, d)
                if isinstance(d, dict) and not d:
                    return o
            if mcall(t, "doit", "expand", "simplify"):
                return S.val(t.args[0].args[0], env)
            return b(t, env, S)
        S = Shape(hook, I.nexts)
        inst = f"dimension {n}" + ("" if order == 2 else f", order {order}")
        eqs, uns = [], []
        for a in alphas(n, 2):
            i, j = [k for k in range(n) for _ in range(a[k])]
            eqs.append(repr(Sym("Eq", Sym("expr", ((Fraction(-1), ((Sym("metric_func", (i, j)), 1),)),)), Sym("plain", Sym("C", a)))))
            uns.append(repr(Sym("aspect_func", (i, j))))
        sol = Sym("solution", tuple(sorted(eqs)), tuple(sorted(uns)))
        writes = {}
        try:
            for e in I.effects:
                if e.kind != "sub":
                    continue
                run_loops(S, e, lambda en: writes.__setitem__((dict_key(cl, S.val(I.fz(e.target, s), en)), S.val(I.fz(e.key, s), en)),
                                                              S.val(I.fz(e.value, s), en)), I, s, {par: order})
        except Unknown as e:
            rep.unsure("change to the metric", inst, f.where, e)
            continue
        except Raised as e:
            rep.bad("change to the metric", inst, f.where, f"raises {e}")
            continue
        try:
            r = S.val(v, {par: order})
        except (Unknown, Raised) as e:
            r = None
        for p in cl:
            for term, C in cl[p].items():
                got = writes.get((p, term))
                if r is not cl and isinstance(r, dict):
                    got = r.get(p, {}).get(term)
                wants = (Sym("solved", C, sol), Sym("solved", Sym("plain", C), sol))
                ok = got in wants[:1] or p == 2 and got is wants[1]
                rep.check("change to the metric", f"{inst}: {term}"[:120], f.where, ok,
                          "" if ok else f"value {str(got)[:300]} in place of {str(wants[0])[:300]}")


def dict_key(cl, d):
    for k, x in cl.items():
        if x is d:
            return k
    if d is cl:
        return "top"
    raise Unknown(f"update of {d!r}"[:100])


def run_loops(S, e, act, I, s, env=None):
    def go(k, en):
        if k == len(e.loops):
            if all(S.truth(S.val(I.fz(c, s), en)) for c in e.pc):
                act(en)
            return
        for i in range(S.count(e.loops[k], en)):
            go(k + 1, {**en, e.loops[k]: i})
    go(0, dict(env or {}))


def run(ctx, rep, tier):
    rep.rule("correlation", "the correlation functions are the heterogeneous or local Gaussian with curvature metric = inverse of the aspect = half of the "
             "inverse of the diffusion; equal to 1 at a point with itself", 20)
    rep.rule("expansion", "the expansion of order n is that of the correlation between x and x + dx, about 0 in each component of dx", 10)
    rep.rule("coefficients", "the closure of E[eps D^alpha eps] is alpha! times the coefficient of dx^alpha in an expansion which has this term", 30)
    rep.rule("copies", "the stored closures are not those given to the caller", 1)
    rep.rule("change to the metric", "the aspect is eliminated by the system -g_ij = closure of E[eps D_ij eps] without derivatives, one equation for each "
             "i <= j, in all terms", 8)
    correlations(ctx, rep)
    expansion(ctx, rep)
    steps_rule(ctx, rep)
    coefficients(ctx, rep, tier)
    fresh_copies(ctx, rep)
    in_metric(ctx, rep)
