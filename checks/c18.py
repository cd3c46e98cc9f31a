"""C18: finite-difference stencils: on the grid, symmetric, with enough points for a second order; every derivative replaced."""
from fractions import Fraction
from math import ceil
from .base import *
from engine.norm import eq_, lt_, in_

ALG = ("expand", "simplify", "factor", "cancel", "together", "doit")


def lparts(p):
    return list(parts_flat(p))


def is_ext(t, *names):
    """numpy / sympy function whatever the way it is imported"""
    return t.op == "call" and t.args[0].op in ("global", "attr") and str(t.args[0].args[-1]).split(".")[-1] in names


def ev(t, env):
    """ieval with arange"""
    t = rewrite(t, unarange)
    e = dict(env)
    for x in TT.walk(t):
        if x.op == "len" and (is_ext(x.args[0], "arange") or x.args[0].op == "rangeT"):
            b = bounds(x.args[0]) if x.args[0].op == "call" else x.args[0].args
            if b is not None:
                lo, hi, st = (ieval(q, env) for q in b)
                if None not in (lo, hi, st) and st:
                    e[x] = max(0, ceil(Fraction(hi - lo, st)))
        elif x.op == "truth" and x.args[0].op == "sub" and x.args[0].args[1].op == "slice" and len_(x.args[0].args[0]) in env:
            lo = slice_low(x.args[0].args[1])
            if lo is not None:
                e[x] = env[len_(x.args[0].args[0])] > lo
        elif x.op == "truth":
            q = ieval(x.args[0], e)
            if q is not None:
                e[x] = q != 0
    return ieval(t, e)


def bounds(a):
    xs = a.args[1]
    kw = {k: v for k, v in a.args[2] if k != "dtype"}
    if kw:
        return None
    if len(xs) == 1:
        return num(0), xs[0], num(1)
    if len(xs) == 2:
        return xs[0], xs[1], num(1)
    if len(xs) == 3:
        return xs
    return None


def unarange(x):
    if x.op == "sub" and x.args[0].op == "call" and is_ext(x.args[0], "arange"):
        b = bounds(x.args[0])
        if b is not None:
            return add(b[0], mul(b[2], x.args[1]))
    if x.op == "sub" and x.args[0].op == "rangeT":
        a, b, s = x.args[0].args
        return add(a, mul(s, x.args[1]))
    if x.op == "call" and is_ext(x, "Integer", "int") and len(x.args[1]) == 1:
        return x.args[1][0]
    if x.op == "int":
        return x.args[0]
    return x


def enum(expr, ixs, gs, env):
    """values of an index expression over its loops"""
    out = []

    def go(k, e):
        if k == len(ixs):
            for g in gs:
                b = ev(g, e)
                if b is None:
                    return False
                if not b:
                    return True
            v = ev(expr, e)
            if v is None:
                return False
            out.append(v)
            return True
        n = ev(ixs[k].args[0], e)
        if n is None:
            return False
        return all(go(k + 1, {**e, ixs[k]: q}) for q in range(max(0, n)))
    return out if go(0, dict(env)) else None


def weights_order(ks, m):
    """order of accuracy of the finite difference of the m-th derivative at the points ks (exact), None: not enough points"""
    n = len(ks)
    if n <= m:
        return None
    A = [[Fraction(k) ** i for k in ks] for i in range(n)]
    b = [Fraction(0)] * n
    f = 1
    for i in range(1, m + 1):
        f *= i
    b[m] = Fraction(f)
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c])
        A[c], A[p], b[c], b[p] = A[p], A[c], b[p], b[c]
        for r in range(n):
            if r != c and A[r][c]:
                q = A[r][c] / A[c][c]
                A[r] = [x - q * y for x, y in zip(A[r], A[c])]
                b[r] -= q * b[c]
    w = [b[i] / A[i][i] for i in range(n)]
    j = n
    while not sum(x * Fraction(k) ** j for x, k in zip(w, ks)) and j < n + 4:
        j += 1
    return j - m


def stencil(ctx, rep, tier):
    f = ctx.func("get_subs_derivative")
    I, v, s = ctx.run(f)
    where = f.where
    v = N.specialise(I.fz(v, s), ())
    par = mk("param", f.node.args.args[0].arg)
    A = mk("attr", par, "args")
    A1 = sub_(A, num(1))
    FUNC = {sub_(A, num(0)), mk("attr", par, "expr")}
    XI, OI = sub_(A1, num(0)), sub_(A1, num(1))
    more = lt_(num(2), len_(A))
    upto = 12 if tier == "quick" else 24
    if not [x for x in TT.walk(v) if mcall(x, "as_finite_difference")]:
        return rep.unsure("stencil", "all", where, f"no finite difference: {short(v)}")
    bad = set()
    covered = {}
    for multi in (True, False):
        for n in range(1, upto + 1):
            leaf = select(v, {OI: n, XI: None, len_(A): 3 if multi else 2})
            inst = f"order {n}, {'mixed' if multi else 'single'}"
            if leaf is None:
                return rep.unsure("stencil", inst, where, f"{short(v)}")
            r = one_stencil(leaf, par, FUNC, XI, OI, n, multi)
            if r[0] == "bad":
                if r[1] not in bad:
                    bad.add(r[1])
                    rep.bad("stencil", inst, where, r[2])
            elif r[0] == "unsure":
                return rep.unsure("stencil", inst, where, r[2])
            else:
                covered[inst] = r[2]
    for inst, msg in covered.items():
        rep.ok("stencil", inst, where, msg)


def select(v, env):
    """the alternative for an order"""
    def f(x):
        if x.op == "phi":
            b = ev(x.args[0], env)
            if b is not None:
                return x.args[1] if b else x.args[2]
        return x
    v = rewrite(v, f)
    return None if v.op == "phi" else v


def peel(t):
    done = False
    while True:
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ALG and not t.args[1]:
            done |= t.args[0].args[1] == "doit"
            t = t.args[0].args[0]
        elif gcall(t, "expand", "simplify") and len(t.args[1]) == 1:
            t = t.args[1][0]
        else:
            return t, done


def one_stencil(leaf, par, FUNC, XI, OI, n, multi):
    A = mk("attr", par, "args")
    t, done = peel(leaf)
    rest = None
    if is_ext(t, "Derivative", "diff") or mcall(t, "diff"):
        if mcall(t, "diff"):
            base, vs, done = t.args[0].args[0], t.args[1], True
        else:
            base, vs = t.args[1][0], t.args[1][1:]
        rest = vs
        t, d2 = peel(base)
        if not done:
            return "bad", "rest", "the remaining derivatives of the finite difference are not evaluated: the points of the stencil " \
                                  "stay inside the derivative"
    if multi:
        if rest is None:
            return "bad", "rest", "the derivatives in the other coordinates are dropped"
        ok = len(rest) == 1 and rest[0].op == "star" and rest[0].args[0].op == "sub" and rest[0].args[0].args[0] is A and \
            rest[0].args[0] is sub_(A, rest[0].args[0].args[1])
        lo = slice_low(rest[0].args[0].args[1]) if ok else None
        if ok and lo is None and rest[0].args[0].args[1].op == "slice" and numval(rest[0].args[0].args[1].args[1]) is not None:
            return "bad", "rest", f"the remaining derivatives are only {short(rest[0])}"
        if lo is None and len(rest) == 1 and rest[0].op == "star" and rest[0].args[0].op == "coll":
            # the parts of the arguments which follow, one after the other
            lv = lparts(rest[0].args[0].args[1])
            if len(lv) == 1 and len(lv[0][2]) == 1 and not lv[0][1] and lv[0][0].op == "sub" and numval(lv[0][0].args[1]) == 0 and \
                    lv[0][0].args[0].op == "sub" and lv[0][0].args[0].args[0] is A:
                return "bad", "rest", "the remaining derivatives lose their orders: the coordinates only are kept"
        if lo is None:
            return "unsure", "rest", f"remaining derivatives {[short(x) for x in rest]}"
        if lo != 2:
            return "bad", "rest", f"the remaining derivatives are those from the position {lo} of the arguments, not 2"
    elif rest is not None:
        ok = len(rest) == 1 and rest[0].op == "star"
        lo = slice_low(rest[0].args[0].args[1]) if ok and rest[0].args[0].op == "sub" else None
        if lo is None:
            return "unsure", "rest", f"remaining derivatives {[short(x) for x in rest]}"
        if lo != 2:
            return "bad", "rest", f"the remaining derivatives are those from the position {lo} of the arguments, not 2"
    if not mcall(t, "as_finite_difference"):
        return "unsure", "fd", f"not a finite difference: {short(t)}"
    d = t.args[0].args[0]
    if not is_ext(d, "Derivative") or not d.args[1]:
        return "unsure", "fd", f"finite difference of {short(d)}"
    da = flat_vars(d.args[1][1:])
    if d.args[1][0] not in FUNC:
        return "unsure", "fd", f"finite difference of {short(d)}"
    if da is None:
        return "unsure", "fd", f"finite difference of {short(d)}"
    if da != (XI, OI):
        return "bad", "fd", f"finite difference of {short(d)}: not the first coordinate at its own order"
    kw = dict(t.args[2])
    pts = t.args[1][0] if t.args[1] else kw.get("points", num(1))
    x0 = t.args[1][1] if len(t.args[1]) > 1 else kw.get("x0", NONE)
    wrt = t.args[1][2] if len(t.args[1]) > 2 else kw.get("wrt", NONE)
    if x0 not in (NONE, XI):
        return "bad", "x0", f"the finite difference is taken at {short(x0)}, not at the point"
    if wrt not in (NONE, XI):
        return "bad", "wrt", f"finite difference with respect to {short(wrt)}"
    if pts.op == "coll":
        pts = rewrite(pts, unarange)
        ks, step = [], None
        for p, gs, ixs in lparts(pts.args[1]):
            r = offset(p, XI)
            if r is None:
                return "unsure", "points", f"point {short(p)}"
            k, st = r
            if st is not None:
                step = st
                if not step_symbol(st, XI):
                    return "bad", "step", f"the step is {short(st)}, not the grid step of the coordinate"
            got = enum_frac(k, ixs, gs, {OI: n})
            if got is None:
                return "unsure", "points", f"points {short(pts)}"
            ks += got
    elif step_symbol(pts, XI):
        ks = [Fraction(i) - (Fraction(0) if n % 2 == 0 else Fraction(1, 2)) for i in range(-(n // 2), n // 2 + 1 + n % 2)]
        if n % 2:
            ks = [Fraction(2 * i + 1, 2) for i in range(-(n + 1) // 2, (n + 1) // 2)]
    else:
        return "unsure", "points", f"points {short(pts)}"
    sk = sorted(ks)
    txt = "[" + ", ".join(str(k) for k in sk) + "]"
    if any(k != int(k) for k in sk):
        return "bad", "grid", f"derivative of order {n}: points {txt} (in steps) are not on the grid"
    if len(set(sk)) != len(sk):
        return "bad", "distinct", f"derivative of order {n}: points {txt} (in steps) are not distinct"
    if any(-k not in sk for k in sk):
        return "bad", "symmetric", f"derivative of order {n}: points {txt} (in steps) are not symmetric about the point"
    o = weights_order(sk, n)
    if o is None:
        return "bad", "enough", f"derivative of order {n}: {len(sk)} points {txt} can not give a derivative of this order"
    if o < 2:
        return "bad", "consistent", f"derivative of order {n}: the points {txt} give a consistency of order {o}"
    return "ok", "", f"offsets {txt}: consistency of order {o}"


def slice_low(t):
    if t.op == "slice":
        lo = 0 if t.args[0] is NONE else numval(t.args[0])
        if t.args[1] is NONE and (t.args[2] is NONE or numval(t.args[2]) == 1):
            return lo
    return None


def flat_vars(vs):
    vs = tuple(vs)
    if len(vs) == 2:
        return vs
    if len(vs) == 1 and vs[0].op == "coll" and len(vs[0].args[1]) == 2:
        return tuple(vs[0].args[1])
    if len(vs) == 1 and vs[0].op == "sub":
        return sub_(vs[0], num(0)), sub_(vs[0], num(1))
    if len(vs) == 1 and vs[0].op == "star" and vs[0].args[0].op in ("sub",):
        return sub_(vs[0].args[0], num(0)), sub_(vs[0].args[0], num(1))
    return None


def step_symbol(t, XI):
    if not is_ext(t, "symbols", "Symbol") or len(t.args[1]) != 1:
        return False
    x = t.args[1][0]
    return x is cat_d(XI)


def cat_d(XI):
    return N.cat(string("d"), mk("tostr", XI)) if hasattr(N, "cat") else mk("cat", string("d"), mk("tostr", XI))


def offset(p, XI):
    """(number of steps, step) of a point xi + k dxi"""
    k, step, base = [], None, 0
    for (mono, c) in TT.to_poly(rewrite(p, unarange)).items():
        if mono[1]:
            return None
        at = list(mono[0])
        if at == [(XI, 1)]:
            base += c
            continue
        st = [b for b, e in at if is_ext(b, "symbols", "Symbol") and e == 1]
        if len(st) != 1 or step is not None and st[0] is not step:
            return None
        step = st[0]
        q = num(c)
        for b, e in at:
            if b is not step:
                q = mul(q, TT.power(b, num(e)) if e != 1 else b)
        k.append(q)
    if base != 1:
        return None
    return total_(k), step


def total_(k):
    t = num(0)
    for x in k:
        t = add(t, x)
    return t


def enum_frac(expr, ixs, gs, env):
    """values (rationals) of the number of steps"""
    out = []
    den = 1
    for (mono, c) in TT.to_poly(expr).items():
        den = den * Fraction(c).denominator
    got = enum(mul(num(den), expr), ixs, gs, env)
    return None if got is None else [Fraction(x, den) for x in got]


# ------------------------------------------------------------------ substitutions
def strip(t):
    return peel(t)[0]


def derivatives(t):
    """expression whose derivatives are taken, when the term is the set of the derivatives of an expression"""
    while is_ext(t, "list", "set", "tuple", "frozenset") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "coll" and len(t.args[1]) == 1 and t.args[1][0].op == "splat":
        return derivatives(t.args[1][0].args[0])
    if mcall(t, "atoms", "find") and len(t.args[1]) == 1 and t.args[1][0].op == "global" and \
            t.args[1][0].args[0].split(".")[-1] == "Derivative":
        return t.args[0].args[0]
    return None


def replaced(nxt, carry):
    """(derivative, by) of carry.subs(derivative, by), under guards"""
    nxt = strip(nxt)
    if mcall(nxt, "subs", "xreplace", "replace") and strip(nxt.args[0].args[0]) is carry:
        a = nxt.args[1]
        if len(a) == 2:
            return a
        if len(a) == 1 and a[0].op == "coll" and len(a[0].args[1]) == 1:
            p = a[0].args[1][0]
            if p.op == "kv":
                return p.args
            if p.op == "coll" and len(p.args[1]) == 2:
                return p.args[1]
    return None


def split_guards(nxt, carry):
    gs = []
    while nxt.op == "phi":
        if nxt.args[2] is carry:
            gs.append(nxt.args[0])
            nxt = nxt.args[1]
        elif nxt.args[1] is carry:
            gs.append(not_(nxt.args[0]))
            nxt = nxt.args[2]
        else:
            return None, None
    return gs, nxt


def every(rep, rule, inst, where, ix, n, S):
    """does the loop ix run over all the n elements"""
    if ix.args[0] is n:
        return True
    d = TT.to_poly(add(ix.args[0], neg(n)))
    if d and all(k == ((), ()) or not k[0] for k in d):
        rep.bad(rule, inst, where, f"the loop runs over {short(ix.args[0])} elements of {short(S)}: not all of them")
    elif ix.args[0].op == "num" or gcall(ix.args[0], "min") or ix.args[0].op in ("minof", "min"):
        rep.bad(rule, inst, where, f"the loop runs over {short(ix.args[0])} elements of {short(S)}: not all of them")
    else:
        rep.unsure(rule, inst, where, f"loop over {short(ix.args[0])} elements of {short(S)}")
    return False


def named(t, name, arg):
    return t.op == "call" and str(t.args[0].args[-1]).split(".")[-1] == name and t.args[1] == (arg,)


def single(ctx, rep):
    f = ctx.func("finite_difference_derivative")
    I, v, s = ctx.run(f, opaque={"get_subs_derivative"})
    where, inst = f.where, "one derivative"
    par = mk("param", f.node.args.args[0].arg)
    v = strip(I.fz(v, s))
    if v.op == "first" and v.args[2].op == "carry" and v.args[2].args[0] is v.args[0]:
        cond, carry = v.args[1], v.args[2]
        start = carry.args[1]
        nxt = I.nexts.get(carry)
        if nxt is None:
            return rep.unsure("replaced", inst, where, short(v))
        for c2 in [x for x in TT.walk(cond) if x.op == "carry" and x.args[0] is v.args[0] and x is not carry]:
            # variable recomputed from the expression at the end of each iteration
            n2 = I.nexts.get(c2)
            if n2 is not None:
                a = rewrite(c2.args[1], lambda x: carry if x is start else x)
                b = rewrite(n2, lambda x: carry if x is nxt else x)
                if a is b and has_term(a, carry):
                    cond, nxt = (rewrite(q, lambda x: a if x is c2 else x) for q in (cond, nxt))
        cond = rewrite(cond, lambda x: N.truthy(mk("call", mk("attr", x.args[0].args[0], "atoms"), x.args[1], ()))
                       if mcall(x, "has") and len(x.args[1]) == 1 else x)
        cond = rewrite(cond, lambda x: x.args[0] if x.op == "truth" and x.args[0].op == "truth" else x)
        ds = [x for x in TT.walk(cond) if derivatives(x) is not None]
        if len(ds) != 1 or derivatives(ds[0]) is not carry:
            return rep.unsure("replaced", inst, where, f"end of the loop: {short(cond)}")
        D = ds[0]
        L = mk("param", "left")
        c2 = rewrite(cond, lambda x: mk("lt", num(0), L) if x.op == "truth" and x.args[0] is D else L if x is len_(D) else x)
        got = [ev(c2, {L: k}) for k in range(6)]
        if None in got or has_term(c2, D):
            return rep.unsure("replaced", inst, where, f"end of the loop: {short(cond)}")
        if any(got[1:]):
            return rep.bad("replaced", inst, where, f"the loop ends although derivatives are left: {short(cond)}")
        if not got[0]:
            return rep.unsure("replaced", inst, where, f"end of the loop: {short(cond)}")
    elif v.op == "fold":
        return rep.unsure("replaced", inst, where, f"{short(v)}")
    else:
        one = [x for x in TT.walk(v) if x.op == "fold"]
        return rep.unsure("replaced", inst, where, f"{short(v)}")
    if strip(start) is not par:
        return rep.unsure("replaced", inst, where, f"starts with {short(start)}")
    if not one_pass(rep, inst, where, strip(nxt), carry, "get_subs_derivative"):
        return
    rep.ok("replaced", inst, where, "derivatives are replaced by their own stencils until none is left")


def one_pass(rep, inst, where, nxt, base, fd):
    """fold over all the derivatives of base, each one replaced by fd(derivative)"""
    if nxt.op != "fold":
        r = replaced(nxt, base)
        if r is not None and named(r[1], fd, r[0]) and any(x.op == "call" and mcall(x, "pop") for x in TT.walk(r[0])):
            return True
        rep.unsure("replaced", inst, where, f"pass {short(nxt)}")
        return False
    ix, carry, start, body = nxt.args
    gs, body = split_guards(body, carry)
    if strip(start) is not base or gs is None:
        rep.unsure("replaced", inst, where, f"pass {short(nxt)}")
        return False
    r = replaced(body, carry)
    if r is None:
        rep.unsure("replaced", inst, where, f"pass {short(body)}")
        return False
    d, by = r
    src = d.args[0] if d.op == "sub" else d
    rev = False
    if src.op == "reversedT":
        rev, src = True, src.args[0]
    up = src.op != "sortedT" and not rev
    if src.op == "sortedT":
        sg = key_sign(src.args[1])
        up = sg is not None and not ((sg < 0) ^ (src.args[2] is TRUE) ^ rev)
        src = src.args[0]
    if d.op != "sub" or d.args[1] is not ix or derivatives(src) is None or strip(derivatives(src)) is not base:
        rep.unsure("replaced", inst, where, f"replaces {short(d)}")
        return False
    if not every(rep, "replaced", inst, where, ix, len_(d.args[0]), d.args[0]):
        return False
    if up:
        rep.bad("replaced", inst, where, "the derivatives are not replaced by decreasing order: a low order one may be replaced inside the "
                                         "higher ones")
        return False
    if not named(strip(by), fd, d):
        rep.bad("replaced", inst, where, f"a derivative is replaced by {short(by)}, not by its own finite difference") \
            if understood(by, (fd,)) or fd in short(by, 2000) else rep.unsure("replaced", inst, where, f"replaced by {short(by)}")
        return False
    if gs:
        rep.bad("replaced", inst, where, f"only the derivatives with {[short(g) for g in gs]} are replaced") \
            if all(has_term(g, d) for g in gs) else rep.unsure("replaced", inst, where, f"{[short(g) for g in gs]}")
        return False
    return True


def two_sides(g):
    return tuple(g.args) if g.op == "eq" and len(g.args) == 2 else None


def group(D):
    """(key, element, loop) of a dictionary of lists {key(d): [d ..]}"""
    if D.op == "coll" and D.args[0] == "dict":
        ps = lparts(D.args[1])
        if len(ps) == 1 and ps[0][0].op == "app" and not ps[0][1] and len(ps[0][2]) == 1:
            k, body = ps[0][0].args
            if body.op == "coll" and len(body.args[1]) == 1:
                return k, body.args[1][0], ps[0][2][0]
        # {key(d): [e .. if key(e) == key(d)]}
        if len(ps) == 1 and ps[0][0].op == "kv" and not ps[0][1] and len(ps[0][2]) == 1:
            (k, val), i = ps[0][0].args, ps[0][2][0]
            qs = lparts(val.args[1]) if val.op == "coll" else []
            if len(qs) == 1 and len(qs[0][1]) == 1 and len(qs[0][2]) == 1:
                e, g, j = qs[0][0], two_sides(qs[0][1][0]), qs[0][2][0]
                if e.op == "sub" and e.args[1] is j and g is not None:
                    d = sub_(e.args[0], i)
                    for a, b in (g, g[::-1]):
                        if b is k and subst(a, {e: d}) is k and has_term(k, d):
                            return k, d, i
    return None


def whole(ctx, rep):
    f = ctx.func("finite_difference")
    I, v, s = ctx.run(f, opaque={"get_total_order", "finite_difference_derivative", "_sympy_finite_difference"})
    where, inst = f.where, "expression"
    par = mk("param", f.node.args.args[0].arg)
    v = strip(I.fz(v, s))
    m = v.args[1][0] if mcall(v, "xreplace") and len(v.args[1]) == 1 and strip(v.args[0].args[0]) is par else None
    if m is not None and m.op == "coll":
        # exact, simultaneous replacement: a derivative is never looked for inside another one
        base, lv = v.args[0].args[0], lparts(m.args[1])
        if len(lv) == 1 and lv[0][0].op == "kv" and len(lv[0][2]) == 1:
            (k, by), gs, (ix,) = lv[0][0].args, lv[0][1], lv[0][2]
            if k.op == "sub" and k.args[1] is ix and derivatives(k.args[0]) is base and named(strip(by), "finite_difference_derivative", k):
                if not peel(base)[1]:
                    return rep.bad("decreasing", inst, where, "derivatives of products and sums are not evaluated first")
                if gs:
                    return rep.check("decreasing", inst, where, False if all(understood(g, ("get_total_order",)) for g in gs) else None,
                                     f"only the derivatives with {[short(g) for g in gs]}")
                return rep.ok("decreasing", inst, where, "all the derivatives in one exact replacement")
    if v.op != "fold":
        return rep.unsure("decreasing", inst, where, short(v))
    ix, carry, start, body = v.args
    if strip(start) is not par:
        return rep.unsure("decreasing", inst, where, f"starts with {short(start)}")
    if not peel(start)[1]:
        return rep.bad("decreasing", inst, where, "derivatives of products and sums are not evaluated first")
    gs, b2 = split_guards(body, carry)
    if gs is None:
        return rep.unsure("decreasing", inst, where, short(body))
    inner = strip(b2)
    FD = "finite_difference_derivative"
    if inner.op == "fold" and gs:
        return rep.bad("decreasing", inst, where, f"only the orders with {[short(g) for g in gs]}") \
            if all(understood(g, ("atoms", "doit", "get_total_order", "max", "min")) for g in gs) \
            else rep.unsure("decreasing", inst, where, f"only the orders with {[short(g) for g in gs]}")
    if inner.op == "fold":
        jx, c2, s2, b3 = inner.args
        if strip(s2) is not carry:
            return rep.unsure("decreasing", inst, where, f"inner loop starts with {short(s2)}")
        gs, b3 = split_guards(b3, c2)
        r = replaced(b3, c2) if gs is not None else None
        if r is None:
            return rep.unsure("decreasing", inst, where, f"{short(b3) if b3 is not None else ''}")
        d, by = r
        if not ((named(strip(by), FD, d) or named(strip(by), "get_subs_derivative", d))):
            return rep.bad("decreasing", inst, where, f"{short(d)} is replaced by {short(by)}") if wrong(by, d, FD) else \
                rep.unsure("decreasing", inst, where, f"{short(d)} is replaced by {short(by)}")
        # groups[key(i)][j]
        if d.op == "sub" and d.args[1] is jx and d.args[0].op == "sub" and group(d.args[0].args[0]) is not None:
            k, el, gx = group(d.args[0].args[0])
            if not every(rep, "decreasing", inst, where, jx, len_(d.args[0]), d.args[0]):
                return
            seq_ = d.args[0].args[1]
            if gs:
                return rep.bad("decreasing", inst, where, f"only the derivatives with {[short(g) for g in gs]}")
            if el.op != "sub" or el.args[1] is not gx or strip(derivatives(el.args[0]) or NONE) is not par or \
                    derivatives(el.args[0]) is not start:
                return rep.unsure("decreasing", inst, where, f"groups of {short(el)}")
            if not named(k, "get_total_order", el):
                k2 = rewrite(k, lambda x: mk("param", "derivative") if x is el else x)
                return rep.bad("decreasing", inst, where, f"groups by {short(k)}, not by the total order") if understood(k2) else rep.unsure("decreasing", inst, where, f"groups by {short(k)}")
            return decreasing_keys(rep, inst, where, seq_, d.args[0].args[0], ix)
        if d.op == "sub" and d.args[0].op == "sub" and d.args[0].args[1].op == "slice" and d.args[0].args[0].op == "sub" and \
                group(d.args[0].args[0].args[0]) is not None:
            return rep.bad("decreasing", inst, where, f"only the derivatives {short(d.args[0].args[1])} of an order are replaced")
        if d.op == "sub" and d.args[0].op == "sub" and jx is d.args[1]:
            D = d.args[0].args[0]
            if D.op == "coll" and D.args[0] == "dict" and len(D.args[1]) == 1:
                (p, g2, ixs), = lparts(D.args[1])
                if p.op == "kv" and named(p.args[0], "get_total_order", strip(sub_(p.args[1], num(0)))) and len(ixs) == 1:
                    return rep.bad("decreasing", inst, where, f"only the last derivative of an order is kept: {short(p)}")
        # all the derivatives with order == key(i)
        if d.op == "sub" and d.args[1] is jx and derivatives(d.args[0]) is start and len(gs) == 1:
            e = two_sides(gs[0])
            if e is not None:
                for a, b in (e, e[::-1]):
                    if named(a, "get_total_order", d):
                        return decreasing_values(rep, inst, where, b, ix, start)
        return rep.unsure("decreasing", inst, where, f"replaces {short(d)} if {[short(g) for g in gs]}")
    r = replaced(inner, carry)
    if r is None:
        return rep.unsure("decreasing", inst, where, short(inner))
    d, by = r
    if not named(strip(by), FD, d) and not named(strip(by), "get_subs_derivative", d):
        return rep.bad("decreasing", inst, where, f"{short(d)} is replaced by {short(by)}") if wrong(by, d, FD) else \
            rep.unsure("decreasing", inst, where, f"{short(d)} is replaced by {short(by)}")
    if gs:
        return rep.bad("decreasing", inst, where, f"only the derivatives with {[short(g) for g in gs]}")
    if d.op == "sub" and d.args[1].op == "num" and d.args[0].op == "sub" and group(d.args[0].args[0]) is not None:
        return rep.bad("decreasing", inst, where, "only one derivative of each order is replaced")
    if d.op != "sub" or d.args[1] is not ix:
        return rep.unsure("decreasing", inst, where, f"replaces {short(d)}")
    S = d.args[0]
    if not every(rep, "decreasing", inst, where, ix, len_(S), S):
        return
    rev = False
    if S.op == "reversedT":
        rev, S = True, S.args[0]
    if S.op == "sortedT" and derivatives(S.args[0]) is start:
        key, desc = S.args[1], S.args[2] is TRUE
        sg = key_sign(key)
        if sg is None:
            return rep.check("decreasing", inst, where, False if other_key(key) else None, f"sorted by {short(key)}, not by the total order")
        if (sg < 0) ^ desc ^ rev:
            rep.ok("decreasing", inst, where, "all the derivatives, by decreasing total order")
        else:
            rep.bad("decreasing", inst, where, "the derivatives are replaced by increasing order: a low order one is replaced inside the "
                                               "higher ones")
        return
    if derivatives(S) is start:
        return rep.bad("decreasing", inst, where, "the derivatives are replaced in an arbitrary order: a low order one may be replaced "
                                                  "inside the higher ones")
    rep.unsure("decreasing", inst, where, f"sequence {short(S)}")


def key_sign(key):
    """+1 / -1 when the sort key is (minus) the total order"""
    t = short(key, 4000)
    if key is NONE:
        return None
    body = key
    if key.op == "lam":
        body = key.args[-1]
    if body.op == "coll" and body.args[0] in ("tuple", "list") and body.args[1]:
        body = body.args[1][0]         # the next ones separate the derivatives of a same order
    p = TT.to_poly(body)
    if len(p) == 1:
        (mono, c), = p.items()
        if len(mono[0]) == 1 and not mono[1] and mono[0][0][1] == 1:
            b = mono[0][0][0]
            if b.op == "call" and str(b.args[0].args[-1]).split(".")[-1] == "get_total_order" or \
                    b.op in ("global", "func") and str(b.args[0]).split(".")[-1] == "get_total_order" or \
                    b.op == "attr" and b.args[1] == "derivative_count" or \
                    b.op == "len" and b.args[0].op == "attr" and b.args[0].args[1] == "variables":
                return 1 if c > 0 else -1
    return None


def other_key(key):
    """a sort key which does not tell the orders of the derivatives of a function apart"""
    b = key.args[-1] if key.op == "lam" else key
    if b.op == "coll" and b.args[0] in ("tuple", "list") and b.args[1]:
        b = b.args[1][0]
    p = TT.to_poly(b)
    if len(p) == 1 and len(next(iter(p))[0]) == 1:
        b = next(iter(p))[0][0][0]
    return b.op == "len" and b.args[0].op == "attr" and b.args[0].args[1] in ("args", "variable_count", "free_symbols") or \
        b.op == "tostr" or b.op in ("global", "builtin") and str(b.args[0]).split(".")[-1] in ("default_sort_key", "str", "repr", "len")


def decreasing_keys(rep, inst, where, seq_, D, ix):
    """seq_ = sorted(keys of D, reverse=True)[ix]"""
    turned = seq_.op == "sub" and seq_.args[1] is add(add(len_(seq_.args[0]), num(-1)), neg(ix))
    if turned and ix.args[0] is len_(seq_.args[0]):
        seq_ = mk("sub", seq_.args[0], ix)
    if not any(x.op == "sortedT" for x in TT.walk(seq_)) and seq_.op == "sub" and has_term(seq_.args[1], ix) and understood(seq_.args[1], (
            "atoms", "doit", "get_total_order")):
        return rep.bad("decreasing", inst, where, "the derivatives are replaced in an arbitrary order: a low order one may be replaced "
                                                  "inside the higher ones")
    if seq_.op != "sub" or seq_.args[1] is not ix:
        return rep.unsure("decreasing", inst, where, f"orders {short(seq_)}")
    S, rev = seq_.args[0], turned
    if S.op == "reversedT":
        rev, S = not rev, S.args[0]
    if S.op == "sub" and S.args[1].op == "slice" and numval(S.args[1].args[2]) == -1:
        rev, S = not rev, S.args[0]
    if S.op == "coll" and len(S.args[1]) == 1 and S.args[1][0].op == "splat":
        S = S.args[1][0].args[0]
    K = mk("keysof", D)
    if not every(rep, "decreasing", inst, where, ix, len_(seq_.args[0]), seq_.args[0]):
        return
    if S.op == "sortedT" and S.args[1] is not NONE and S.args[1].op == "lam":
        b = S.args[1].args[-1]
        if b.op == "tostr":
            return rep.bad("decreasing", inst, where, "the orders are sorted as texts: 10 before 2")
        q = TT.to_poly(b)
        if len(q) == 1 and len(list(q)[0][0]) == 1 and list(q)[0][0][0][0] is mk("param", "%key") and list(q)[0][0][0][1] == 1:
            S = mk("sortedT", S.args[0], NONE, S.args[2])
            if list(q.values())[0] < 0:
                rev = not rev
    if S.op == "sortedT" and (S.args[0] in (D, K, coll("list", mk("splat", K))) or its_keys(S.args[0], D)) and S.args[1] is NONE:
        if (S.args[2] is TRUE) ^ rev:
            return rep.ok("decreasing", inst, where, "all the derivatives, by decreasing total order")
        return rep.bad("decreasing", inst, where, "the derivatives are replaced by increasing order: a low order one is replaced inside "
                                                  "the higher ones")
    if S in (D, K):
        return rep.bad("decreasing", inst, where, "the derivatives are replaced in an arbitrary order: a low order one may be replaced "
                                                  "inside the higher ones")
    rep.unsure("decreasing", inst, where, f"orders {short(seq_)}")


def its_keys(S, D):
    """the collection of the keys of {k(i): v(i) for i}"""
    if S.op == "coll" and S.args[0] in ("list", "set", "tuple") and D.op == "coll" and D.args[0] == "dict":
        a, b = lparts(S.args[1]), lparts(D.args[1])
        return len(a) == len(b) == 1 and b[0][0].op == "kv" and not a[0][1] and not b[0][1] and a[0][2] == b[0][2] and a[0][0] is b[0][0].args[0]
    return False


def decreasing_values(rep, inst, where, val, ix, start):
    """val(ix) decreasing from the maximum order of the derivatives to one"""
    a, b = TT.to_poly(rewrite(val, unarange)), ix
    slope = sum(c for (mono, c) in a.items() if [x for x, e in mono[0]] == [ix])
    rest = [x for (mono, c) in a.items() for x, e in mono[0] if x is not ix]
    if slope == -1 and len(rest) == 1 and rest[0] is ix.args[0]:
        return rep.ok("decreasing", inst, where, "orders from the highest to one")
    if slope == 1:
        return rep.bad("decreasing", inst, where, "the derivatives are replaced by increasing order: a low order one is replaced inside "
                                                  "the higher ones")
    rep.unsure("decreasing", inst, where, f"orders {short(val)}")


def summands(t):
    """[(element, guards, loops)] of a sum"""
    if t.op == "sumover":
        return [(t.args[1], [], [t.args[0]])]
    if t.op == "sumof":
        c = t.args[0]
        if c.op == "coll":
            return lparts(c.args[1])
        ix = mk("ix", len_(c), 0)
        return [(sub_(c, ix), [], [ix])]
    if t.op == "sub" or t.op == "call":
        return None
    return None


def wrong(by, d, FD):
    """certainly not the finite difference of d"""
    return any(named(x, n, y) for x in (strip(by), strip(d)) for n in (FD, "get_subs_derivative", "_sympy_finite_difference")
               for y in (strip(d), strip(by))) or FD in short(by, 3000)


def total(ctx, rep):
    f = ctx.func("get_total_order")
    I, v, s = ctx.run(f, opaque={"get_derivative_partial_orders"})
    where = f.where
    par = mk("param", f.node.args.args[0].arg)
    v = N.specialise(I.fz(v, s), ())
    if v is mk("attr", par, "derivative_count"):
        return rep.ok("order", "total order", where, short(v))
    while is_ext(v, "int", "Integer") and len(v.args[1]) == 1:
        v = v.args[1][0]
    if v.op in ("maxof", "lenof", "len", "minof", "prodof", "prodover"):
        return rep.bad("order", "total order", where, f"the total order is {short(v)}, not the sum of the partial orders")
    ps = summands(v)
    if not ps:
        # 0 + sum, sum + constant
        p = [(k, c) for k, c in TT.to_poly(v).items()]
        su = [k for k, c in p if len(k[0]) == 1 and k[0][0][0].op in ("sumover", "sumof", "len", "maxof")]
        if len(su) == 1 and (len(p) > 1 or v is not su[0][0][0][0]):
            return rep.bad("order", "total order", where, f"the total order is {short(v)}, not the sum of the partial orders")
        return rep.unsure("order", "total order", where, short(v))
    if len(ps) != 1 or len(ps[0][2]) != 1:
        return rep.unsure("order", "total order", where, short(v))
    p, gs, (ix,) = ps[0]
    while p.op == "phi" and (p.args[2] is num(0) or p.args[1] is num(0)):
        gs = list(gs) + [p.args[0] if p.args[2] is num(0) else not_(p.args[0])]
        p = p.args[1] if p.args[2] is num(0) else p.args[2]
    c = [x for x in TT.walk(p) if named(x, "get_derivative_partial_orders", par)]
    vc = mk("attr", par, "variable_count")
    if c:
        c = c[0]
        k = sub_(c, ix)
        K = sub_(mk("keysof", c), ix)
        it = sub_(mk("itemsof", c), ix)
        good = (sub_(c, k), sub_(c, K), sub_(mk("valuesof", c), ix), sub_(it, num(1)), sub_(c, sub_(it, num(0))))
    elif has_term(p, vc):
        good = (sub_(sub_(vc, ix), num(1)),)
    else:
        return rep.bad("order", "total order", where, f"sum of {short(p)}: not the partial orders") if p.op == "num" else \
            rep.unsure("order", "total order", where, short(v))
    if p not in good:
        return rep.bad("order", "total order", where, f"sum of {short(p)}, not of the partial orders") \
            if understood(p, ("get_derivative_partial_orders",)) else rep.unsure("order", "total order", where, short(v))
    if gs:
        return rep.bad("order", "total order", where, f"only the partial orders with {[short(g) for g in gs]}")
    rep.ok("order", "total order", where, "sum of the partial orders")


def partial(ctx, rep):
    f = ctx.func("get_derivative_partial_orders")
    I, v, s = ctx.run(f)
    where = f.where
    par = mk("param", f.node.args.args[0].arg)
    v = N.specialise(I.fz(v, s), ())
    A = mk("attr", par, "args")
    from .repres import dict_parts
    kvs, others = dict_parts(v)
    if not kvs and v.op == "coll" and v.args[1] == (mk("splat", mk("attr", par, "variable_count")),) or \
            is_ext(v, "dict") and v.args[1] == (mk("attr", par, "variable_count"),):
        return rep.ok("order", "partial orders", where, "every coordinate of the derivative with its own order")
    if others or not kvs:
        return rep.unsure("order", "partial orders", where, short(v))
    for k, val, gs, ixs in kvs:
        if not ixs:
            if k is sub_(A, num(1)) and val is sub_(A, num(2)):
                continue
            return rep.bad("order", "partial orders", where, f"{short(k)}: {short(val)}") if understood(k) and understood(val) else \
                rep.unsure("order", "partial orders", where, f"{short(k)}: {short(val)}")
        e = k.args[0] if k.op == "sub" and numval(k.args[1]) == 0 else None
        if e is None and k.op == "sub" and numval(k.args[1]) == 1:
            return rep.bad("order", "partial orders", where, f"{short(k)}: {short(val)}: coordinate and order exchanged")
        if e is None or e.op != "sub" or len(ixs) != 1:
            return rep.unsure("order", "partial orders", where, f"{short(k)}: {short(val)}")
        if val is not sub_(e, num(1)):
            return rep.bad("order", "partial orders", where, f"{short(k)}: {short(val)}: not the order of this coordinate") if understood(val) \
                else rep.unsure("order", "partial orders", where, f"{short(k)}: {short(val)}")
        if e.args[0] is A:
            pos, n = e.args[1], add(len_(A), num(-1))
            if pos is not add(num(1), ixs[0]) or ixs[0].args[0] is not n:
                return rep.bad("order", "partial orders", where, f"coordinates at {short(pos)} for {short(ixs[0].args[0])} values: not all the "
                                                                 f"coordinates of the derivative")
        elif e.args[0] is mk("attr", par, "variable_count"):
            if e.args[1] is not ixs[0]:
                return rep.unsure("order", "partial orders", where, f"{short(k)}")
        else:
            return rep.unsure("order", "partial orders", where, f"{short(k)}: {short(val)}")
        odd = [g for g in gs if not all(x.op in ("isinstance", "not", "is", "and", "or") or True for x in [g])
               or has_term(g, e)]
        if odd:
            return rep.bad("order", "partial orders", where, f"only the coordinates with {[short(g) for g in odd]}")
    rep.ok("order", "partial orders", where, "every coordinate of the derivative with its own order")


def systems(ctx, rep):
    f = ctx.func("finite_difference_system")
    opaque = {"sympkf.symbolic.finite_difference." + n for n in ("finite_difference", "_sympy_finite_difference")}
    I, v, s = ctx.run(f, opaque=opaque)
    system_of(rep, "all equations", f.where, I, v, s, mk("param", f.node.args.args[0].arg))
    g = ctx.method("PDESystem", "finite_difference")
    if g is not None:
        I, v, s = ctx.run_method("PDESystem", "finite_difference", opaque=opaque)
        system_of(rep, "all equations of a system", g.where, I, v, s, mk("attr", mk("self", ctx.cls("PDESystem").qual), "equations"))


def system_of(rep, inst, where, I, v, s, par):
    v = N.specialise(I.fz(v, s), ())
    ps = lparts(v.args[1]) if v.op == "coll" else None
    if not ps or len(ps) != 1:
        return rep.unsure("system", inst, where, short(v))
    p, gs, ixs = ps[0]
    if p.op == "phi" and len(ixs) == 1:
        e = sub_(par, ixs[0])
        for q, g in phi_leaves(p):
            q = strip(q)
            if gcall(q, "Eq", "Equation") and len(q.args[1]) == 2 and q.args[1][1] in (sub_(mk("attr", e, "args"), num(1)), mk("attr", e, "rhs")) and \
                    not any(y.op in ("global", "attr") and str(y.args[-1]).split(".")[-1] in ("Derivative", "has", "atoms") for c in g for y in TT.walk(c)):
                return rep.bad("system", inst, where, f"the right hand side is not replaced by its finite difference when {[short(c) for c in g]}")
    p = strip(p)
    if not gcall(p, "Eq", "Equation") or len(p.args[1]) != 2 or len(ixs) != 1:
        return rep.unsure("system", inst, where, short(p))
    L, R = p.args[1]
    e = sub_(par, ixs[0])
    lhs = (sub_(mk("attr", e, "args"), num(0)), mk("attr", e, "lhs"))
    rhs = (sub_(mk("attr", e, "args"), num(1)), mk("attr", e, "rhs"))
    if gs:
        return rep.bad("system", inst, where, f"only the equations with {[short(g) for g in gs]}")
    if any(named(strip(R), "finite_difference", x) for x in rhs):
        if L in lhs:
            return rep.ok("system", inst, where, "right hand sides of all the equations; the trends are kept")
        if any(named(strip(L), "finite_difference", x) for x in lhs):
            return rep.bad("system", inst, where, "the trend itself is replaced by a finite difference")
    elif any(named(strip(R), "_sympy_finite_difference", x) for x in rhs):
        return rep.bad("system", inst, where, "the raw sympy finite difference, whose points are not on the grid")
    elif R in rhs:
        return rep.bad("system", inst, where, "the right hand side is not replaced by its finite difference")
    if understood(p, ("finite_difference",)):
        return rep.bad("system", inst, where, f"{short(L)} = {short(R)}")
    rep.unsure("system", inst, where, short(p))


def run(ctx, rep, tier):
    rep.rule("stencil", "points of the stencil of a derivative of order n: on the grid, distinct, symmetric, consistent at order two "
                        "(exact weights); the derivatives in the other coordinates apply to the result", 20)
    rep.rule("replaced", "derivatives are replaced by their own finite difference until none is left", 1)
    rep.rule("decreasing", "all the derivatives of an expression are replaced, by decreasing total order", 1)
    rep.rule("order", "the total order is the sum of the orders in all the coordinates", 2)
    rep.rule("system", "right hand sides of all the equations", 2)
    stencil(ctx, rep, tier)
    single(ctx, rep)
    whole(ctx, rep)
    total(ctx, rep)
    partial(ctx, rep)
    systems(ctx, rep)
