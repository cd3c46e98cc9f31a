"""C19: shifted terms are read at the right array index, grid steps are those of the right axis."""
import ast
import itertools
import re
from fractions import Fraction
from .base import *
from . import genmodel as G
from engine.shape import Shape, Sym, Text, Unknown, Raised, Arr, text, frozen
from engine.norm import lt_, in_

COORD, DISP, CLEAN = "get_function_coordinates", "get_displacement", "clean_latex_name"


def outcome(I, v, s, S, env):
    """value or ('raises', what) of an analysed function for a shape"""
    for e in I.effects:
        if e.kind == "raise" and raises(I, s, e, S, env):
            return "raises", short(e.target, 80)
    return "value", S.val(v, env)


def raises(I, s, e, S, env):
    def go(k, en):
        if k == len(e.loops):
            try:
                return all(S.truth(S.val(I.fz(c, s), en)) for c in e.pc)
            except Raised:
                return False
        ix = e.loops[k]
        return any(go(k + 1, {**en, ix: i}) for i in range(S.count(ix, en)))
    return go(0, dict(env))


# ------------------------------------------------------------------ coordinates and displacements of a function
def coordinates_rule(ctx, rep, name=COORD):
    f = ctx.func(name)
    I, v, s = ctx.run(f)
    v = I.fz(v, s)
    par = mk("param", f.node.args.args[0].arg)
    A = mk("attr", par, "args")
    cases = [[("x", "dx")], [("d", "dd")], [("dx", "ddx")], [("theta", "dtheta")], [("dd", "ddd")],
             [("t", "dt"), ("x", "dx"), ("y", "dy")], [("t", "dt"), ("d", "dd"), ("dx", "ddx")]]
    for case in cases:
        for pat in itertools.product((0, 1, 2), repeat=len(case)):
            atoms = [[x, d] if p == 0 else [d, x] if p == 1 else [x] for (x, d), p in zip(case, pat)]

            def hook(t, env, S):
                if t is A:
                    return [Sym("arg", k) for k in range(len(case))]
                if t.op == "isinstance" and t.args[0] is par:
                    return True
                if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("atoms", "free_symbols"):
                    o = S.val(t.args[0].args[0], env)
                    if isinstance(o, Sym) and o.kind == "arg":
                        return [Sym("sym", n) for n in atoms[o.data[0]]]
                if t.op == "attr" and t.args[1] == "free_symbols":
                    o = S.val(t.args[0], env)
                    if isinstance(o, Sym) and o.kind == "arg":
                        return [Sym("sym", n) for n in atoms[o.data[0]]]
                if t.op == "attr" and t.args[1] == "name" or t.op == "tostr":
                    o = S.val(t.args[0], env)
                    if isinstance(o, Sym) and o.kind == "sym":
                        return Text(o.data[0])
                if gcall(t, "symbols", "Symbol"):
                    return Sym("sym", repr(text(S.val(t.args[1][0], env))))
                if t.op == "popped":
                    o = S.val(t.args[0], env)
                    k = S.val(t.args[1], env) if len(t.args) > 1 else -1
                    return S.index(o, k)
                return NotImplemented
            inst = ("" if name == COORD else name + ": ") + ", ".join("/".join(a) for a in atoms)
            S = Shape(hook, I.nexts)
            try:
                kind, r = outcome(I, v, s, S, {})
            except Unknown as e:
                rep.unsure("coordinates", inst, f.where, e)
                continue
            except Raised as e:
                kind, r = "raises", e
            want = [[Sym("sym", x) for x, d in case], [Sym("sym", d) for x, d in case]]
            if kind == "value" and frozen(r) == frozen(want):
                rep.ok("coordinates", inst, f.where)
            else:
                rep.bad("coordinates", inst, f.where, f"the symbols {inst} of the arguments are read as {r} in place of {want}")


def displacement_rule(ctx, rep):
    f = ctx.func(DISP)
    I, v, s = ctx.run(f, opaque={COORD})
    v = I.fz(v, s)
    ps = [mk("param", a.arg) for a in f.node.args.args]
    for n in (1, 2, 3):
        for given in (False, True):
            def hook(t, env, S):
                if t is mk("attr", ps[0], "args"):
                    return [Sym("arg", k) for k in range(n)]
                if t is ps[1]:
                    return [Sym("given d", k) for k in range(n)] if given else None
                if gcall(t, COORD):
                    return [[Sym("x", k) for k in range(n)], [Sym("d", k) for k in range(n)]]
                if t.op == "tostr" or t.op == "attr" and t.args[1] == "name":
                    o = S.val(t.args[0], env)
                    if isinstance(o, Sym) and o.kind in ("x", "d", "given d"):
                        return Text(("d" if o.kind != "x" else "") + "tzxy"[o.data[0]])
                if mcall(t, "expand", "doit", "simplify") and not t.args[1]:
                    return S.val(t.args[0].args[0], env)
                if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("coeff", "diff") and (len(t.args[1]) == 1 or len(t.args[1]) == 2 and numval(t.args[1][1]) == 1):
                    return Sym("coeff", S.val(t.args[0].args[0], env), S.val(t.args[1][0], env))
                if t.op in ("sub", "dictget") and mcall(t.args[0], "as_coefficients_dict") and not t.args[0].args[1]:
                    return Sym("coeff", S.val(t.args[0].args[0].args[0], env), S.val(t.args[1], env))
                return NotImplemented
            inst = f"{n} axes, {'base given' if given else 'base of the function'}"
            try:
                kind, r = outcome(I, v, s, Shape(hook, I.nexts), {})
            except Unknown as e:
                rep.unsure("displacement", inst, f.where, e)
                continue
            except Raised as e:
                kind, r = "raises", e
            want = [Sym("coeff", Sym("arg", k), Sym("given d" if given else "d", k)) for k in range(n)]
            if kind == "value" and frozen(r) == frozen(want):
                rep.ok("displacement", inst, f.where)
            else:
                rep.bad("displacement", inst, f.where, f"displacement {r} in place of {want}")


# ------------------------------------------------------------------ code of a shifted function
def parse_code(v, naming):
    """syntax tree of a text with tokens; naming: token -> identifier"""
    src = "".join(p if isinstance(p, str) else naming(p) for p in v.parts)
    try:
        return src, ast.parse(src, mode="eval").body
    except SyntaxError:
        return src, None


def function_codes(ctx, rep, tier):
    ents = [("code_regular_function", None)]
    for c in ctx.classes():
        if "_render_function" in c.methods:
            ents.append(("_render_function", c))
    for name, cls in ents:
        opq = {COORD, DISP, CLEAN, "slice_coding_rule"}
        if cls is None:
            f = ctx.func(name)
            I, v, s = ctx.run(f, opaque=opq)
            par, rule = (mk("param", a.arg) for a in f.node.args.args[:2])
        else:
            f = cls.methods[name]
            I, v, s = ctx.run_cls(cls, name, opaque=opq)
            par, rule = mk("param", f.node.args.args[1].arg), None
        v = I.fz(v, s)
        label = name if cls is None else f"{cls.qual.split('.')[-1]}.{name}"
        naxes = 3 if tier == "quick" else 4
        vals = (0, 1, -2) if tier == "thorough" else (0, 2, -1)
        for n in range(0, naxes + 1):
            for time in (None, 0, 1, -2, "half"):
                if n == 0 and time is None:
                    continue
                pats = itertools.product(vals, repeat=n) if n < 3 or tier == "thorough" else \
                    [p for p in itertools.product(vals, repeat=n) if sum(1 for q in p if q) != 2]
                pats = list(pats)
                if n and time in (None, 0):
                    pats += [tuple("half" if k == j else 0 for k in range(n)) for j in range(n)]
                if time == "half":
                    pats = [tuple(0 for k in range(n))]
                for pat in pats:
                    one_code(ctx, rep, f, I, v, s, label, par, rule, n, time, pat)


def one_code(ctx, rep, f, I, v, s, label, par, rule, n, time, pat):
    steps = ([] if time is None else [time]) + list(pat)
    coords = ([] if time is None else [Sym("time")]) + [Sym("x", k) for k in range(n)]
    regular = "half" not in steps
    shifts = [Fraction(1, 2) if q == "half" else q for q in steps]

    def hook(t, env, S):
        if gcall(t, COORD):
            return [list(coords), [Sym("d", k) for k in range(len(coords))]]
        if gcall(t, DISP):
            return list(shifts)
        if t is mk("attr", par, "func") or t is mk("attr", mk("attr", par, "func"), "__name__") or t is mk("attr", par, "name"):
            return Sym("func")
        if gcall(t, CLEAN):
            o = S.val(t.args[1][0], env)
            if isinstance(o, Text) and len(o.parts) == 1 and isinstance(o.parts[0], Sym):
                o = o.parts[0]
            return Text(Sym("clean", o))
        if t.op == "tostr":
            o = S.val(t.args[0], env)
            if o is Sym("time"):
                return Text("t")
            if isinstance(o, Sym):
                return Text(o)
        if t.op == "attr" and t.args[1] == "name":
            o = S.val(t.args[0], env)
            return Text("t") if o is Sym("time") else Text(o)
        if t.op == "attr" and t.args[1] == "is_integer" or t.op == "isinstance":
            o = S.val(t.args[0], env)
            if isinstance(o, (int, Fraction)) and (t.op == "attr" or str(t.args[1]).split(".")[-1].strip("'") in ("Integer", "int")):
                return o == int(o)
        if t.op == "call" and (t.args[0] is rule or gcall(t, "slice_coding_rule") or mcall(t, "slice_coding_rule")):
            xs = [S.val(a, env) for a in t.args[1]]
            xs += [S.val(b, env) for k, b in t.args[2]]
            return Text(Sym("slice", *xs))
        return NotImplemented

    def compare(a, b):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Text) and len(p.parts) == 1 and isinstance(p.parts[0], Sym) and p.parts[0].kind == "x" \
                    and isinstance(q, Text) and q.literal:
                return False                          # a spatial coordinate is not named as the time
            if isinstance(p, Sym) and p.kind == "x" and isinstance(q, Sym) and q.kind == "time":
                return False
        return None
    inst = f"{label} {'t' + (f'{time:+}' if isinstance(time, int) else '+1/2') + ' ' if time is not None else ''}" \
           f"({' '.join(f'{q:+}' if q != 'half' else '+1/2' for q in pat)})"
    try:
        kind, r = outcome(I, v, s, Shape(hook, I.nexts, compare), {})
    except Unknown as e:
        return rep.unsure("shifted function", inst, f.where, e)
    except Raised as e:
        kind, r = "raises", e
    if not regular:
        return rep.check("shifted function", inst, f.where, kind == "raises",
                         "" if kind == "raises" else f"a displacement out of the grid is coded as {r}")
    if kind == "raises":
        return rep.bad("shifted function", inst, f.where, f"a function on the grid is refused: {r}")
    if not isinstance(r, Text):
        return rep.unsure("shifted function", inst, f.where, f"value {r!r}")
    table = {}

    def naming(p):
        table[f"TOKEN{len(table)}_"] = p
        return f"TOKEN{len(table) - 1}_"
    src, tree = parse_code(r, naming)
    tag = "" if not isinstance(time, int) or time == 0 else f"m{-time}" if time < 0 else f"p{time}"
    want = [("name", Sym("clean", Sym("func")), tag)]
    moved = any(pat)

    def name_of(e):
        if isinstance(e, ast.Name):
            m = re.match(r"(TOKEN\d+_)(.*)$", e.id)
            if m:
                return table[m.group(1)], m.group(2)
        return None
    got = show_text(r)
    base, idx = tree, None
    if isinstance(tree, ast.Subscript):
        base, idx = tree.value, tree.slice
    if tree is None or name_of(base) != (want[0][1], tag):
        return rep.bad("shifted function", inst, f.where, f"coded as {got}: not an expression of the array `name{tag}`")
    if idx is None:
        return rep.check("shifted function", inst, f.where, not moved,
                         f"coded as {got}: the shifts {pat} are lost" if moved else "")
    if not (isinstance(idx, ast.Call) and ast.unparse(idx.func) in ("np.ix_", "numpy.ix_") and not idx.keywords):
        return rep.bad("shifted function", inst, f.where, f"coded as {got}: not an open index of the axes (np.ix_)")
    seen = [name_of(a) for a in idx.args]
    exp = [Sym("slice", Text("'", Sym("clean", Sym("x", k)), "'"), q) for k, q in enumerate(pat)]
    exp2 = [Sym("slice", Text('"', Sym("clean", Sym("x", k)), '"'), q) for k, q in enumerate(pat)]

    def plain(q):
        return isinstance(q, Sym) and len(q.data) == 2
    ok = len(seen) == len(exp) and all(a is not None and a[1] == "" and (a[0] in (b, c)) for a, b, c in zip(seen, exp, exp2))
    rep.check("shifted function", inst, f.where, ok, "" if ok else f"coded as {got}: the axes must be read at the offsets {pat} in this order")


def show_text(r):
    return "".join(p if isinstance(p, str) else f"{p}" for p in r.parts)


# ------------------------------------------------------------------ replacement in the text of an expression
def replacement(ctx, rep):
    f = ctx.func("code_finite_difference")
    I, v, s = ctx.run(f, opaque={COORD, DISP, CLEAN, "code_regular_function"})
    v = I.fz(v, s)
    ps = [mk("param", a.arg) for a in f.node.args.args]
    fin, rule, dxr = ps[:3]
    lens = {}
    n = 0
    shapes = [([], "no function"), ([("U", 6, [0, 1])], "one function"), ([("U", 9, [0, 1]), ("V", 6, [0, 1]), ("W", 12, [1, 2])], "three functions"),
              ([("U", 5, [0]), ("V", 7, [0])], "two functions of one coordinate")]
    todo = [(a, b, None) for a, b in shapes]
    for funcs, label, tie in todo:
        def hook(t, env, S, funcs=funcs):
            if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[0] is fin and t.args[0].args[1] == "atoms":
                names = [str(a.args[0]).split(".")[-1] if a.op == "global" else None for a in t.args[1]]
                if names == ["AppliedUndef"]:
                    return [Sym("fun", k) for k in range(len(funcs))]
                raise Unknown(f"atoms({names})")
            if gcall(t, COORD):
                o = S.val(t.args[1][0], env)
                cs = funcs[o.data[0]][2]
                return [[Sym("x", c) for c in cs], [Sym("d", c) for c in cs]]
            if gcall(t, "code_regular_function"):
                if len(t.args[1]) == 2 and t.args[1][1] is rule:
                    return Text(Sym("code", S.val(t.args[1][0], env)))
                raise Unknown(short(t))
            if gcall(t, CLEAN):
                return Text(Sym("clean", S.val(t.args[1][0], env)))
            if t.op == "call" and t.args[0] is dxr:
                return Text(Sym("dx", S.val(t.args[1][0], env)))
            if t is fin:
                return Sym("expr")
            if t.op == "attr" and t.args[1] in ("args", "func") or gcall(t, DISP):
                o = S.val(t.args[0] if t.op == "attr" else t.args[1][0], env)
                if isinstance(o, Sym) and o.kind == "fun":
                    if gcall(t, DISP):
                        return [0 if o.data[0] % 2 else 1 for c in funcs[o.data[0]][2]]
                    return [Sym("arg", o.data[0], c) for c in funcs[o.data[0]][2]] if t.args[1] == "args" else Sym("funcof", o)
            if t.op == "len":
                o = S.val(t.args[0], env)
                if isinstance(o, Text) and len(o.parts) == 1 and isinstance(o.parts[0], Sym):
                    return tlen(o.parts[0])
                return NotImplemented
            if gcall(t, "re.escape", "escape"):
                o = text(S.val(t.args[1][0], env))
                return Text(*[Sym("escaped", p) if isinstance(p, Sym) else re.escape(p) for p in o.parts])
            if gcall(t, "re.sub", "sub"):
                pat, rep_, txt = (t.args[1][k] for k in range(3))
                return ("SUB", text(S.val(pat, env)), rep_, S.val(txt, env), t, env)
            if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "sub" and gcall(t.args[0].args[0], "compile") \
                    and len(t.args[1]) == 2:
                return ("SUB", text(S.val(t.args[0].args[0].args[1][0], env)), t.args[1][0], S.val(t.args[1][1], env), t, env)
            return NotImplemented

        def tlen(p):
            if p.kind == "escaped":
                p = p.data[0]
            return funcs[p.data[0]][1] if p.kind == "fun" else {"d": 2, "x": 1}.get(p.kind, 3)

        try:
            S = Shape(hook, I.nexts)
            if tie:
                S.tie = tie
            kind, r = outcome(I, v, s, S, {})
        except Unknown as e:
            if not tie and "order of" in str(e):
                # names sorted: any order of theirs
                todo += [(funcs, label, 1), (funcs, label + ", other order of the names", -1)]
                continue
            chained = [x for x in TT.walk(v) if mcall(x, "replace")]
            if chained:
                rep.bad("replacement", label, f.where, "the names are replaced one after the other in the text: a part of another name, "
                        f"or the code of an earlier name, is replaced too: {short(chained[0])}")
            else:
                rep.unsure("replacement", label, f.where, e)
            continue
        except Raised as e:
            kind, r = "raises", e
        if not funcs:
            ok = kind == "value" and (r == Text(Sym("expr")) or isinstance(r, tuple) and r[0] == "SUB")
            if kind == "value" and isinstance(r, tuple) and r[0] == "SUB":
                ok = False                            # an empty alternative matches everywhere
                r = "a pattern without names"
            rep.check("replacement", label, f.where, ok, "" if ok else f"an expression without functions becomes {r}")
            continue
        if kind != "value" or not (isinstance(r, tuple) and r[0] == "SUB"):
            chained = [x for x in TT.walk(v) if mcall(x, "replace")]
            if kind == "raises" or chained or isinstance(r, Text):
                rep.bad("replacement", label, f.where, f"{kind} {r}: the functions and the grid steps of the text are not replaced in a single pass")
            else:
                rep.unsure("replacement", label, f.where, f"{kind} {r}")
            continue
        pat, how, txt, call, env = r[1:]
        keys = [Sym("fun", k) for k in range(len(funcs))] + [Sym("d", c) for c in sorted({c for _, _, cs in funcs for c in cs})]
        why = pattern_problem(pat, keys, tlen)
        if why is None:
            rep.unsure("replacement", label + ": pattern", f.where, f"{pat}")
        else:
            rep.check("replacement", label + ": pattern", f.where, why == "", why)
        rep.check("replacement", label + ": text", f.where, txt == Text(Sym("expr")) or txt is Sym("expr"), f"text {txt}")
        table_rule(ctx, rep, I, s, S, f, label, how, keys, funcs, env)


MARK = 0xE000


def pattern_problem(pat, keys, tlen):
    """'' when the pattern matches exactly the whole keys, the longest first; None: not decided"""
    import re._parser as P
    chars, src = {}, ""
    for p in pat.parts:
        if isinstance(p, str):
            src += p
        else:
            c = chr(MARK + len(chars))
            chars[ord(c)] = p
            src += c
    try:
        tree = P.parse(src)
    except re.error as e:
        return f"the pattern is not valid: {e}"

    def flat(t):
        for op, a in t:
            if str(op) == "SUBPATTERN":
                yield from flat(a[3])
            elif str(op) == "BRANCH":
                yield "branch", [list(flat(b)) for b in a[1]]
            elif str(op) == "LITERAL":
                yield "lit", a
            elif str(op) in ("ASSERT_NOT", "ASSERT"):
                inner = [(str(o), [(str(k), str(q)) for k, q in b] if isinstance(b, list) else str(b)) for o, b in a[1]]
                word = inner == [("IN", [("CATEGORY", "CATEGORY_WORD")])]
                yield "not" if str(op) == "ASSERT_NOT" else "is", a[0], word
            elif str(op) == "IN":
                # a set of characters: alternatives of one character
                if all(str(k) == "LITERAL" for k, q in a):
                    yield "branch", [[("lit", q)] for k, q in a]
                else:
                    yield "other", str(a)
            elif str(op) == "AT":
                yield "at", str(a)
            else:
                yield "other", str(op)
    seq = list(flat(tree))

    def lits(b):
        return [chars.get(x[1]) for x in b] if all(x[0] == "lit" for x in b) else None
    if any(x[0] == "other" for x in seq):
        return None
    body = [x for x in seq if x[0] in ("branch", "lit")]
    if len(body) != 1:
        return None
    alts = [lits(b) for b in body[0][1]] if body[0][0] == "branch" else [lits(body)]
    if any(a is None or len(a) != 1 or a[0] is None for a in alts):
        return None
    alts = [a[0] for a in alts]
    plain = [a for a in alts if a.kind != "escaped"]
    if plain:
        return f"{plain[0]} is read as a regular expression: its special characters are not escaped"
    alts = [a.data[0] for a in alts]
    if set(alts) != set(keys):
        return f"the names {sorted(map(str, set(keys) - set(alts)))} are not replaced" if set(keys) - set(alts) else \
            f"also replaced: {sorted(map(str, set(alts) - set(keys)))}"
    pos = seq.index(body[0])
    before = [x for x in seq[:pos] if x == ("not", -1, True) or x == ("at", "AT_BOUNDARY")]
    after = [x for x in seq[pos + 1:] if x == ("not", 1, True)]
    if len(seq) - 1 - len(before) - len(after) - len([x for x in seq[pos + 1:] if x[0] == "at"]) > 0:
        return None
    if not before:
        return "a name is replaced inside a longer name which ends with it (no boundary before the name)"
    if [x for x in seq[pos + 1:] if x[0] == "at"]:
        return "a boundary of word after the closing parenthesis of a function only matches when a word follows"
    if not after:
        return "a grid step is replaced inside a longer name which starts with it (no boundary after the name)"
    ls = [tlen(a) for a in alts]
    if ls != sorted(ls, reverse=True):
        return "a short name is tried before a longer one which starts with it"
    return ""


def table_rule(ctx, rep, I, s, S, f, label, how, keys, funcs, env):
    """the replacement of each name"""
    for k in keys:
        name = f"{label}: {k}"
        M = mk("param", "the_match")
        try:
            if how.op == "closure":
                from .schemes import Frame
                I.stack.append(Frame(None, f.qual, f.module, None))
                try:
                    t = I.fz(I.call(how, [M], {}, State({"__outer__": None}), None), s)
                finally:
                    I.stack.pop()
            else:
                t = mk("call", how, (M,), ())
            group = {mk("call", mk("attr", M, "group"), (), ()), mk("call", mk("attr", M, "group"), (num(0),), ()), sub_(M, num(0))}
            e2 = {**env, **{g: Text(k) for g in group}}
            h = S.hook

            def get(t, en, SS):
                if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "get" and len(t.args[1]) in (1, 2):
                    o = SS.val(t.args[0].args[0], en)
                    if isinstance(o, dict):
                        return SS.index(o, SS.val(t.args[1][0], en))
                return h(t, en, SS)
            S2 = Shape(get, I.nexts)
            S2.compare = lambda a, b: False if isinstance(a, Text) and isinstance(b, Text) and a != b and len(a.parts) == 1 == len(b.parts) else None
            r = text(S2.val(t, e2))
        except Unknown as e:
            rep.unsure("replacement", name, f.where, e)
            continue
        except Raised as e:
            rep.bad("replacement", name, f.where, f"no replacement: {e}")
            continue
        want = Text(Sym("code", k)) if k.kind == "fun" else None
        if want is not None:
            rep.check("replacement", name, f.where, r == want, f"the function is replaced by {r} in place of {want}")
        else:
            x = Sym("x", *k.data)
            wants = (Text(Sym("dx", Text(Sym("clean", x)))),)
            rep.check("replacement", name, f.where, r in wants, f"the grid step is replaced by {r} in place of {wants[0]}")


# ------------------------------------------------------------------ derivative of the finite difference builder
def derivative_code(ctx, rep):
    c = next((c for c in ctx.classes() if c.module.name.endswith("model_builder_FD") and c.name == "MetaDerivative"), None)
    if c is None:
        raise AnalysisBroken("MetaDerivative of the finite difference builder not found")
    f = ctx.pkg.find_method(c, "_set_as_code")
    I, v, s = ctx.run_cls(c, "_set_as_code", opaque={"finite_difference", "code_finite_difference"})
    v = I.fz(v, s)
    me = mk("self", c.qual)
    sym = mk("attr", me, "as_symbolic")
    calls_ = [x for x in TT.walk(v) if gcall(x, "code_finite_difference")]
    if not calls_ or v is not calls_[0]:
        if understood(v, ("finite_difference", "code_finite_difference")):
            return rep.bad("derivative code", "pipeline", f.where, f"the code of a derivative is {short(v)}")
        return rep.unsure("derivative code", "pipeline", f.where, short(v))
    a = list(v.args[1]) + [x for k, x in v.args[2] if k == "finite"]
    expr = a[0]
    ALG = ("simplify", "expand", "factor", "together", "cancel", "doit", "ratsimp")
    while True:
        if expr.op == "call" and expr.args[0].op == "attr" and expr.args[0].args[1] in ALG:
            expr = expr.args[0].args[0]
        elif gcall(expr, *ALG):
            expr = expr.args[1][0]
        else:
            break
    ok = gcall(expr, "finite_difference") and expr.args[1] == (sym,) and not expr.args[2]
    bad = gcall(expr, "finite_difference") or expr is sym
    rep.check("derivative code", "pipeline", f.where, True if ok else False if bad else None,
              "" if ok else f"coded expression {short(expr)} in place of finite_difference(derivative)")
    g = ctx.func("code_finite_difference")
    names = [x.arg for x in g.node.args.args]
    bound = dict(zip(names, v.args[1]))
    bound.update(dict(v.args[2]))
    for pos, name, args in ((1, "slice_coding_rule", (string("'co0'"), num(2))), (2, "dx_coding_rule", (string("co0"),))):
        h = bound.get(names[pos])
        if h is None:
            rep.bad("derivative code", name, f.where, "no coding rule is given")
            continue
        from .schemes import Frame
        if h.op == "attr" and h.args[0] in (mk("typeof", me), mk("attr", me, "__class__")) and ctx.pkg.find_method(c, h.args[1]) is not None:
            # the rule looked up in the class of the derivative
            t, want = (rule_text(ctx, c, n, *args) for n in (h.args[1], name))
            rep.check("derivative code", name, f.where, t == want, f"the rule {short(h)} gives {t} in place of {want}")
            continue
        I.stack.append(Frame(None, c.qual, c.module, c))
        try:
            t = I.fz(I.call(h, list(args), {}, State({}), None), s)
        finally:
            I.stack.pop()
        want = rule_text(ctx, c, name, *args)
        rep.check("derivative code", name, f.where, t.args[0] == want if t.op == "str" else None,
                  f"the rule {short(h)} gives {short(t)} in place of {want}")
    b = ctx.cls("FDModelBuilder")
    g = ctx.pkg.find_method(b, "_create_meta_derivative")
    # the builder creates derivatives of this kind
    I, v, s = ctx.run_cls(b, "_create_meta_derivative", opaque={"__init__"})
    v = I.fz(v, s)
    q = v.args[0] if v.op == "obj" else None
    txt = str(v)
    ok = c.qual in txt or c.module.name in txt
    rep.check("derivative code", "builder", g.where, True if ok else False if "MetaDerivative" in txt else None, f"the builder creates {short(v)}")
    return c


# ------------------------------------------------------------------ mesh of the generated model
def rule_text(ctx, c, name, *args):
    f = ctx.pkg.find_method(c, name)
    names = [a.arg for a in f.node.args.args][0 if f.is_static else 1:]
    I, v, s = ctx.run(f, args=dict(zip(names, args)), cls=None if f.is_static else c)
    if v.op != "str":
        raise AnalysisBroken(f"{name}: {short(v)} is not a text")
    return v.args[0]


def mesh(ctx, rep, c, tier):
    ncs = (1, 2, 3)
    for nc in ncs:
        steps = (1, 2, -1) if tier == "quick" else (1, 2, -1, -3, 7, 0)
        slices = {(k, q): rule_text(ctx, c, "slice_coding_rule", string(f"'co{k}'"), num(q)) for k in range(nc) for q in steps}
        dxs = [rule_text(ctx, c, "dx_coding_rule", string(f"co{k}")) for k in range(nc)]
        lines = ["", "    def probe_steps(self):", "        return (" + " ".join(d + "," for d in dxs) + ")", ""]
        for (k, q), tx in slices.items():
            lines += [f"    def probe_{k}_{q + 100}(self):", f"        return {tx}", ""]
        prog = ["def probe_all(shape, lengths):", "    m = GeneratedModel(shape=shape, lengths=lengths)"]
        out = ["m.shape", "m.lengths", "m.x", "m.X", "m.probe_steps()"]
        # all axes shifted by the same steps, then again in another order: the memory of the indices is shared by them
        order = [(k, q) for q in steps for k in range(nc)]
        order = order + order[::-1][:nc * 2]
        for j, (k, q) in enumerate(order):
            prog.append(f"    r{j} = m.probe_{k}_{q + 100}()")
            out.append(f"r{j}")
        prog.append("    return " + ", ".join(out))
        src_probe = "\n".join(lines) + "\n\n" + "\n".join(prog) + "\n"
        name, src, fill, err = G.skeleton(ctx, "fd", f"mesh{nc}", probes=src_probe, nc=nc, np_=1, nx=0, ncf=0, nk=0, nd=0, flags=(0, 0, 0))
        where = ctx.method("FDModelBuilder", "_create_meta_derivative").where.split(":")[0] + ": templates"
        if err is not None:
            rep.bad("mesh", f"{nc} coordinates", where, f"the generated source is not valid: {err}")
            continue
        f = ctx.pkg.modules[name].funcs["probe_all"]
        I, v, s = ctx.run(f)
        v = I.fz(v, s)
        if v.op != "coll":
            rep.bad("mesh", f"{nc} coordinates", where, f"the mesh cannot be built: {short(v)}") if v.op in ("bottom", "undefined") \
                else rep.unsure("mesh", f"{nc} coordinates", where, short(v))
            continue
        parts = [p for p, _, _ in parts_flat(v.args[1])]
        sp, lp = mk("param", "shape"), mk("param", "lengths")
        for n, L in (((3, 4, 5)[:nc], (7, 11, 13)[:nc]), ((5, 2, 1)[:nc], (Fraction(1, 2), 3, 5)[:nc]), (None, None)):
            env = {sp: None if n is None else list(n), lp: None if L is None else [Fraction(x) for x in L]}
            nn = n or (100,) * nc
            LL = L or (1,) * nc
            inst = f"{nc} coordinates, " + (f"shape {n}" if n else "default shape")
            S = Shape(mesh_hook, I.nexts)
            wants = [("shape", list(nn)), ("lengths", [Fraction(x) for x in LL]),
                     ("x", [Arr(Fraction(L_) * i / n_ for i in range(n_)) for L_, n_ in zip(LL, nn)]),
                     ("X", ("mesh", "ij") + tuple(Arr(Fraction(L_) * i / n_ for i in range(n_)) for L_, n_ in zip(LL, nn))),
                     ("grid steps", [Fraction(L_) / n_ for L_, n_ in zip(LL, nn)])]
            wants += [(f"index of axis {k} shifted by {q:+} (access {j})", Arr((i + q) % nn[k] for i in range(nn[k])))
                      for j, (k, q) in enumerate(order)]
            for (what, want), t in zip(wants, parts):
                small = narrow_index(t) if what.startswith("index") else None
                if small:
                    rep.bad("mesh", f"{inst}: {what}", where, f"the index is made of {small}: it cannot hold the indices of all meshes")
                    continue
                try:
                    # an exception on the way
                    r = S.val(t, env)
                except Unknown as e:
                    rep.unsure("mesh", f"{inst}: {what}", where, e)
                    continue
                except Raised as e:
                    rep.bad("mesh", f"{inst}: {what}", where, f"raises {e}")
                    continue
                same = frozen(r) == frozen(want)
                rep.check("mesh", f"{inst}: {what}", where, same, "" if same else f"{str(r)[:200]} in place of {str(want)[:200]}")
            try:
                bad = [e for e in I.effects if e.kind == "raise" and raises(I, s, e, Shape(mesh_hook, I.nexts), env)]
                rep.check("mesh", f"{inst}: accepted", where, not bad, f"refused: {short(bad[0].target) if bad else ''}")
            except (Unknown, Raised) as e:
                rep.unsure("mesh", f"{inst}: accepted", where, e)


def narrow_index(t):
    """type of numbers of an index array that cannot hold any index, or is no index"""
    for x in TT.walk(t):
        if x.op == "call" and x.args[0].op in ("global", "attr"):
            ks = [v for k, v in x.args[2] if k == "dtype"]
            if x.args[0].op == "attr" and x.args[0].args[1] == "astype":
                ks += x.args[1][:1]
            for d in ks:
                n = str(d.args[-1] if d.op in ("str", "global", "attr") else d).split(".")[-1]
                if n in ("int8", "int16", "byte", "short", "bool", "bool_", "float", "complex", "i1", "i2") or \
                        n.startswith(("uint", "float", "complex")):
                    return n
    return None


def mesh_hook(t, env, S):
    if t.op == "len" or t.op == "attr" and t.args[1] == "size":
        a = S.val(t.args[0], env)
        if isinstance(a, Arr):
            return len(a.xs)
    if t.op == "call" and t.args[0].op in ("global", "attr"):
        n = str(t.args[0].args[-1]).split(".")[-1]
        if n == "arange" and t.args[1]:
            xs = [S.number(a, env) for a in t.args[1]]
            if all(x == int(x) for x in xs):
                return Arr(range(*[int(x) for x in xs]))
        if n == "meshgrid":
            xs = []
            for a in t.args[1]:
                if a.op == "star":
                    xs += S.seq(a.args[0], env)
                else:
                    xs.append(S.val(a, env))
            kw = {k: S.val(b, env) for k, b in t.args[2]}
            ind = kw.get("indexing", Text("xy"))
            return ("mesh", "ij" if len(xs) == 1 else repr(ind)) + tuple(xs)
        if n == "linspace" and len(t.args[1]) in (2, 3):
            kw = {k: S.val(b, env) for k, b in t.args[2]}
            a, b = (S.number(x, env) for x in t.args[1][:2])
            m = S.number(t.args[1][2], env) if len(t.args[1]) == 3 else kw.get("num", 50)
            end = kw.get("endpoint", True)
            d = (m - 1) if end else m
            if d:
                return Arr(a + Fraction(b - a) * i / d for i in range(int(m)))
        if n == "clip" and len(t.args[1]) == 3:
            a = S.val(t.args[1][0], env)
            lo, hi = (S.number(x, env) for x in t.args[1][1:])
            if isinstance(a, Arr):
                return Arr(min(max(x, lo), hi) for x in a.xs)
        if n == "roll" and len(t.args[1]) == 2:
            a = S.val(t.args[1][0], env)
            k = S.number(t.args[1][1], env)
            if isinstance(a, Arr) and a.xs:
                m = len(a.xs)
                return Arr(a.xs[(i - int(k)) % m] for i in range(m))
        if n in ("array", "asarray") and len(t.args[1]) == 1:
            return S.val(t.args[1][0], env)
        if n == "mod" and len(t.args[1]) == 2:
            return S.val(t.args[1][0], env) % S.number(t.args[1][1], env)
    return NotImplemented


def run(ctx, rep, tier):
    rep.rule("coordinates", "each argument of a shifted function is split in its coordinate and the grid step of this coordinate, whatever the "
             "order in which its symbols are found", 40)
    rep.rule("displacement", "the displacement along an axis is the coefficient of the grid step of this axis in the argument of this axis", 6)
    rep.rule("shifted function", "a function shifted by k steps is coded as its array read at offset k on the axis of the coordinate, 0 on the others, "
             "axes in the order of the arguments; out of the grid it is refused", 100)
    rep.rule("replacement", "functions and grid steps of a finite difference are replaced in a single pass over whole names, each by the code of "
             "itself, or by the step of its own axis", 8)
    rep.rule("derivative code", "the code of a derivative is the code of its finite difference with the rules of the builder", 4)
    rep.rule("mesh", "steps, mesh arrays and periodic index arrays of a generated model belong to the axis of their coordinate", 60)
    coordinates_rule(ctx, rep)
    if any("get_coordinates" in m.funcs for m in ctx.pkg.modules.values()):
        coordinates_rule(ctx, rep, "get_coordinates")
    displacement_rule(ctx, rep)
    function_codes(ctx, rep, tier)
    replacement(ctx, rep)
    c = derivative_code(ctx, rep)
    c = c or next(c for c in ctx.classes() if c.module.name.endswith("model_builder_FD") and c.name == "MetaDerivative")
    mesh(ctx, rep, c, tier)
