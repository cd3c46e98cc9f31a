"""The function which makes an identifier of a LaTeX name, read into a term and evaluated on names (nothing is run)."""
import keyword
import re
from .base import *
from engine.shape import Shape, Sym, Text, Unknown, Raised

CLEAN = "clean_latex_name"
SPECIAL = "\\{}^,"


class Cleaner:
    def __init__(self, ctx):
        self.f = ctx.func(CLEAN)
        self.I, v, self.s = ctx.run(self.f)
        self.v = self.I.fz(v, self.s)
        self.par = mk("param", self.f.node.args.args[0].arg)
        self.memo = {}

    def name(self, raw, symbol=True):
        """sanitised form of the name of a symbol (or of a text)"""
        k = (raw, symbol)
        if k not in self.memo:
            S = Shape(self.hook, self.I.nexts, lambda a, b: None)
            S.text = S
            env = {self.par: Sym("sym", raw) if symbol else Text(raw)}
            try:
                for e in self.I.effects:
                    if e.kind == "raise" and not e.loops and all(S.truth(S.val(self.I.fz(c, self.s), env)) for c in e.pc):
                        raise Raised(short(e.target, 80))
                r = S.val(self.v, env)
                self.memo[k] = repr(r) if isinstance(r, Text) and r.literal else Unknown(f"value {r!r}")
            except (Unknown, Raised) as e:
                self.memo[k] = e
        r = self.memo[k]
        if isinstance(r, Exception):
            raise r
        return r

    def clean(self, sym, raw):
        return Text(self.name(raw))

    def hook(self, t, env, S):
        op = t.op
        if op == "tostr" or op == "call" and t.args[0].op == "global" and t.args[0].args[0].split(".")[-1] in ("sstr", "latex") and len(t.args[1]) == 1:
            o = S.val(t.args[0] if op == "tostr" else t.args[1][0], env)
            if isinstance(o, Sym) and o.kind == "sym":
                return Text(o.data[0])
        if op == "isinstance":
            o = S.val(t.args[0], env)
            cl = str(t.args[1].args[-1]).split(".")[-1].strip("'") if t.args[1].args else ""
            if cl == "str":
                return isinstance(o, Text)
        if op == "attr" and t.args[1] in ("name", "__name__"):
            o = S.val(t.args[0], env)
            if isinstance(o, Sym) and o.kind == "sym":
                return Text(o.data[0])
        if op == "attr" and t.args[0].op in ("global", "module") and t.args[1] in ("kwlist", "softkwlist"):
            return [Text(k) for k in getattr(keyword, t.args[1])]
        if op == "global" and t.args[0] in ("keyword.kwlist", "keyword.softkwlist"):
            return [Text(k) for k in getattr(keyword, t.args[0].split(".")[1])]
        if op == "iskeyword":
            return keyword.iskeyword(self.lit(S, t.args[0], env))
        if op == "call" and not t.args[2]:
            f, args, _ = t.args
            n = f.args[0].split(".")[-1] if f.op == "global" else f.args[1] if f.op == "attr" else None
            if n in ("iskeyword", "issoftkeyword") and len(args) == 1:
                return getattr(keyword, n)(self.lit(S, args[0], env))
            if n == "maketrans":
                xs = [S.val(a, env) for a in args]
                if len(xs) == 1 and isinstance(xs[0], dict):
                    return {(k if isinstance(k, int) else ord(repr(k))): (repr(x) if isinstance(x, Text) else x) for k, x in xs[0].items()}
                if all(isinstance(x, Text) and x.literal for x in xs) and len(xs) in (2, 3):
                    return str.maketrans(*map(repr, xs))
            if f.op == "attr" and n == "translate" and len(args) == 1:
                o, d = S.val(f.args[0], env), S.val(args[0], env)
                if isinstance(o, Text) and o.literal and isinstance(d, dict):
                    return Text(repr(o).translate({k: (repr(x) if isinstance(x, Text) else x) for k, x in d.items()}))
            if f.op == "attr" and n in ("isalnum", "isalpha", "isdigit", "isdecimal", "isascii", "find", "count", "partition", "removeprefix", "removesuffix",
                                        "lower", "upper", "title", "strip", "lstrip", "rstrip", "format"):
                o = S.val(f.args[0], env)
                xs = [S.val(a, env) for a in args]
                if isinstance(o, Text) and o.literal and all(isinstance(x, Text) and x.literal or isinstance(x, int) for x in xs):
                    r = getattr(repr(o), n)(*[repr(x) if isinstance(x, Text) else x for x in xs])
                    return Text(r) if isinstance(r, str) else [Text(q) for q in r] if isinstance(r, tuple) else r
            if n in ("sub", "fullmatch", "match", "search", "findall") and (f.op == "global" and f.args[0].startswith("re.")
                                                                           or f.op == "attr" and f.args[0].op in ("global", "module") and f.args[0].args[0] == "re"):
                return self.regexp(n, args, env, S)
            if n == "ord" and len(args) == 1:
                return ord(self.lit(S, args[0], env))
        return NotImplemented

    def regexp(self, n, args, env, S):
        p = self.lit(S, args[0], env)
        if n == "sub" and len(args) == 3:
            x = self.lit(S, args[2], env)
            if args[1].op == "lam":
                raise Unknown("replacement by a function")
            return Text(re.sub(p, self.lit(S, args[1], env), x))
        if n in ("fullmatch", "match", "search") and len(args) == 2:
            return getattr(re, n)(p, self.lit(S, args[1], env)) is not None
        if n == "findall" and len(args) == 2:
            return [Text(q) for q in re.findall(p, self.lit(S, args[1], env))]
        raise Unknown(n)

    @staticmethod
    def lit(S, t, env):
        o = S.val(t, env)
        if isinstance(o, Text) and o.literal:
            return repr(o)
        raise Unknown(f"text {o!r}")

    # ------------------------------------------------------------ what the term is, for all names
    def steps(self):
        """[(old, new)] when the name goes through replacements of texts only, else None"""
        v, out = self.v, []
        if v.op == "phi":
            v = v.args[2] if "iskeyword" in repr(v.args[0]) else v.args[1]
        while True:
            if mcall(v, "replace") and len(v.args[1]) == 2 and all(a.op == "str" for a in v.args[1]):
                out.insert(0, (v.args[1][0].args[0], v.args[1][1].args[0]))
                v = v.args[0].args[0]
            elif v.op == "replaceT" and all(a.op == "str" for a in v.args[1:]):
                out.insert(0, (v.args[1].args[0], v.args[2].args[0]))
                v = v.args[0]
            else:
                return out


def reference(raw):
    """what the name of a variable is: without its LaTeX decorations, the separators shown"""
    r = raw.replace("\\", "").replace("{", "").replace("}", "").replace("^", "_").replace(",", "_")
    return r


def identifier(x):
    return x.isidentifier() and not keyword.iskeyword(x)
