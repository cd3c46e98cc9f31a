"""Shared machinery of the checks: obligations, verdicts, evidence, access to the value graphs."""
import hashlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMPKF_REPO", "/repo")
sys.path.insert(0, VERIF)

from engine.index import Package, AnalysisBroken          # noqa: E402
from engine import terms as TT, norm as N                  # noqa: E402
from engine.terms import (T, mk, num, string, NONE, TRUE, FALSE, add, sub as nsub, mul, power, div, neg, numval,  # noqa
                          subst, walk, contains, has_term, to_poly)
from engine.norm import coll, phi, not_, and_, or_, eq_, sub_, len_, specialise   # noqa: E402
from engine.interp import Interp, State                    # noqa: E402


class Report:
    """collects obligations; a verdict is True (discharged), False (violated), None (not decided)"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.items, self.rules, self.floors = [], {}, {}
        self.analysed = set()
        self.notes = []
        self.t0 = time.time()
        self.selftests = 0

    def rule(self, rid, text, floor=1):
        self.rules[rid] = text
        self.floors[rid] = floor

    def check(self, rid, instance, where, verdict, detail=""):
        assert rid in self.rules, rid
        self.items.append({"rule": rid, "instance": instance, "where": where,
                           "verdict": {True: "ok", False: "violated", None: "undecided"}[verdict],
                           "detail": str(detail)[:1500]})
        return verdict

    def ok(self, rid, instance, where, detail=""):
        return self.check(rid, instance, where, True, detail)

    def bad(self, rid, instance, where, detail=""):
        return self.check(rid, instance, where, False, detail)

    def unsure(self, rid, instance, where, detail=""):
        return self.check(rid, instance, where, None, detail)

    def selftest(self, cond, what):
        """positive example: the rule must be able to fire"""
        self.selftests += 1
        if not cond:
            raise AnalysisBroken(f"self test failed: {what}")

    def saw(self, *quals):
        self.analysed.update(quals)


class Ctx:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.pkg = Package(self.repo)
        self.visited = set()

    # ---- locating constructs by name, wherever they live
    def cls(self, name):
        hits = [m.classes[name] for m in self.pkg.modules.values() if name in m.classes]
        if not hits:
            # re-exported / aliased
            raise AnalysisBroken(f"class {name} not found in the package")
        return hits[0]

    def method(self, cname, mname):
        c = self.cls(cname)
        f = self.pkg.find_method(c, mname)
        if f is None:
            raise AnalysisBroken(f"{cname}.{mname} not found")
        return f

    def func(self, name, module=None):
        hits = [m.funcs[name] for m in self.pkg.modules.values() if name in m.funcs
                and (module is None or m.name.endswith(module))]
        if not hits:
            # an alias at module level:  name = other
            for m in self.pkg.modules.values():
                if name in m.assigns:
                    r = self.pkg.resolve(m.name, name)
                    if r and r[0] == "assign":
                        import ast
                        v = r[2]
                        if isinstance(v, ast.Name):
                            r2 = self.pkg.resolve(r[1].name, v.id)
                            if r2 and r2[0] == "func":
                                return r2[1]
            raise AnalysisBroken(f"function {name} not found in the package")
        return hits[0]

    def classes(self):
        """classes of the package (generated models excluded)"""
        return [c for m in self.pkg.modules.values() if not m.name.startswith("generated_") for c in m.classes.values()]

    def run_cls(self, c, mname, **k):
        f = self.pkg.find_method(c, mname)
        if f is None:
            raise AnalysisBroken(f"{c.qual}.{mname} not found")
        return self.run(f, cls=c if not (f.is_static or f.is_class) else None, **k)

    def interp(self, **k):
        return Interp(self.pkg, **k)

    def run(self, fi, args=None, opaque=(), self_obj=None, st=None, hook=None, cls=None):
        """(interp, frozen value, state)"""
        I = self.interp(opaque=opaque)
        if hook is not None:
            I.attr_hook = hook
        if cls is not None and self_obj is None:
            self_obj = mk("self", cls.qual)
        v, s = I.run_function(fi, args=args, self_obj=self_obj, st=st)
        v = I.fz(v, s)
        self.visited |= I.visited
        return I, v, s

    def run_method(self, cname, mname, **k):
        c = self.cls(cname)
        f = self.method(cname, mname)
        return self.run(f, cls=c if not (f.is_static or f.is_class) else None, **k)


# ------------------------------------------------------------------ terms helpers
UNKNOWN_OPS = {"unknown", "undef", "nondet", "opaqueconst", "mutated", "popped", "missing", "foldstop", "binop",
               "bigmul", "never", "noreturn", "atstop", "unordered", "whilelen", "nonfinite", "star"}


def heads(t):
    """names of functions / attributes called or read and operators occurring in a term"""
    out = set()
    for x in walk(t):
        if x.op == "call":
            f = x.args[0]
            if f.op == "global":
                out.add("g:" + f.args[0])
            elif f.op == "attr":
                out.add("a:" + f.args[1])
            else:
                out.add("o:" + f.op)
        elif x.op in UNKNOWN_OPS:
            out.add("?:" + x.op)
    return out


def understood(t, vocab=()):
    """does every call of the term belong to the vocabulary (names without prefix) ?"""
    for h in heads(t):
        if h.startswith("?:"):
            return False
        n = h[2:]
        if h.startswith("g:"):
            n = n.split(".")[-1]
        if n not in vocab and not h.startswith("o:"):
            return False
    return True


def calls(t, pred):
    return [x for x in walk(t) if x.op == "call" and pred(x.args[0])]


def gcall(x, *names):
    """is x a call of a library / package function with one of these names"""
    return x.op == "call" and x.args[0].op == "global" and x.args[0].args[0].split(".")[-1] in names


def mcall(x, *names):
    """is x a method call .name(..)"""
    return x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in names


def coef(t, mono_atom):
    return None


def short(t, n=300):
    s = repr(t)
    return s if len(s) <= n else s[:n] + "…"


def parts_flat(parts, guards=(), ixs=()):
    """leaves of collection parts with the loop indices and guards above them"""
    for p in parts:
        if p.op == "for":
            yield from parts_flat(p.args[1], guards, ixs + (p.args[0],))
        elif p.op == "when":
            g = p.args[0]
            gs = g.args if g.op == "and" else (g,)
            yield from parts_flat(p.args[1], guards + tuple(gs), ixs)
        else:
            yield p, guards, ixs


def shift(t, ix, k):
    return subst(t, {ix: add(ix, num(k))})


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line:
                f = line.split("key=", 1)[1]
                key, _, what = f.partition(" ")
                out[key] = what
    return out


def finish(rep, ctx):
    """evidence file, printed lines, exit code"""
    known = known_findings(rep.pid)
    viol, undec, kn = [], [], []
    for it in rep.items:
        it["key"] = f"{it['rule']}:{it['instance']}".replace(" ", "_")
        if it["verdict"] == "violated":
            if it["key"] in known:
                it["verdict"] = "known-finding"
                kn.append(it)
            else:
                viol.append(it)
        elif it["verdict"] == "undecided":
            undec.append(it)
    counts = {}
    for it in rep.items:
        counts[it["rule"]] = counts.get(it["rule"], 0) + 1
    broken = [f"rule {r}: {counts.get(r, 0)} instances, at least {n} expected" for r, n in rep.floors.items()
              if counts.get(r, 0) < n]
    done = sum(1 for it in rep.items if it["verdict"] == "ok")
    ev = {
        "property": rep.pid, "tier": rep.tier, "seed": rep.seed, "level": "other",
        "coverage": {
            "explanation": "static analysis of the current source (syntax trees, gated value graphs, dataflow): "
                           "obligations below, one per rule instance",
            "functions_analysed": sorted(rep.analysed | ctx.visited),
            "modules_parsed": sorted(m.rel for m in ctx.pkg.modules.values()),
            "rules": rep.rules,
            "instances_per_rule": counts,
            "instance_floors": rep.floors,
            "obligations": len(rep.items), "discharged": done,
            "known_findings": [i["key"] for i in kn],
            "undecided": [i["key"] for i in undec],
            "self_tests": rep.selftests,
            "samples": rep.items[:60],
        },
        "assumptions": rep.notes or ["library calls (sympy, numpy, multiprocessing) behave as documented"],
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(viol),
    }
    evdir = os.environ.get("SYMPKF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{rep.pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{rep.pid}: {len(rep.items)} obligations, {done} discharged, {len(kn)} known, {len(undec)} undecided, "
          f"{len(viol)} violated; {len(rep.analysed | ctx.visited)} functions; {ev['wall_s']} s")
    for r, n in sorted(counts.items()):
        print(f"  rule {r}: {n} instances -- {rep.rules[r]}")
    for it in kn:
        print(f"KNOWN-FINDING: property={rep.pid} {it['key']} {it['detail'][:200]}")
    if viol:
        replay = os.path.join(evdir, f"{rep.pid}.violation.json")
        with open(replay, "w") as fh:
            json.dump({"property": rep.pid, "violations": viol,
                       "replay": f"/opt/venv/bin/python -B {VERIF}/check.py {rep.pid}"}, fh, indent=1, default=str)
        for it in viol:
            print(f"  violated {it['key']} at {it['where']}: {it['detail']}")
        print(f"VIOLATION property={rep.pid} replay={replay}")
        return 1
    if broken or undec:
        for b in broken:
            print(f"ANALYSIS-BROKEN {rep.pid}: {b}")
        for it in undec:
            print(f"ANALYSIS-BROKEN {rep.pid}: undecided {it['key']} at {it['where']}: {it['detail']}")
        return 2
    return 0


def bind_call(fi, c, skip_self=True):
    """arguments of a call term by parameter name (None when the call can not be bound)"""
    import ast
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if skip_self and names and not (fi.is_static or False) and fi.cls is not None:
        names = names[1:]
    out = {}
    for n, v in zip(names, c.args[1]):
        if v.op in ("star", "splat"):
            return None
        out[n] = v
    if len(c.args[1]) > len(names):
        return None
    for k, v in c.args[2]:
        out[k] = v
    defaults = a.defaults
    for n, d in zip([x.arg for x in a.args][::-1], defaults[::-1]):
        if n not in out and isinstance(d, ast.Constant):
            v = d.value
            out[n] = (NONE if v is None else TRUE if v is True else FALSE if v is False else
                      string(v) if isinstance(v, str) else num(v) if isinstance(v, int) else mk("default", n))
    return out


def phi_leaves(t, guards=()):
    if t.op == "phi":
        yield from phi_leaves(t.args[1], guards + (t.args[0],))
        yield from phi_leaves(t.args[2], guards + (not_(t.args[0]),))
    else:
        yield t, guards


# ------------------------------------------------------------------ aliasing
ALIAS_METHODS = {"reshape", "ravel", "view", "swapaxes", "transpose", "squeeze", "values", "items", "keys", "get",
                 "setdefault", "__getitem__", "flatten_view", "__iter__"}
ALIAS_FUNCS = {"asarray", "asanyarray", "ravel", "reshape", "atleast_1d", "atleast_2d", "squeeze", "transpose",
               "ascontiguousarray", "iter", "reversed", "moveaxis", "swapaxes", "broadcast_to", "MappingProxyType"}


def alias_paths(t, depth=0):
    """objects a value may be (a part of): [(root term, path of attributes/elements)]"""
    if depth > 40:
        return
    o = t.op
    if o in ("param", "self", "obj", "global"):
        yield t, ()
    elif o == "attr":
        for r, p in alias_paths(t.args[0], depth + 1):
            yield r, p + (t.args[1],)
    elif o in ("sub", "dictget", "setdef"):
        for r, p in alias_paths(t.args[0], depth + 1):
            yield r, p + ("[]",)
    elif o == "phi":
        yield from alias_paths(t.args[1], depth + 1)
        yield from alias_paths(t.args[2], depth + 1)
    elif o in ("carry",):
        if isinstance(t.args[1], T):
            yield from alias_paths(t.args[1], depth + 1)
    elif o in ("fold", "foldstop"):
        if isinstance(t.args[2], T):
            yield from alias_paths(t.args[2], depth + 1)
        if isinstance(t.args[3], T):
            yield from alias_paths(t.args[3], depth + 1)
    elif o in ("lastof", "mutated", "setitem", "fillarr", "popped"):
        for a in t.args:
            if isinstance(a, T) and a.op not in ("ix",):
                yield from alias_paths(a, depth + 1)
                break
    elif o in ("valuesof", "itemsof", "keysof"):
        yield from alias_paths(t.args[0], depth + 1)
    elif o == "call":
        f = t.args[0]
        if f.op == "attr" and f.args[1] in ALIAS_METHODS:
            for r, p in alias_paths(f.args[0], depth + 1):
                yield r, p + ("()",)
        elif f.op == "global" and f.args[0].split(".")[-1] in ALIAS_FUNCS and t.args[1]:
            for r, p in alias_paths(t.args[1][0], depth + 1):
                yield r, p + ("()",)


HEAVY = {'error_system', 'variance_system', 'epsilon_system', 'metric_system', 'expectation_system', 'tl_expectation_system',
         'cross_covariance_system', 'internal_closure', '_apply_internal_closure', 'in_metric', 'first_order_reynolds_system',
         'second_order_reynolds_system', 'subs_tree', 'Field', 'UnivariateTree', 'PDESystem', 'PartialOrderDerivative'}


def nested_functions(ctx):
    """functions defined inside functions are analysed where they are called; this lists top-level functions and methods"""
    return list(ctx.pkg.functions())


BINDERS = ("for", "exists", "fold", "foldstop", "sumover", "prodover", "maxover", "minover", "first", "lastof")


def free_in(t, ix):
    """does the loop index occur free in t (binders of the same index excluded)"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen or ix not in x.fv:
            continue
        seen.add(x)
        if x is ix:
            return True
        if x.op in BINDERS and x.args[0] is ix:
            continue
        if x.op == "holds" and x.args[0] in ("exists", "last") and x.args[1] is ix:
            continue
        stack.extend(TT.children(x))
    return False


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(term) -> term"""
    memo = {} if memo is None else memo

    def r(x):
        y = memo.get(x)
        if y is None:
            y = f(TT.rebuild(x, r))
            memo[x] = y
        return y
    return r(t)


def eq_sides(t):
    """equation.lhs / .rhs  ->  equation.args[0] / [1]"""
    def f(x):
        if x.op == "attr" and x.args[1] in ("lhs", "rhs"):
            return sub_(mk("attr", x.args[0], "args"), num(0 if x.args[1] == "lhs" else 1))
        return x
    return rewrite(t, f)


def prop_atoms(t, out):
    if t in (TRUE, FALSE):
        return
    if t.op in ("and", "or"):
        for x in t.args:
            prop_atoms(x, out)
    elif t.op == "not":
        prop_atoms(t.args[0], out)
    elif t.op == "phi":
        for x in t.args:
            prop_atoms(x, out)
    elif t not in out:
        out.append(t)


def prop_eval(t, env):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.op == "and":
        return all(prop_eval(x, env) for x in t.args)
    if t.op == "or":
        return any(prop_eval(x, env) for x in t.args)
    if t.op == "not":
        return not prop_eval(t.args[0], env)
    if t.op == "phi":
        return prop_eval(t.args[1] if prop_eval(t.args[0], env) else t.args[2], env)
    return env[t]


def prop_equal(a, b, limit=10):
    """propositional equivalence of two conditions over their atomic tests (None: too many tests)"""
    import itertools
    at = []
    prop_atoms(a, at)
    prop_atoms(b, at)
    if len(at) > limit:
        return None
    for vals in itertools.product((True, False), repeat=len(at)):
        env = dict(zip(at, vals))
        if prop_eval(a, env) != prop_eval(b, env):
            return False
    return True


# ------------------------------------------------------------------ index sets
def ieval(t, env):
    """integer (or boolean) value of an index expression; None when it is not one"""
    if t in env:
        return env[t]
    o, a = t.op, t.args
    if o == "num":
        return int(a[0]) if a[0] == int(a[0]) else None
    if o == "poly":
        r = 0
        for (mono, c) in TT.to_poly(t).items():
            v = c
            for b, e in mono[0]:
                x = ieval(b, env)
                if x is None or mono[1] or e != int(e) or e < 0:
                    return None
                v *= x ** int(e)
            r += v
        return int(r) if r == int(r) else None
    if o in ("floordiv", "mod", "min", "max", "lt", "le", "eq", "and", "or", "not"):
        v = [ieval(x, env) for x in a]
        if None in v:
            return None
        if o in ("floordiv", "mod"):
            return None if v[1] == 0 else v[0] // v[1] if o == "floordiv" else v[0] % v[1]
        return {"min": min, "max": max, "lt": lambda q: q[0] < q[1], "le": lambda q: q[0] <= q[1], "eq": lambda q: q[0] == q[1],
                "and": all, "or": any, "not": lambda q: not q[0]}[o](v)
    return None


def index_tuples(ids, ixs, gs, env):
    """list of the values of the index expressions ids over the loops ixs (outer first) under the guards; None: not decidable"""
    out = []

    def go(k, env):
        if k == len(ixs):
            for g in gs:
                b = ieval(g, env)
                if b is None:
                    return False
                if not b:
                    return True
            v = tuple(ieval(i, env) for i in ids)
            if None in v:
                return False
            out.append(v)
            return True
        n = ieval(ixs[k].args[0], env)
        if n is None:
            return False
        return all(go(k + 1, {**env, ixs[k]: q}) for q in range(max(0, n)))
    # a loop inside another one may be listed before
    order = sorted(ixs, key=lambda i: sum(1 for j in ixs if j is not i and has_term(i.args[0], j)))
    ixs = order
    return out if go(0, dict(env)) else None


def index_cover(ids, ixs, gs, n, upto=5):
    """do the loops give every multiset of len(ids) indices below n (decided for n = 1..upto on the index expressions)?"""
    import itertools
    for q in range(1, upto + 1):
        got = index_tuples(ids, ixs, gs, {n: q})
        if got is None:
            return None
        if {tuple(sorted(x)) for x in got} != set(itertools.combinations_with_replacement(range(q), len(ids))):
            return False
    return True
