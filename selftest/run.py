#!/usr/bin/env python3
"""Scratch-copy tests of the checkers: every mutant must raise the named property's alarm (exit 1),
every refactoring must leave all checks quiet (exit 0).

usage: run.py [mutants|refactors|all] [name substring]    (uses only scratch copies of /repo/src)"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"


def checks():
    import json
    m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    return [c["property"] for c in m["checks"]]


def scratch(edits):
    d = tempfile.mkdtemp(prefix="sympkf-self-")
    shutil.copytree("/repo/src", os.path.join(d, "src"), ignore=shutil.ignore_patterns("__pycache__"))
    for path, old, new in edits:
        p = os.path.join(d, "src/sympkf", path)
        s = open(p, encoding="utf-8").read()
        if s.count(old) < 1:
            shutil.rmtree(d)
            raise SystemExit(f"edit does not apply: {path}: {old!r}")
        s = s.replace(old, new)
        open(p, "w", encoding="utf-8").write(s)
        if path.endswith(".py"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                compile(s, p, "exec")
    return d


def one(pid, d):
    ev = tempfile.mkdtemp(prefix="sympkf-ev-")
    env = dict(os.environ, SYMPKF_REPO=d, SYMPKF_EVIDENCE=ev)
    try:
        p = subprocess.run([PY, "-B", os.path.join(VERIF, "check.py"), pid], env=env, capture_output=True, text=True,
                           timeout=900)
        return p.returncode, p.stdout + p.stderr
    finally:
        shutil.rmtree(ev, ignore_errors=True)


def run_mutant(m):
    d = scratch(m["edits"])
    try:
        out = {}
        for pid in m["properties"]:
            out[pid] = one(pid, d)
        return m, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_refactor(m, pids):
    d = scratch(m["edits"])
    try:
        return m, {pid: one(pid, d) for pid in pids}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    what = sys.argv[1] if len(sys.argv) > 1 else "all"
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    verbose = "-v" in sys.argv
    import json
    L = [json.loads(x) for x in open(os.path.join(HERE, "cases.jsonl"))]
    MUT, REF = ([x for x in L if x["kind"] == k] for k in ("mutant", "refactor"))
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        if what in ("mutants", "all"):
            ms = [m for m in MUT if pat in m["name"] or pat in m["properties"]]
            for m, out in ex.map(run_mutant, ms):
                for pid, (rc, txt) in out.items():
                    ok = rc == 1
                    bad += not ok
                    print(("caught " if ok else f"MISSED rc={rc} ") + f"{pid} {m['name']}")
                    if verbose or (not ok and rc == 2):
                        print("    " + "\n    ".join(l for l in txt.splitlines() if "violated" in l or "BROKEN" in l
                                                     or "Error" in l)[:1500])
        if what in ("refactors", "all"):
            pids = [] if "-near" in sys.argv else checks()
            if len(sys.argv) > 3 and sys.argv[3].startswith("C"):
                pids = sys.argv[3].split(",")
            rs = [m for m in REF if pat in m["name"]]
            near = "-near" in sys.argv      # only the checks the case was written for
            for m, out in ex.map(lambda m: run_refactor(m, m["properties"] if near else pids), rs):
                for pid, (rc, txt) in out.items():
                    if rc != 0:
                        bad += 1
                        print(f"NOISY rc={rc} {pid} {m['name']}")
                        print("    " + "\n    ".join(l for l in txt.splitlines() if "violated" in l or "BROKEN" in l
                                                     or "Error" in l)[:1500])
                print(f"done {m['name']}")
    print("bad:", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
