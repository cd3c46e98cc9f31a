#!/usr/bin/env python3
"""Applies every planted bug to a scratch copy of /repo, runs the check of its property and writes the table of DESIGN.md."""
import json
import os
import re
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- planted bugs -->", "<!-- end of planted bugs -->"


def main():
    rows = []
    for s in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{s}/meta.json"))
        d = tempfile.mkdtemp(prefix="seedtab_")
        shutil.copytree("/repo/src", f"{d}/repo/src")
        p = subprocess.run(["git", "apply", f"{V}/seeded/{s}/patch.diff"], cwd=f"{d}/repo", capture_output=True, text=True)
        if p.returncode:
            print("does not apply", s, p.stderr)
            continue
        r = subprocess.run(["/opt/venv/bin/python", "-B", f"{V}/check.py", m["property"]], capture_output=True, text=True,
                           env=dict(os.environ, SYMPKF_REPO=f"{d}/repo", SYMPKF_EVIDENCE=f"{d}/ev"))
        shutil.rmtree(d)
        rules = sorted(set(re.findall(r"^\s+violated (.+?):", r.stdout, re.M)))
        got = "caught by " + ", ".join(rules) if r.returncode == 1 else f"MISSED (exit {r.returncode})"
        rows.append((m["property"], s, m["what_it_breaks"], m["needs"], got))
        print(rows[-1][:2], got, flush=True)
    rows.sort()
    t = "| property | bug | what it breaks | needs | check |\n|---|---|---|---|---|\n"
    t += "".join("| " + " | ".join(x.replace("|", "/") for x in r) + " |\n" for r in rows)
    f = f"{V}/DESIGN.md"
    x = open(f).read()
    x = x[:x.index(A) + len(A)] + "\n" + t + x[x.index(B):]
    open(f, "w").write(x)


if __name__ == "__main__":
    main()
