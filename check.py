#!/usr/bin/env python3
"""Run one check:  check.py <property id> [--tier quick|thorough]

Decides the property from the current source of /repo (never imported, never run)."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from checks import base
    mod = importlib.import_module(f"checks.{pid.lower()}")
    rep = base.Report(pid, tier, seed)
    try:
        ctx = base.Ctx()
        mod.run(ctx, rep, tier)
    except base.AnalysisBroken as e:
        if any(i["verdict"] == "violated" for i in rep.items):
            rep.floors = {}
            return base.finish(rep, ctx)
        print(f"ANALYSIS-BROKEN {pid}: {e}")
        return 2
    except Exception as e:
        if type(e).__name__ == "TemplateSyntaxError":
            # the constant text of a template: nothing is generated from it
            rep.bad("template", "templates", "src/sympkf/symbolic/templates",
                    f"a template does not parse, no program can be generated from it: {e}")
            rep.floors = {}
            return base.finish(rep, ctx)
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN {pid}: internal error")
        return 2
    return base.finish(rep, ctx)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
