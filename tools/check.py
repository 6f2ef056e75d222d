#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.
check.py --replay FILE: runs the episode of a replay file again."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
import areas
from vt import CheckError


def main():
    if sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        work = vt.Work("replay")
        try:
            if rep.get("recorded"):     # one schedule out of many: judge what was recorded
                with open(work.path("recorded"), "w") as f:
                    f.write("\n".join(rep["recorded"]) + "\n")
                rejected, _ = vt.validate(work, rep["spec"], rep["cfg"], work.path("recorded"), env=rep.get("tlc_env"))
                for r in rejected:
                    print(json.dumps(r))
                return 1 if any(rep["property"] in r["props"] or "*" in r["props"] for r in rejected) else 0
            env = rep.get("env") or {}
            binary = areas.binary_for(work, rep["area"], env)
            if "VERIF_SCRATCH" in env:
                env["VERIF_SCRATCH"] = work.path("scratch")
                os.mkdir(env["VERIF_SCRATCH"])
            for key, name in areas.COMMANDS.items():
                if key in env:
                    env[key] = work.build_cmd(name)
            s = vt.Suite(rep["area"], rep["spec"], rep["cfg"], [rep["episode"]], binary, env, rep.get("tlc_env"))
            rejected, _ = vt.run_suite(work, s)
            for r in rejected:
                print(json.dumps(r))
            return 1 if any(rep["property"] in r["props"] or "*" in r["props"] for r in rejected) else 0
        finally:
            work.close()
    prop = sys.argv[1]
    check = vt.Check(prop)
    try:
        areas.CHECKS[prop](check)
        return check.finish()
    except CheckError as x:
        print("ERROR: %s" % x, file=sys.stderr)
        return 2
    finally:
        check.work.close()


sys.exit(main())
