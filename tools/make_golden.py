#!/usr/bin/env python3
"""Made golden/first_version.json: histories and the files the first version of the code wrote for them.

    VERIF_REPO=<copy of commit 2db67da> python3 tools/make_golden.py

Not run by checks; the file is committed."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
import gen_index as gi

r = random.Random(2024)
eps = []
for n in (1, 3, 6, 10, 15, 20, 25, 30, 40, 8, 12, 18):
    g = gi.Gen(r, maxset=r.choice([1, 2, 3, 5]))
    g.new("A")
    g.build("A", n)
    if len(eps) % 3 == 2:
        g.opt("A")
        g.build("A", n // 2)
    g.save("A", "f")
    eps.append(g.done("golden"))
eps.append(gi.ep_grid(9, 8)[:-1] + [{"op": "save", "h": "A", "f": "f"}])
work = vt.Work("golden")
try:
    binary = work.build()
    out = []
    for ep in eps:
        scen, trace = work.path("s"), work.path("t")
        vt.write_ndjson(scen, ep)
        if os.path.exists(trace):
            os.remove(trace)
        vt.drive(binary, "index", scen, trace)
        rec = [json.loads(x) for x in open(trace)]
        if any(x.get("res") == "panic" for x in rec) or rec[-1].get("res") != "ok" or "bytes" not in rec[-1]:
            print("passed over", rec[-1].get("res"))
            continue
        out.append({"steps": [o for o in ep if o["op"] not in ("reset", "save", "dump")], "bytes": rec[-1]["bytes"]})
    with open(os.path.join(vt.VERIF, "golden", "first_version.json"), "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(x, separators=(",", ":")) for x in out) + "\n]\n")
    print(len(out), "files", [len(x["bytes"]) for x in out])
finally:
    work.close()
