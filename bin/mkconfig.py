#!/usr/bin/env python3
"""writes bin/config.json and MANIFEST.json from the table below (run by hand after editing; --shapes records the shapes of the functions under contract on the current tree)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REQ = "requests are generated from VERIF_SEED by /verif/replay; an input counts as distinct by the hash of method, target, headers and body fragmentation (or of the parsed text); every generated class has its own oracle answer, and classes that could not matter (unparseable HTTP) are not counted"
P = {}
def prop(id, units, note, budget=60, thorough=500, trusted=(), assumptions=(), technique=None, rule=REQ, level=None):
    P[id] = dict(units=units, note=note, budget=budget, thorough_budget=thorough, trusted=list(trusted), assumptions=list(assumptions), rule=rule,
                 level=level or ("proof" if units else "exploration"),
                 technique=technique or ("contract-based deductive verification (Verus) of functions extracted from /repo/src on every run, plus executable contracts on the compiled code" if units
                                         else "executable contracts run on the compiled code (bounded stand-in)"))
exec(open(os.path.join(V, "bin", "table.py")).read())
units = {}
old = {}
cp = os.path.join(V, "bin", "config.json")
if os.path.exists(cp): old = json.load(open(cp)).get("units", {})
for p in P.values():
    for u in p["units"]:
        units[u] = dict(UNITS.get(u, {}))
        if "shapes" in old.get(u, {}): units[u]["shapes"] = old[u]["shapes"]
if "--shapes" in sys.argv:
    for u in units:
        o = subprocess.run([V + "/extract/target/debug/extract", "/repo", V + "/contracts/%s.vc" % u, "/tmp/shapes.rs"], stdout=subprocess.PIPE, text=True).stdout
        units[u]["shapes"] = {f["name"]: [f["loops"], f["closures"]] for f in json.loads(o)["functions"]}
json.dump({"units": units, "properties": {k: {a: b for a, b in v.items() if a not in ("note", "technique")} for k, v in P.items()}}, open(cp, "w"), indent=1)
m = {"version": 1, "setup_cmd": "bin/setup.sh",
     "checks": [dict(property=k, quick_cmd="python3 bin/check.py %s" % k, thorough_cmd="python3 bin/check.py %s --tier thorough" % k,
                     technique=v["technique"], level=v["level"], level_note=v["note"]) for k, v in sorted(P.items())],
     "not_applicable": NA, "notes": NOTES}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
