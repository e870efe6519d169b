"""Joins the evidence of the variants of one check into evidence/<id>.json."""
import json, os, sys
pid, parts = sys.argv[1], sys.argv[2:]
d = os.path.join(os.environ["VERIF_DIR"], "evidence")
out = None
for v in parts:
    p = os.path.join(d, f"{pid}.{v}.json")
    if not os.path.exists(p):
        continue
    e = json.load(open(p))
    os.remove(p)
    if out is None:
        out = e
        out["coverage"]["variant"] = [v]
        continue
    c, x = out["coverage"], e["coverage"]
    for k in ("states", "transitions", "traces_validated_against_impl", "applications", "distinct_nontrivial"):
        c[k] += x[k]
    for k in ("thread_schedules", "scheduling_points"):
        if k in x:
            c[k] = x[k]
    c["max_schedule_length"] = max(c["max_schedule_length"], x["max_schedule_length"])
    c["exhaustive"] = c["exhaustive"] and x["exhaustive"]
    c["variant"].append(v)
    c["samples"] = (c["samples"][:3] + x["samples"][:3])
    out["wall_s"] += e["wall_s"]
    out["violations"] = max(out["violations"], e["violations"])
json.dump(out, open(os.path.join(d, f"{pid}.json"), "w"), indent=2)
