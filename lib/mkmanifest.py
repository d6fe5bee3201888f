import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in props.P:
        d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
             "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
             "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
                         "observe_at": q["observe"], "hook_needed": None}}
        if q["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in q["state"]]
        f.write(json.dumps(d) + "\n")
have = [q for q in props.P if os.path.exists(os.path.join(V, "checks", q["id"].lower() + ".py"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": props.NA}
for q in have:
    m["checks"].append({"property": q["id"], "quick_cmd": "python3 checks/%s.py quick" % q["id"].lower(),
                        "thorough_cmd": "python3 checks/%s.py thorough" % q["id"].lower(),
                        "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"],
                        "level": "model_checking", "level_note": q["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for q in props.P:
    assert len(q["title"]) <= 80, q["id"]
    n = q["statement"].count(". ") + 1
    if n > 3: print("statement too long", q["id"], n)
    for fn in q["files"]:
        if not os.path.exists(os.path.join("/repo", fn)): print("no file", q["id"], fn)
print(len(props.P), "properties,", len(have), "checks")
