"""Write properties.jsonl and MANIFEST.json from props_meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props_meta import P
NOTE = ("Decides, for every input at once, that the analysed functions' value graphs (results, effects, guards, lock contexts, order of dependent effects) equal those of hand-reviewed reference contracts, "
        "plus interface tables; trusts the contracts, the engine's normalisation, Python semantics and third-party libraries. Not a machine-checked proof.")
TECH = "static value-graph comparison with reference contracts (gated symbolic dataflow over the syntax tree, interprocedural expansion) and interface lints"
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["tests"],
                            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
        if q["na"]:
            na.append({"property": q["id"], "reason": q["na"]})
        else:
            assert os.path.exists(os.path.join(HERE, "props", q["id"].lower() + ".py")), q["id"]
            checks.append({"property": q["id"], "quick_cmd": "python3 check.py " + q["id"], "thorough_cmd": "python3 check.py " + q["id"] + " --tier thorough",
                           "technique": q["tech"] or TECH, "level": "other", "level_note": q["note"] or NOTE})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa props check.py", "checks": checks, "not_applicable": na,
           "notes": "Everything is decided from the syntax trees of /repo's current source; nothing of /repo is imported or run."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
