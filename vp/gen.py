"""Write properties.jsonl and MANIFEST.json."""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.meta import META
from vp.props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
with open(f"{V}/properties.jsonl", "w") as f:
    for pid, m in sorted(META.items()):
        assert len(m["title"]) <= 80, (pid, len(m["title"]))
        f.write(json.dumps({"id": pid, "title": m["title"], "statement": m["statement"], "quantifier": {"over": m["over"], "text": m["text"]}, "why_tests_cant": m["why"],
          "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in m["state"]], "observe_at": list(m["observe"]), "hook_needed": m["hook"] or None}}) + "\n")
man = {"version": 1, "setup_cmd": "make -C engine", "checks": [{"property": pid, "quick_cmd": f"python3 vp/check.py {pid} quick", "thorough_cmd": f"python3 vp/check.py {pid} thorough", "technique": "symbolic execution of the compiled real code (LLVM IR) with SMT (Z3), counterexamples replayed natively", "level": "model_checking", "level_note": m["note"]} for pid, m in sorted(META.items()) if pid in PROPS],
  "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())], "notes": "engine/ is the symbolic executor built by setup_cmd; vp/check.py rebuilds every image from /repo on each run; known_findings.json lists findings and repaired defects"}
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
