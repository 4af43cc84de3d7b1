"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "default": "runtime monitoring: oracles over recorded calls under seeded workloads",
}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    path = os.path.join(here, "checks", p.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p, "reason": "check under construction"})
        continue
    ns = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) in ("TECHNIQUE", "LEVEL_NOTE"):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({"property": p, "quick_cmd": f"./run.py {p} --tier quick", "thorough_cmd": f"./run.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json", "technique": ns.get("TECHNIQUE", TECH["default"]), "level": "exploration",
        "level_note": ns.get("LEVEL_NOTE", "Held on every execution observed (seeded workloads, counted in the evidence); trusts numpy/scipy and the independent oracles in /verif/lib and the check itself; says nothing about inputs that were not generated.")})
m = {"version": 1, "setup_cmd": "./run.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public API is observed from outside (wrappers, recorded arguments, results, exceptions, callbacks, matplotlib calls)."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
