"""Writes /verif/DESIGN.md: general part, one section per property (from the checks and properties.jsonl), findings, planted bugs."""
import ast, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l); props[d["id"]] = d
exec(open(os.path.join(here, "tools", "design_text.py")).read())

def meta(p):
    out = {}
    for node in ast.parse(open(os.path.join(here, "checks", p.lower() + ".py")).read()).body:
        if isinstance(node, ast.Assign):
            n = getattr(node.targets[0], "id", None)
            if n in ("RULE", "QUICK_SCALE", "THOROUGH_SCALE", "REQUIRED_EVENTS"):
                out[n] = ast.literal_eval(node.value)
            if n == "CASES":
                out["CASES"] = [(e.elts[0].id, ast.unparse(e.elts[1]), ast.unparse(e.elts[2])) for e in node.value.elts]
    return out

bugs = {}
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); m["id"] = os.path.basename(os.path.dirname(f))
    bugs.setdefault(m["property"], []).append(m)
fixes = {}
for e in json.load(open(os.path.join(here, "known_findings.json")))["findings"]:
    fixes.setdefault(e["property"], []).append(e["what"].split(" ", 2)[2])

with open(os.path.join(here, "DESIGN.md"), "w") as f:
    w = lambda s="": f.write(s + "\n")
    w(HEAD.strip()); w()
    w("## Properties, one by one"); w()
    for p, d in props.items():
        m = meta(p)
        t = TEXT[p]
        w(f"### {p}: {d['title']}"); w()
        w(t.strip()); w()
        q = m.get("QUICK_SCALE", 16)
        w(f"*Cases* (quick: base x {q}; thorough: base x 10, until 600 s are over): " + ", ".join(f"`{k}` {a}/{b}" for k, a, b in m["CASES"]) + ". "
          f"*Required observations:* " + (", ".join(f"{v} {k}" for k, v in m.get("REQUIRED_EVENTS", {}).items()) or "none") + ".")
        w(f"*Why tests cannot:* {d['why_tests_cant']}")
        if p in fixes:
            w("*Defects it found (repaired):* " + "; ".join(fixes[p]) + ".")
        if p in bugs:
            w("*Planted bugs it catches:* " + "; ".join(f"`{b['id']}` ({b['needs']})" for b in bugs[p]) + ".")
        w()
    w(TAIL.strip())
