"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NA
TECH = "symbolic execution of the current source (Python + translated Cython/C++) with z3 deciding every branch and assertion; counterexamples replayed on the real build"
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "/verif/run setup",
     "checks": [{"property": p["id"], "quick_cmd": f"/verif/run {p['id']} quick", "thorough_cmd": f"/verif/run {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p.get("technique", TECH), "level": "model_checking",
                 "level_note": p["note"]} for p in PROPS if not p.get("na")],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]


# ------------------------------------------------------------- DESIGN.md
def design():
    import re
    sys.path.insert(0, H)
    from how import HOW
    o = [open(H + "/tools/design_head.md").read().rstrip("\n"), "", "## 3. Properties", ""]

    def const(pid, k):
        f = f"{H}/harness/{pid.lower()}.py"
        import ast
        if not os.path.exists(f):
            return []
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == k:
                try:
                    return ast.literal_eval(n.value)
                except ValueError:
                    return []
        return []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        i = p["id"]
        o += [f"### {i} {p['title']}", "", f"*Claim.* {p['statement']}", ""]
        if p.get("na"):
            o += [f"*Not applicable:* {p['na']}", ""]
            continue
        o += [f"*How it is decided.* {HOW[i]}", "", "*Bounds.* " + "; ".join(const(i, "BOUNDS")) + ".", ""]
        if const(i, "OUTSIDE"):
            o += ["*Outside.* " + "; ".join(const(i, "OUTSIDE")) + ".", ""]
        if const(i, "ASSUMPTIONS"):
            o += ["*Assumptions.* " + "; ".join(const(i, "ASSUMPTIONS")) + ".", ""]
        o += [f"*Why beyond tests.* {p['why']}.", ""]
    kf = json.load(open(H + "/known_findings.json"))["findings"]
    o += ["## 4. Genuine defects found", "",
          "Each was found by the check of its property (counterexample replayed on the real code), repaired in a `fix:` commit and is reported again if it returns.", "",
          "| property | commit | what failed |", "|---|---|---|"]
    for k in kf:
        o.append(f"| {k['property']} | {k.get('commit', k['status'])} | {k['what']} |")
    o += ["", "## 5. Planted bugs", "",
          "`seeded/<id>/` (patch, demonstration, what it needs). Confirmed with `tools/trybug.sh` (builds, stable tests pass, demo 0 / non-zero).", "",
          "| id | property | what it breaks | caught by |", "|---|---|---|---|"]
    res = json.load(open(H + "/tools/seed_results.json")) if os.path.exists(H + "/tools/seed_results.json") else {}
    for s in sorted(os.listdir(H + "/seeded")):
        f = f"{H}/seeded/{s}/meta.json"
        if not os.path.exists(f):
            continue
        m2 = json.load(open(f))
        o.append(f"| {s} | {m2['property']} | {m2['what_it_breaks']} | {res.get(s, '')} |")
    tail = H + "/tools/design_tail.md"
    if os.path.exists(tail):
        o += ["", open(tail).read().rstrip("\n")]
    open(H + "/DESIGN.md", "w").write("\n".join(o) + "\n")


design()
