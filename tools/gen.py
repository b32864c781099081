#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the table in DESIGN.md from props.py. A property is claimed when checks/<id>.cpp exists."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import props
PR = sorted(props.PROPS, key=lambda p: p["id"])
assert len({p["id"] for p in PR}) == len(PR)
with open(root + "/properties.jsonl", "w") as f:
    for p in PR:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in PR:
    if os.path.exists(f"{root}/checks/{p['id']}.cpp"):
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
            "technique": "explicit exhaustive exploration of the real code against a reference model (stateless model checking with state caching)",
            "level": "model_checking",
            "level_note": (p["note"] + " " if p["note"] else "") + "Exhaustive within the bounds printed in the evidence; trusts the reference model in checks/" + p["id"] + ".cpp, the explorer in mc/, the compiler and AddressSanitizer."})
    else:
        na.append({"property": p["id"], "reason": p.get("na") or "Its check is not built yet."})
m = {"version": 1, "setup_cmd": "make -j8 setup", "checks": checks, "not_applicable": na,
     "notes": "Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt. No hooks are needed in /repo."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
d = open(root + "/DESIGN.md").read()
b, e = "<!-- table -->\n", "<!-- end table -->\n"
t = "| id | property | how model checking decides it | claimed |\n|---|---|---|---|\n"
for p in PR:
    t += f"| {p['id']} | {p['title']} | {p['method']} | {'yes' if os.path.exists(root + '/checks/' + p['id'] + '.cpp') else 'not yet'} |\n"
d = d[:d.index(b) + len(b)] + t + d[d.index(e):]
open(root + "/DESIGN.md", "w").write(d)
print(len(checks), "claimed;", len(na), "not")

import glob
d = open(root + "/DESIGN.md").read()
if "<!-- plants -->" in d:
    rows = ["| planted | caught by | needs | breaks |", "|---|---|---|---|"]
    for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
    a, b = d.index("<!-- plants -->"), d.index("<!-- end plants -->")
    open(root + "/DESIGN.md", "w").write(d[:a] + "<!-- plants -->\n" + "\n".join(rows) + "\n" + d[b:])
