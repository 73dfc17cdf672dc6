"""Write properties.jsonl and MANIFEST.json from catalog.py."""
import json, os
import catalog, props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in catalog.C]
assert len(ids) == len(set(ids))
with open(V + "/properties.jsonl", "w") as f:
    for p in catalog.C:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in catalog.C:
    if p["_na"]:
        na.append({"property": p["id"], "reason": p["_na"]})
        continue
    assert p["id"] in props.PROPS, p["id"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3-vt engine/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3-vt engine/check.py %s --tier thorough" % p["id"],
        "technique": p["_tech"], "level": "model_checking", "level_note": p["_note"],
        "evidence_file": "evidence/%s.json" % p["id"]})
for k in props.PROPS:
    if k not in ids:
        print("not in the catalog:", k)
m = {"version": 1, "setup_cmd": "python3-vt engine/setup_check.py",
     "checks": checks,
     "hooks": {"guard": "VERIF_HOOKS",
               "enable": "no hooks are needed: harnesses in /verif include /repo's headers and sources as they are",
               "source_commits": []},
     "not_applicable": na,
     "notes": "Engine: engine/check.py compiles harness/*.cc with /repo's current headers to LLVM IR (clang 18), "
              "executes the IR symbolically and decides every assertion with Z3; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
d = open(V + "/DESIGN.md").read()
a, rest = d.split("<!-- PROPS -->", 1)
b = rest.split("<!-- END -->", 1)[1]
t = "<!-- PROPS -->\n## Properties (generated by engine/gen.py)\n"
for p in catalog.C:
    t += "\n### %s %s\n%s\n\n*Quantifier*: %s. *Why not tests*: %s.\n" % (
        p["id"], p["title"], p["statement"], p["quantifier"]["text"], p["why_tests_cant"])
    if p["_na"]:
        t += "\n*Not applicable*: %s\n" % p["_na"]
    else:
        sp = props.PROPS[p["id"]]
        ts = sp["tasks"]
        t += "\n*Check*: %s %d tasks (%d in the quick tier), entries %s.%s\n" % (
            p["_note"], len(ts), sum(1 for x in ts if x.get("tier", "quick") == "quick"),
            ", ".join("`%s:%s`" % k for k in sorted({(x["src"], x["entry"]) for x in ts})),
            " " + sp["bounds"] if sp.get("bounds") else "")
import glob
seeds = sorted(glob.glob(V + "/seeded/*/meta.json"))
res = json.load(open(V + "/seeded_results.json")) if os.path.exists(V + "/seeded_results.json") else {}
if seeds:
    t += "\n## Seeded bugs and what catches them (generated)\n| bug | property | needs | result |\n|---|---|---|---|\n"
    for s in seeds:
        m = json.load(open(s)); n = os.path.basename(os.path.dirname(s))
        t += "| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"], res.get(n, "not run"))
open(V + "/DESIGN.md", "w").write(a + t + "<!-- END -->" + b)
