"""DESIGN.md from DESIGN.in.md: sections, repairs, planted bugs, refactorings"""
import json, os, re, glob, runpy, sys
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
S = runpy.run_path("tools/design_sections.py")["S"]
notes = json.load(open("tools/notes.json"))
props = {p["id"]: p for p in map(json.loads, open("properties.jsonl"))}
seeds = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob("seeded/*/meta.json"))]
known = json.load(open("known_findings.json"))
cost = json.load(open("tools/cost.json")) if os.path.exists("tools/cost.json") else {}
if "--cost" in sys.argv:
    for f in glob.glob("evidence/C*.json"):
        e = json.load(open(f))
        c = e["coverage"]
        cost[e["property"]] = [c["obligations"], len(c.get("functions_under_contract", [])), round(e["wall_s"])]
    json.dump(cost, open("tools/cost.json", "w"), indent=0, sort_keys=True)
fixed = {}
for l in known["fixed"]:
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
out = []
for c, p in sorted(props.items()):
    spec, rest = S[c]
    src = open(f"pvc/contracts/{c}.py").read()
    m = re.search(r"TRUSTED\s*=\s*(\[.*?\])\n", src, re.S)
    tr = "; ".join(eval(m.group(1))) if m else ""
    o = [f"### {c} {p['title']}", "", f"*Proved:* {spec}"]
    if rest != "-":
        o.append(f"*Outside the proof / assumed:* {rest}" + (f" Trusted: {tr}." if tr else ""))
    elif tr:
        o.append(f"*Trusted:* {tr}.")
    if c in cost:
        o.append(f"*Cost:* {cost[c][0]} obligations, about {cost[c][2]} s.")
    if c in fixed:
        o.append("*Repaired:* " + ", ".join(h for h, _ in fixed[c]) + ".")
    k = [n for n, m in seeds if m["property"] == c]
    o.append("*Planted bugs caught:* " + (", ".join(k) if k else "none planted (mutation runs only)") + ".")
    out.append("  \n".join([o[0], ""] ) + "\n" + "  \n".join(o[2:]) + "\n")
s = open("DESIGN.in.md").read()
s = s.replace("@@SECTIONS@@", "\n".join(out))
s = s.replace("@@FIXES@@", "\n".join("* " + l[7:] for l in known["fixed"]))
s = s.replace("@@NSEEDS@@", str(len(seeds)))
STR = json.load(open("tools/strengthened.json")) if os.path.exists("tools/strengthened.json") else {}
s = s.replace("@@SEEDS@@", "| planted bug | what it breaks | needs | strengthened |\n|---|---|---|---|\n" + "\n".join(
    f"| {n} | {m['what_it_breaks']} | {m.get('needs', '')} | {STR.get(n, '')} |" for n, m in seeds))
n = sum(len(runpy.run_path(f)["L"]) for f in glob.glob("tools/refacs/*.py"))
s = s.replace("@@REFACS@@", str(n))
open("DESIGN.md", "w").write(s)
