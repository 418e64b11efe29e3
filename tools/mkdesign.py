"""DESIGN.md from tools/design.tmpl.md and the tables in tools/design_parts.py."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
exec(open("tools/design_parts.py").read())
exec("T=TV=TR=''\nNOTES={}\n" + open("tools/notes.py").read())
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open("properties.jsonl")}
t = open("tools/design.tmpl.md").read()
props = ""
for i in titles:
    built = os.path.exists(f"harness/vp/checks/{i.lower()}.py") and i in NOTES
    props += f"### {i} {titles[i]}\n\n" + PROPS.get(i, "").strip() + (f"\n\n*Coverage:* {NOTES[i][1]}.\n\n" if built else "\n\n*Not built yet* (listed under not_applicable until it is).\n\n")
specs = "| module | what it specifies |\n|---|---|\n" + "".join(f"| {a} | {b} |\n" for a, b in SPECS)
fixed = "".join(f"- {x[len('fixed: property='):]}\n" for x in json.load(open("known_findings.json"))["fixed"])
kf = json.load(open("known_findings.json"))["findings"]
if kf:
    fixed += "\nRecorded, not repaired (KNOWN-FINDING):\n\n" + "".join(f"- {k['property']} `{k['sig']}`: {k['what']}\n" for k in kf)
seeded = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open(f"seeded/{d}/meta.json"))
    seeded += f"| {d} | {m['property']} | {m['needs']} | {CAUGHT.get(d, m['property'] + ' (quick)')} |\n"
for k, v in (("SPECS", specs), ("PROPS", props), ("FIXED", fixed), ("ALARMS", ALARMS.strip()), ("SEEDED", seeded), ("LIMITS", LIMITS.strip())):
    t = t.replace(f"@@{k}@@", v)
open("DESIGN.md", "w").write(t)
print(len(t))
