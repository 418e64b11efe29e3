"""Writes MANIFEST.json from properties.jsonl, the checks that exist and the notes below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
T = "TLA+ specification checked by TLC; "
TV = T + "traces of the real code validated against it by TLC"
TR = T + "behaviours generated by TLC replayed into the real code"
NOTES = {}
exec(open("tools/notes.py").read())
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(f"harness/vp/checks/{i.lower()}.py") and i in NOTES:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "specification planned, its check is not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
