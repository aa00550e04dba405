""" Regenerate MANIFEST.json from simkit/props/*.json and properties.jsonl (run by hand, output committed). """
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") if line.strip()]
reasons = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json"), encoding="utf-8"))
checks = []
for path in sorted(glob.glob(os.path.join(ROOT, "simkit", "props", "*.json"))):
    info = json.load(open(path, encoding="utf-8"))
    pid = os.path.basename(path)[:-5].upper()
    checks.append({"property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough",
                   "technique": info.get("technique", "deterministic simulation with fault injection (seeded search)"),
                   "level": info["level"],
                   "level_note": info.get("level_note") or
                   "Seeded search over plans (" + info["measure"] + ") No exhaustiveness. Assumes: "
                   + "; ".join(info["assumptions"]) + ". Stubs: " + ", ".join(info["stubs"]) + "."})
claimed = {c["property"] for c in checks}
doc = {"version": 1, "setup_cmd": "./check setup", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": reasons.get(p["id"], "check not built yet")} for p in props if p["id"] not in claimed],
       "notes": "No hook in /repo is needed: the seams are module attributes and public protocol methods (DESIGN.md, "
                "'Seams'). /repo only carries fix: commits (KNOWN_FINDINGS.txt)."}
missing = claimed - {p["id"] for p in props}
assert not missing, missing
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as file:
    json.dump(doc, file, indent=1)
    file.write("\n")
print(len(checks), "checks,", len(doc["not_applicable"]), "not applicable")
