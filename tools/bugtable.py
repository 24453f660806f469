"""Writes the table of planted bugs into DESIGN.md from seeded/ and detection logs (tools/detections.json)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(f"{V}/tools/detections.json")) if os.path.exists(f"{V}/tools/detections.json") else {}
rows = ["<!-- TABLE -->", "| planted bug | what it needs | caught by | note |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    x = det.get(i, {})
    rows.append(f"| {i} | {m['needs']} | {', '.join(x.get('by', [])) or '-'} | {x.get('note', '')} |")
s = open(f"{V}/DESIGN.md").read()
s = s.split("<!-- TABLE -->")[0] + "\n".join(rows) + "\n"
open(f"{V}/DESIGN.md", "w").write(s)
