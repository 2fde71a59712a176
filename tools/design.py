"""Fill the tables of DESIGN.md from known_findings.json, seeded/*/meta.json and planted.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(ROOT, "tools/DESIGN.tmpl")).read()
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
rows = []
for f in kf:
    if f["status"] == "fixed":
        what = f["what"].split(f["commit"], 1)[1].strip()
        rows.append(f"| {f['property']} | {f['commit']} | {what} |")
text = text.replace("@FIXED@", "\n".join(rows))
pl = json.load(open(os.path.join(ROOT, "tools/planted.json")))
rows = ["| planted change | property | needs | at first | now |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    first = "missed" if i in pl["missed_at_first"] or i in pl["missed"] else "caught"
    now = "missed" if i in pl["missed"] else "caught"
    rows.append(f"| {i}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {first} | {now} |")
text = text.replace("@PLANTED@", "\n".join(rows))
mut = os.path.join(ROOT, "tools/mutation.md")
text = text.replace("@MUTATION@", open(mut).read() if os.path.exists(mut) else "(none yet)")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
