"""Fills the generated lists of DESIGN.md (between markers) from known_findings.jsonl and seeded/*/meta.json."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = [json.loads(l) for l in open(f"{V}/known_findings.jsonl")]
fixed = "\n".join(f"* {d['property']} {d['commit']}: {d['what']}" for d in known if d["status"] == "fixed")
open_ = "\n".join(f"* {d['property']} (section {d.get('section', 'any')}, key {d['key']}): {d['what']}" for d in known if d["status"] != "fixed")
rows = []
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
seeds = "| change | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows)
t = open(f"{V}/DESIGN.md").read()
for name, text in (("FIXED", fixed), ("KNOWN", open_), ("SEEDS", seeds)):
    t = re.sub(rf"<!-- {name} -->(.*?<!-- end {name} -->)?", lambda _: f"<!-- {name} -->\n\n{text}\n\n<!-- end {name} -->", t, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(t)
