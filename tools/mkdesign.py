"""DESIGN.md = design_head.md + reasons for what is not claimed + design_tail.md + table of planted bugs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(n):
    return open(os.path.join(HERE, "tools", n)).read()


titles = {}
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
out = read("design_head.md").rstrip() + "\n\n## 3. Not applicable\n\n"
for n in json.load(open(os.path.join(HERE, "MANIFEST.json")))["not_applicable"]:
    out += "* **%s** %s. %s\n" % (n["property"], titles[n["property"]], n["reason"])
out += "\n" + read("design_tail.md")
out += "| planted bug | needs | caught by |\n|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    out += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["needs"].replace("|", "\\|"), d["property"])
open(os.path.join(HERE, "DESIGN.md"), "w").write(out)
