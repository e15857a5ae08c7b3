"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand after adding one)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", "P" + re.search(r"P(\d+)", m["property"]).group(1) + " quick"), m["what_it_breaks"], m["needs"]))
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
