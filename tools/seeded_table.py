"""Rewrites the table of planted bugs in DESIGN.md (between its two markers) from seeded/*/meta.json.
A bug is caught by its property's check unless meta.json says "caught": "no"."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | what it needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], cell(m["what_it_breaks"]), cell(m["needs"]), m.get("caught", "the check of " + m["property"])))
p = root + "/DESIGN.md"; t = open(p).read()
t = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
