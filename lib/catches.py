"""Rewrites the table of planted bugs in DESIGN.md (between the markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda p: (json.load(open(p))["property"], p)):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"]))
p = V + "/DESIGN.md"
s = open(p).read().replace("CATCHES_TABLE", "<!-- catches -->\n<!-- end -->")
open(p, "w").write(re.sub(r"<!-- catches -->.*<!-- end -->", lambda _: "<!-- catches -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S))
