#!/usr/bin/env python3
"""mktable.py: writes the table of planted bugs into DESIGN.md (a development tool, not used by any check)."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    m = json.load(open(f)); c = lambda t: " ".join(str(t).split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], c(m["what_it_breaks"]), c(m["needs"])))
p = os.path.join(HERE, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
