#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md section 4 from seeded/*/meta.json (an authoring aid; no check uses it)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text()); p = (d / "patch.diff").read_text(errors="replace")
    files = ", ".join("`%s`" % f.split("/")[-1] for f in re.findall(r"\+\+\+ b/geometrix/(\S+)", p))
    rows.append("| %s | %s | %s | %s |" % (d.name, files, m["needs"].replace("|", "/"), m["property"]))
t = (root / "DESIGN.md").read_text()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
body = a + "| change | file | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + b
t = t[:t.index(a)] + body + t[t.index(b) + len(b):]
(root / "DESIGN.md").write_text(t)
