"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development tool)."""
import glob, json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in glob.glob(os.path.join(HERE, "seeded", "*")):
    m = json.load(open(os.path.join(d, "meta.json")))
    files = re.findall(r"^\+\+\+ b/(\S+)", open(os.path.join(d, "patch.diff")).read(), re.M)
    rows.append((m["property"], os.path.basename(d), ", ".join(sorted({os.path.basename(f) for f in files})), " ".join(m["needs"].split())[:200].replace("|", "/")))
text = "| caught by | planted bug | file | needs |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + text + s[j:])
