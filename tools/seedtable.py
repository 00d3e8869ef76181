"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in glob.glob(os.path.join(root, "seeded", "*", "meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
rows = "\n".join("| %s | %s |" % (p, ", ".join(sorted(by[p]))) for p in sorted(by))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
i = s.index("| property | planted bugs |\n|---|---|\n") + len("| property | planted bugs |\n|---|---|\n")
open(p, "w").write(s[:i] + rows + "\n")
