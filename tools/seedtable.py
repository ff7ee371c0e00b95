"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/missed.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(V + "/tools/missed.json"))
rows = ["| change | property | needs | caught by |", "|-|-|-|-|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], " ".join(d["needs"].replace("|", "/").split()), missed.get(i, d["property"])))
s = open(V + "/DESIGN.md").read()
a = s.index("| change | property |")
b = s.find("\n\n", a)
open(V + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + (s[b:] if b > 0 else "\n"))
