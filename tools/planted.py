# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"].replace("|", "/").replace("\n", " "), m["property"]))
L = open(V + "/DESIGN.md").read().split("\n")
i = next(k for k, l in enumerate(L) if l.startswith("| planted bug |")) + 2; j = i
while L[j].startswith("|"): j += 1
L[i:j] = rows; open(V + "/DESIGN.md", "w").write("\n".join(L)); print(len(rows), "planted bugs")
