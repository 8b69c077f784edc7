"""regenerates section 7 of DESIGN.md (table of planted bugs) from seeded/*/meta.json and tools/catches.json"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(f"{H}/tools/catches.json"))
rows = []
for p in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    what = re.sub(r"\s+", " ", m["what_it_breaks"]).replace("|", "/")
    rows.append(f"| {i} | {m['property']} | {what[:160]} | {c.get(i, 'not run')} |")
txt = ("## 7. Planted bugs and what catches them\n\nEach applies to original lines, passes the 64 stable tests and has a demonstration "
       "(`seeded/<id>/`). `catch` names the check(s) run and the outcome.\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n"
       + "\n".join(rows) + "\n")
d = open(f"{H}/DESIGN.md").read()
i = d.find("## 7. ")
j = d.find("## 8. ")
d = d[:i if i >= 0 else len(d)] + txt + ("\n" + d[j:] if j >= 0 else "")
open(f"{H}/DESIGN.md", "w").write(d)
