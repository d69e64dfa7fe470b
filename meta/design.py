"""Writes DESIGN.md: DESIGN.in.md with the table of planted bugs filled in."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for d in sorted(glob.glob(os.path.join(here, "..", "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | caught |" % (os.path.basename(d), m["property"], m["needs"].replace("|", "/")))
missed = [l.split()[0] for l in open(os.path.join(here, "missed.txt"))] if os.path.exists(os.path.join(here, "missed.txt")) else []
rows = [r.replace("| caught |", "| missed |") if r.split("|")[1].strip() in missed else r for r in rows]
t = "| planted bug | property (check) | needs | result |\n|---|---|---|---|\n" + "\n".join(rows) + "\n\n"
s = open(os.path.join(here, "DESIGN.in.md")).read().replace("SEEDED_TABLE\n", t)
open(os.path.join(here, "..", "DESIGN.md"), "w").write(s)
