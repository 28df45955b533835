"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = []
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s |" % (d.split("/")[1], m["needs"].strip().replace("|", "/")))
t = "<!-- planted -->\n%d planted bugs, each caught by the quick check of the property in its name.\n\n| planted bug | what it needs in order to manifest |\n|---|---|\n%s\n<!-- /planted -->" % (len(rows), "\n".join(rows))
s = open("DESIGN.md").read()
s = s.replace("PLANTED_TABLE", "<!-- planted --><!-- /planted -->").replace(" (PLANTED_COUNT of PLANTED_COUNT at the last full run)", "")
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
