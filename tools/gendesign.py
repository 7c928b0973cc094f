"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "X02-move-edge": "first missed; hand-built automata with overlapping transitions added",
    "V02-data-pointer": "first missed; data added after a first relocation",
    "P02-stray-siblings": "first missed; bases with several references, more cases",
    "P03-nonloop-rec": "first missed; left-recursive grammars added to P03",
    "P04-bitmap-range": "first caught late; first-character sweep added",
    "P08-stale-cache": "first missed; texts changed in place in one buffer",
    "P10-parse-offset": "first missed; long texts added",
    "P07-scan-swallow": "first missed; scans on small stacks compared with scans on the default stack",
    "V02-blob-size": "first missed; string and block relocations added",
    "V02-table-added": "first missed; service tables replaced in running programs",
    "J02-tostring-null": "first missed; to_string compared",
    "P09-parent-wide": "first missed; trees with thousands of siblings and levels added",
}
try:
    MISSED.update(json.load(open(os.path.join(V, "tools", "missed.json"))))
except OSError:
    pass
rows = ["| bug | check that reports it | what it breaks | note |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f)); n = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"].replace("\n", " ").replace("|", "/"), MISSED.get(n, "")))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- seeded:begin -->.*<!-- seeded:end -->", lambda m: "<!-- seeded:begin -->\n" + "\n".join(rows) + "\n<!-- seeded:end -->", s, flags=re.S)
open(p, "w").write(s)
