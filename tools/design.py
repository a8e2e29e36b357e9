"""Writes DESIGN.md from tools/design/*.md, the entries of props.py, the rules' texts and the planted bugs."""
import glob
import importlib.util
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)


def flat(s):
    return re.sub(r"\s+", " ", s or "").strip()


P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique, note, na=None):
    P.append((id, title, statement, quant, tests, technique, note, na))


exec(open("tools/props.py").read())
out = [open("tools/design/head.md").read()]
for id, title, st, quant, tests, tech, note, na in sorted(P):
    if na:
        continue
    m = re.search(r'c\.rule = """(.*?)"""', open("rules/%s.py" % id.lower()).read(), re.S)
    out.append("### %s %s\n\n%s\n\n- Decided by: %s.\n- Rule: %s\n- Holds for: %s.\n- Beyond tests: %s\n%s" % (
        id, title, flat(st), flat(tech), flat(m.group(1)), flat(quant), flat(tests),
        "- Limits: %s\n" % flat(flat(note).replace(flat(COMMON), "")) if flat(flat(note).replace(flat(COMMON), "")) else ""))
t = open("tools/design/tail.md").read()
fx = [l[len("fixed: "):].strip() for l in open("known_findings.txt") if l.startswith("fixed: ")]
t = t.replace("@FIXES@", "\n".join("- %s" % re.sub(r"property=(\S+) (\S+) ", r"\2 (\1): ", l) for l in fx))
rows = []
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("- %s: caught by %s. %s. Needs: %s" % (os.path.basename(d), m["property"], flat(m["what_it_breaks"]), flat(m["needs"])))
t = t.replace("@SEEDED@", "\n".join(rows))
n = {"breaks": 0, "keeps": 0}
for f in glob.glob("tools/battery/*.py"):
    g = {}
    exec(open(f).read(), g)
    for c in g["CASES"]:
        n[c[1]] += 1
t = t.replace("@BREAKS@", str(n["breaks"])).replace("@KEEPS@", str(n["keeps"]))
t = t.replace("@NA@", "\n".join("- %s %s: %s" % (p[0], p[1], flat(p[7])) for p in sorted(P) if p[7]) or "Nothing.")
out.append(t)
open("DESIGN.md", "w").write("\n".join(out))
