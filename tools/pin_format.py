"""Pins the format of the files of the current tree (run once, at the release whose files have to stay readable)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, "lib"), os.path.join(R, "rules")]
from facts import Facts
from serial import Serial
import c43
F = Facts(sys.argv[1])
S = Serial(F)
read = S.read_from_json()
types, defaults = {}, {}
for t in S.reach([x for x in read if S.derived(x, "Deserialize")]):
    if not S.derived(t, "Deserialize"):
        continue
    l = S.layout(t)
    l["path"], l["at"] = t, "%s:%s" % tuple(F.adts[t]["span"][:2])
    types[t.split("::")[-1] if t.split("::")[-1] not in types else t] = l
    for v in F.adts[t]["variants"]:
        for f in v["fields"]:
            for m in S.mentioned(f["ty"]):
                if f["ty"] == m and "serde(default" in str(f["attrs"]):
                    defaults[m] = c43.default_of(F, m)
json.dump({"types": types, "read": sorted(x.split("::")[-1] for x in read if x in F.adts and S.derived(x, "Deserialize")), "defaults": defaults},
          open(os.path.join(R, "lib", "format.json"), "w"), indent=0, sort_keys=True)
print(len(types), sorted(types), defaults)
