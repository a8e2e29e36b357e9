"""Files written for this release stay readable."""
import json
import os
import re

from serial import ONE_WAY, Serial

FORMAT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "format.json")


def check(c):
    F = c.F
    S = Serial(F)
    c.rule = """The format of the JSON files of this release (keys, variants, which are required, the shape of each value, pinned in
    lib/format.json) is compared with what the current types accept, from their declarations and serde attributes: every key and variant is
    still accepted by a field of the same shape, nothing new is required, a missing key still means the same, unknown keys are still let
    through."""
    want = json.load(open(FORMAT))
    by = {}
    for t in F.adts:
        by.setdefault(t.split("::")[-1], []).append(t)
    read = S.read_from_json()
    n = 0
    for name, old in sorted(want["types"].items()):
        ts = [old["path"]] if old["path"] in F.adts else by.get(name, [])
        if not c.ob("type/" + name, len(ts) == 1, old["at"], "%s, which files contain, is not found" % name):
            continue
        t = ts[0]
        at = "%s:%s" % tuple(F.adts[t]["span"][:2])
        if not c.ob("derived/" + name, S.derived(t, "Deserialize") is True, at, "%s is no longer read the derived way" % t):
            continue
        new = S.layout(t)
        c.ob("strict/" + name, not new["strict"] or old["strict"], at, "%s no longer lets unknown keys through" % t)
        c.ob("form/" + name, new["odd"] == old["odd"] and new["kind"] == old["kind"], at, "%s is read differently: %s" % (t, new["odd"] or new["kind"]))
        for vn, ov in old["variants"].items():
            nv = next((v for v in new["variants"].values() if vn in v["names"]), None) if old["kind"] == "Enum" else next(iter(new["variants"].values()), None)
            n += 1
            if not c.ob("variant/%s/%s" % (name, vn), nv is not None, at, "%s no longer accepts %s" % (t, vn)):
                continue
            c.ob("variant-form/%s/%s" % (name, vn), (nv["odd"], nv["tuple"], nv["unit"]) == (ov["odd"], ov["tuple"], ov["unit"]), at, "%s %s is read differently" % (t, vn))
            for k, ok in ov["keys"].items():
                n += 1
                nk = next((x for x in nv["keys"].values() if k in x["names"]), None)
                lab = "%s.%s" % (vn, k) if old["kind"] == "Enum" else k
                if not c.ob("key/%s/%s" % (name, lab), nk is not None and nk["odd"] == ok["odd"], at, "%s no longer reads %s" % (t, lab)):
                    continue
                c.ob("shape/%s/%s" % (name, lab), same(nk["category"], ok["category"]), at, "%s: %s was %s and is %s" % (t, lab, ok["category"], nk["category"]))
                c.ob("required/%s/%s" % (name, lab), ok["required"] or not nk["required"], at, "%s: %s may be missing in existing files" % (t, lab))
                c.ob("default/%s/%s" % (name, lab), ok["required"] or (nk["default"] or "") == (ok["default"] or ""), at,
                     "%s: a missing %s now means %s" % (t, lab, nk["default"]))
            for k, nk in nv["keys"].items():
                if not any(x in ov["keys"] for x in nk["names"]):
                    n += 1
                    c.ob("new/%s/%s.%s" % (name, vn, k), not nk["required"], at, "%s: the new %s is missing in existing files" % (t, k))
        if name in want["read"]:
            c.ob("read/" + name, t in read, at, "%s is no longer read from files" % t)
    for ty, ov in want["defaults"].items():
        n += 1
        got = default_of(F, ty)
        c.ob("meaning/" + ty, got == ov, "%s" % ty, "a missing %s meant %s and means %s" % (ty, ov, got))
    c.floor("keys and variants", n, 120)


NUM = r"\b(?:[iu](?:8|16|32|64|128)|number)\b"


def same(new, old):
    """Whether every value of the old shape is one of the new."""
    return re.sub(NUM, "#", new) == re.sub(NUM, "#", old) and all(holds(a, b) for a, b in zip(re.findall(NUM, new), re.findall(NUM, old)))


def holds(new, old):
    if new == old or new == "number":
        return True
    if old == "number" or new[0] == "u" and old[0] == "i":
        return False
    return int(new[1:]) >= int(old[1:]) + (new[0] != old[0])


def default_of(F, ty):
    from absint import Engine
    import terms
    from terms import show
    ps = [p for p in F.fns if p == "<%s as std::default::Default>::default" % ty]
    if not ps:
        return None
    terms.ORACLE[0] = None
    return show(Engine(F).run(ps[0]).ret, 9)
