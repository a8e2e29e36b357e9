"""A serialized library is the library."""
from q import *
from serial import ONE_WAY, Serial, named, serde
import terms
from terms import *
from absint import Engine


def check(c):
    F = c.F
    S = Serial(F)
    c.rule = """The library made from the serialized form of a library is evaluated symbolically: each of its maps and its graph is the original's,
    entry by entry and unconditionally; only the preferences are new. Every type in the serialized form has derived implementations whose
    attributes write and read every field, under one name, always (the binary form has no names, so a field left out shifts all others).
    Opening a serialized library passes on the one it is given."""
    lib, ser = "course_library::LocalCourseLibrary", "course_library::SerializedCourseLibrary"
    to = [p for p in F.fns if p.startswith("<" + ser + " as std::convert::From<") and p.endswith("::from")]
    back = c.fn("LocalCourseLibrary::new_from_serialized")
    c.ob("conversion", to, "src/course_library.rs", "no conversion of a library to its serialized form found")
    n = 0
    if to and back:
        at = "%s:%s" % tuple(F.fns[back].span[:2])
        terms.ORACLE[0] = None
        E = Engine(F, watch_call=lambda q: q.split("::")[-1] in PART)
        r1 = E.run(to[0])
        r2 = E.run(back, [r1.ret, mk("P", 2)])
        for s in list(r1.sites) + list(r2.sites):
            c.fail("partial/" + s.name.split("::")[-1], s.where(), "%s only keeps some of the entries" % s.name)
        libs = []
        for x, _ in alts(r2.ret):
            c.ob("opened", x.op == "Pos", at, "a serialized library may be refused")
            libs += [y for y, _ in alts(payload(x))] if x.op == "Pos" else []
        fields = [f["name"] for f in F.adts[lib]["variants"][0]["fields"]]
        for l in libs:
            for f in fields:
                n += 1
                v, src = field(l, f), mk("F", mk("P", 1), f)
                if f == "user_preferences":
                    c.ob("restored/" + f, v is mk("P", 2), at, "the preferences are %s" % show(v, 5)[:150])
                    continue
                c.ob("restored/" + f, v is src or same_entries(v, src), at, "%s of the library becomes %s" % (f, show(v, 6)[:250]))
    # the types
    roots = S.reach([ser])
    for t in roots:
        a = F.adts[t]
        at = "%s:%s" % tuple(a["span"][:2])
        for tr in ("Serialize", "Deserialize"):
            c.ob("derived/%s/%s" % (t, tr), S.derived(t, tr) is True, at, "%s of %s is not the derived one" % (tr, t))
        items = [("", a, [])] + [(v["name"], v, serde(a).get("rename_all", [])) for v in a["variants"] if a["kind"] == "Enum"] + \
            [("%s.%s" % (v["name"], f["name"]), f, serde(v).get("rename_all", []) or serde(a).get("rename_all", [])) for v in a["variants"] for f in v["fields"]]
        for nm, it, outer in items:
            n += 1
            odd = sorted(set(serde(it)) & set(ONE_WAY))
            c.ob("kept/%s/%s" % (t, nm), not odd, at, "%s %s is not always written and read: %s" % (t, nm, odd))
            if nm:
                w, r = named(it, outer, "serialize"), named(it, outer, "deserialize")
                c.ob("name/%s/%s" % (t, nm), w == r, at, "%s %s is written as %s and read as %s" % (t, nm, w, r))
    # opening one
    opener = c.fn("Trane::new_local_from_serialized")
    if opener:
        E = Engine(F, opaque=lambda q: q.startswith("Trane::") and q != opener or q == back, watch_call=lambda q: q == back)
        r = E.run(opener)
        ss = [s for s in r.sites if s.name == back]
        c.ob("opens", ss, "%s:%s" % tuple(F.fns[opener].span[:2]), "the serialized library is not opened")
        for s in ss:
            n += 1
            c.ob("opens/library", s.args[0] is mk("P", 2), s.where(), "opens %s" % show(s.args[0], 5)[:100])
    c.floor("fields and types", n, 60)


PART = {"skip", "take", "step_by", "skip_while", "take_while", "nth", "truncate", "drain", "split_off", "dedup", "retain", "filter", "filter_map", "last", "find", "first"}


def same_entries(v, src):
    if v.op != "S" or len(v.a) != 1 or v.a[0][1]:
        return False
    e = v.a[0][0]
    k = mk("E", src)
    return field(e, "0") is mk("F", k, "0") and field(e, "1") is mk("F", k, "1")
