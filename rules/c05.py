"""Sharing across threads is sound."""
from q import *


def check(c):
    F = c.F
    c.rule = """The type checker's own trait solver decides, for the facade and every type reachable inside it, whether it may be
    sent to and shared between threads, looking at the fields alone; no hand-written assertion (unsafe impl of
    Send/Sync), no unsafe code and no mutable static may exist that would bypass that decision."""
    t = F.adts.get("Trane")
    if not c.ob("anchor/Trane", t, "", ""):
        return
    seen, st = set(), ["Trane"]
    n = 0
    while st:
        a = st.pop()
        if a in seen or a not in F.adts:
            continue
        seen.add(a)
        for v in F.adts[a]["variants"]:
            for f in v["fields"]:
                n += 1
                import re
                gen = re.fullmatch(r"[A-Z]\w?|.*[<( ][A-Z][,>) ].*", f["ty"]) is not None
                if not gen:
                    for tr in ("send", "sync"):
                        c.ob("field/%s.%s/%s" % (a, f["name"], tr), f[tr], "%s:%s" % tuple(F.adts[a]["span"][:2]),
                             "field %s: %s of %s is not %s" % (f["name"], f["ty"], a, tr))
                for b in F.adts:
                    if re.search(r"(?<![\w:])" + re.escape(b) + r"(?![\w:])", f["ty"]):
                        st.append(b)
                for tr in re.findall(r"dyn ([\w:]+)", f["ty"]):
                    for im in F.impls:
                        if im["trait"] == tr and im["self_adt"]:
                            st.append(im["self_adt"])
    for tr in ("send", "sync"):
        c.ob("Trane/" + tr, t[tr], "%s:%s" % tuple(t["span"][:2]), "the facade must be %s by construction" % tr)
    c.floor("types reachable from the facade", len(seen), 20)
    c.analysed["fields"] = n
    for im in F.impls:
        if im["unsafe"]:
            c.fail("unsafe-impl/%s for %s" % (im["trait"], im["self"]), str(im.get("span", "")),
                   "unsafe impl %s for %s bypasses the compiler's check" % (im["trait"], im["self"]))
    c.ob("no-unsafe-impl", not any(i["unsafe"] for i in F.impls), "", "%d impls examined" % len(F.impls))
    c.floor("impls examined", len(F.impls), 100)
    user = [u for u in F.unsafes if not u.get("expn")]
    for u in user:
        c.fail("unsafe/%s/%s" % (u["kind"], u["owner"]), "%s:%s" % tuple(u["span"][:2]), "unsafe code")
    c.ob("no-unsafe-code", not user, "", "%d compiler-generated unsafe blocks ignored" % (len(F.unsafes) - len(user)))
