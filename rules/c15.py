"""In-memory caches of stored data agree with the database."""
import re
from stores import *
from rules.c13 import surfaced


def key_of(x):
    return strip_pos(x.args[1]) if len(x.args) > 1 else None


def check(c):
    F = c.F
    c.rule = """For each store that keeps a map in memory next to its database: an entry that claims something about the database is
    only made where the corresponding statement (or the commit of its transaction) is known to have succeeded, and it is made
    whenever that statement succeeds, for the same unit and with the value the statement established; operations that
    delete many rows clear the map or update it row by row; a map that answers queries by itself is loaded with every row
    when the store is opened, and an absent entry is answered as absent from the database."""
    n = 0
    for s in stores(F):
        fields = [f["name"] for f in F.adts[s.adt]["variants"][0]["fields"] if "Map<" in f["ty"] or any(
            a in f["ty"] and any("Map<" in g["ty"] for v in F.adts[a]["variants"] for g in v["fields"]) for a in F.adts)]
        short = s.adt.split("::")[-1]
        for fld in fields:
            n += 1
            me = mk("F", mk("P", 1), fld)
            bare = re.search(r"Ustr, bool\b", next(f["ty"] for f in F.adts[s.adt]["variants"][0]["fields"]
                                                   if f["name"] == fld)) is not None

            def mine(x):
                return x.recv is not None and mentions(x.recv, lambda t: t is me) and x.name.split("::")[-1] in CACHEOPS
            for o in s.ops:
                k = "%s.%s/%s" % (short, fld, o.name)
                surfaced(c, [o.path], k)
                ws = o.writes()
                ms = [x for x in o.other if mine(x)]
                clears = [x for x in ms if x.name.split("::")[-1] == "clear" and not oddconds(x)]
                for x in o.assigned:
                    if mentions(x.args[0], lambda t: t is me):
                        c.ob(k + "/assigned", empty(x.args[1]), x.where(), "the map is set to %s" % show(x.args[1], 4)[:200])
                        clears += [x] if empty(x.args[1]) and not oddconds(x) else []
                tx = [x.conn for x in ws if is_tx(x.conn)]

                def success(x, w):
                    if is_tx(w.conn):
                        return any(f.op == "is" and f.a[1] == "POS" and f.a[0].op == "C" and f.a[0].a[1] is w.conn and
                                   f.a[0].a[0].split("::")[-1] == "commit" for f in x.facts)
                    return succeeded(x.facts, w)
                late = [x for x in clears if not all(early(x, o, w) for w in ws)]
                for x in late:
                    c.fail(k + "/cleared-late", x.where(), "rows may be gone while the map still has them: the map is only cleared if "
                           "everything after the first deletion succeeds as well")
                clears = [x for x in clears if x not in late]
                bounds(c, k, o, ws, F)
                upd = {}
                for x in ms:
                    last = x.name.split("::")[-1]
                    if last == "entry" or last == "or_insert" and bare and x.args[-1] is FALSE:
                        continue     # an entry only made where there is none, which says that the unit is not stored
                    if last in ("clear", "remove", "retain", "pop_front", "pop_back", "get_mut", "or_default"):
                        if last in ("remove",) and bare:
                            for w in ws:
                                if success(x, w) and w.one()["k"] == "delete":
                                    upd[w] = x
                        continue
                    val = x.args[2] if len(x.args) > 2 else None
                    absent = any(f.op == "is" and f.a[1] == "NEG" and f.a[0].op == "C" and
                                 f.a[0].a[0].split("::")[-1] in ("get", "contains_key") and f.a[0].a[-1] is x.args[1]
                                 for f in x.facts) if len(x.args) > 1 else False
                    if bare and val is FALSE and absent:
                        c.ob(k + "/absent-memo", True, x.where(), "")
                        continue
                    ok = [w for w in ws if success(x, w)]
                    if not c.ob("%s/%s-after-success" % (k, last), ok, x.where(),
                                "the map is changed although the database may not have been"):
                        continue
                    if bare:
                        same_key = [w for w in ok if w.params and any(strip_pos(p) is key_of(x) for p in w.params)]
                        c.ob(k + "/same-unit", same_key, x.where(), "the map's entry %s is not the unit of the statement" %
                             show(key_of(x), 4))
                        for w in same_key:
                            d = w.one()
                            want = TRUE if d["k"] in ("insert", "replace") else FALSE if d["k"] == "delete" else None
                            c.ob("%s/value/%s" % (k, d["k"]), val is want, x.where(), "the map records %s after a %s" % (
                                val and show(val), d["k"]))
                            upd[w] = x
                    else:
                        for w in ok:
                            upd[w] = x
                for w in ws:
                    d = w.one()
                    if clears:
                        c.ob("%s/follows/%s" % (k, d["k"]), True, w.site.where(), "the map is cleared")
                        continue
                    x = upd.get(w)
                    if not c.ob("%s/follows/%s %s" % (k, d["k"], d.get("table")), x is not None, w.site.where(),
                                "the database changes here but the map does not follow: %s" % w.text):
                        continue
                    allow = set(oddconds(w.site))
                    bad = [g for g in oddconds(x) if g not in allow and not known_loop(g)]
                    c.ob("%s/always/%s %s" % (k, d["k"], d.get("table")), not bad, x.where(),
                         "the map follows the database only if %s" % "; ".join(show(g, 5)[:200] for g in bad))
                if not o.stmts and bare and "bool" in o.f.locals[0]:
                    # answered from the map alone
                    get = None
                    ok = True
                    for p, fs in pos_rets(o.r):
                        for t, g in alts(p):
                            if t is FALSE:
                                ok = ok and any(y.op == "is" and y.a[1] == "NEG" for y in g)
                            else:
                                ok = ok and t.op == "C" and t.a[0].split("::")[-1] == "get" and t.a[-1] is mk("P", 2) or \
                                    ok and mentions(t, lambda z: z.op == "C" and z.a[0].split("::")[-1] == "get" and
                                                    z.a[-1] is mk("P", 2)) and t is not TRUE
                    c.ob(k + "/answer", ok, o.where(), "the answer is not the map's entry for the unit: %s" % show(o.r.ret, 6))
                    for y in s.ctors:
                        for x in y.other:
                            if x.name.split("::")[-1] in PARTIAL:
                                c.fail("%s.%s/%s/partial" % (short, fld, y.name), x.where(), "only some of the stored entries are loaded (%s)" %
                                       x.name.split("::")[-1])
                        loads = [x for x in y.other if x.name.split("::")[-1] == "insert" and x.loop and len(x.args) == 3 and
                                 x.args[2] is TRUE and row_value(key_of(x))]
                        good = False
                        for x in loads:
                            q = query_of(row_value(key_of(x))[0])
                            if q and q["where"] is None and q["limit"] is None and not oddconds(x):
                                good = True
                        for x in y.other:
                            if x.name.split("::")[-1] == "extend" and len(x.args) == 2 and not oddconds(x):
                                for t, g in elems(x.args[1]):
                                    r = field(t, "1") is TRUE and row_value(strip_pos(field(t, "0")))
                                    q = r and query_of(r[0])
                                    good = good or bool(q) and q["where"] is None and q["limit"] is None
                        bulk = not loads and field_loaded(y, fld)
                        c.ob("%s.%s/%s/loaded" % (short, fld, y.name), good or bulk, y.where(),
                             "the map is not loaded with every stored entry when the store is opened")
    c.floor("maps kept next to a database", n, 2)


PARTIAL = set("""skip take step_by take_while skip_while dedup dedup_by dedup_by_key truncate nth last split_off pop swap_remove""".split())


def early(x, o, w):
    """The map is cleared even if something fails after the statement w changed the database."""
    if is_tx(w.conn):
        return True
    cs = {f.a[0] for f in x.facts if f.op == "is" and f.a[1] == "POS"} | {
        f.a[1].a[0] for f in x.facts if f.op == "all" and f.a[1].op == "is" and f.a[1].a[1] == "POS"}
    if w.call in cs and loops(w.site):
        return False
    return not any(y is not w and y.call in cs and holds(y.site.facts, fact(w.call, "POS")) for y in o.stmts)


def bounds(c, k, o, ws, F):
    """A statement that limits the stored rows keeps at least as many as the map remembers."""
    most = []
    for x in o.other:
        if x.name.split("::")[-1] == "pop_front":
            for f in x.facts:
                if f.op == "is" and f.a[0].op == "B" and f.a[0].a[0] in ("Lt", "Le", "Gt", "Ge", "Eq"):
                    most += [int(t.a[1]) for t in f.a[0].a[1:] if t.op == "K" and str(t.a[1]).isdigit() and
                             any(u.op == "C" and u.a[0].split("::")[-1] == "len" for u in f.a[0].a[1:])]
    for w in ws:
        if w.one()["k"] != "delete" or not most:
            continue
        for r in deletes(w)[1]:
            if r[0] == "beyond" and r[1][0] == "num":
                c.ob(k + "/remembers-what-is-kept", r[1][1] >= max(most), w.site.where(),
                     "the map remembers up to %d rewards of a unit, but only %d are kept" % (max(most), r[1][1]))


def empty(v):
    """A collection without elements, or a value made of such."""
    if v.op == "S":
        return not v.a
    return v.op == "A" and len(v.a) > 2 and all(empty(x) for _, x in v.a[2:])


def known_loop(g):
    return g.op == "Next"


def field_loaded(y, fld):
    """The constructor returns the field as a collection built from every row of an unrestricted select."""
    for p, _ in pos_rets(y.r):
        v = field(p, fld)
        for t, g in elems(v):
            rv = None

            def look(z):
                nonlocal rv
                r = row_value(z)
                if r:
                    rv = r
                return False
            mentions(t, look)
            if rv:
                q = query_of(rv[0])
                if q and q["where"] is None and q["limit"] is None:
                    return True
    return False
