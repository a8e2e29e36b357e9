"""Reads return the most recent records first; trimming keeps the most recent."""
from stores import *
from rules.c13 import surfaced


def check(c):
    c.rule = """Every store operation taking a number of records is resolved to the rows it selects. Reads: one select of the records
    of exactly the given unit, most recent timestamp first, limited to the given number, each row returned unchanged and in
    that order. Trims: for every unit in the store, exactly the rows beyond the given number of most recent ones are
    deleted, identified by row (not by timestamp). Trims while recording: a constant number of rewards is kept for the unit
    being recorded, and at least as many as any read asks for by default."""
    reads = trims = 0
    for s in stores(c.F):
        for o in s.ops:
            k = "%s/%s" % (s.adt.split("::")[-1], o.name)
            tys = [t for t in o.f.locals[1:o.f.argc + 1]]
            if not o.mut and "u32" in tys[-1] and len(tys) == 3:
                reads += 1
                qs = [x for x in o.stmts]
                if not c.ob(k + "/one-query", len(qs) == 1 and qs[0].one() and qs[0].one()["k"] == "select", o.where(),
                            "%d statements" % len(qs)):
                    continue
                d = bind(qs[0].one(), qs[0].params)
                w = qs[0].site.where()
                cs = [x for x in sql.conjuncts(d["where"]) + d["on"] if not joins(x)]
                u = who(cs[0]) if len(cs) == 1 else None
                c.ob(k + "/unit", u == ("unit", mk("P", 2)), w, "does not select exactly the given unit's rows: %s" % qs[0].text)
                c.ob(k + "/order", recent_first(d), w, "rows are not ordered by descending timestamp: %s" % qs[0].text)
                c.ob(k + "/limit", d["limit"] == ("T", mk("P", 3)) and d["offset"] is None, w,
                     "not limited to the number asked for: %s" % qs[0].text)
                c.ob(k + "/distinct", not d.get("distinct") and not d.get("group"), w, "rows are merged: %s" % qs[0].text)
                for x in o.other:
                    if x.name.split("::")[-1] in ORDERISH:
                        c.fail("%s/%s" % (k, x.name.split("::")[-1]), x.where(), "the rows are reordered or dropped by %s"
                               % x.name)
                for p, fs in pos_rets(o.r):
                    es = elems(p)
                    ok = len(es) == 1
                    for t, g in es:
                        odd = [f for f in g if f.op == "is" and not (f.a[1] == "POS" and row_value(f.a[0]))]
                        rows = {rv[0] for rv in row_reads(t)}
                        ok = ok and not odd and len(rows) == 1
                    c.ob(k + "/all-rows", ok, o.where(), "the result is not one entry per row: %s" % show(p, 5)[:300])
            elif o.mut and "u32" in tys[-1] and len(tys) == 2:
                trims += 1
                surfaced(c, [o.path], k)
                ds = o.writes()
                if not c.ob(k + "/deletes", ds, o.where(), "nothing is deleted"):
                    continue
                for x in ds:
                    d = x.one()
                    if not c.ob(k + "/only-deletes", d and d["k"] == "delete", x.site.where(), "writes %s" % x.text):
                        continue
                    t, rs = deletes(x)
                    ok = len(rs) == 1 and rs[0][0] == "beyond" and rs[0][1] == ("T", mk("P", 2)) and \
                        rs[0][2] and rs[0][2][0] == "every"
                    c.ob(k + "/beyond-the-limit", ok, x.site.where(),
                         "the rows deleted are not exactly those beyond the given number of most recent ones of each unit: %s"
                         % x.text)
                    if x.params and mentions(mk("Arr", *x.params), lambda t: t.op == "E"):
                        c.ob(k + "/all-units", x.site.loop, x.site.where(), "only one unit is trimmed")
                    c.ob(k + "/every-unit", not oddconds(x.site), x.site.where(),
                         "the delete is skipped depending on %s" % [show(b, 5)[:150] for b in oddconds(x.site)])
                for x in o.other:
                    if x.name.split("::")[-1] in ORDERISH:
                        c.fail("%s/%s" % (k, x.name.split("::")[-1]), x.where(), "units are skipped by %s" % x.name)
            else:
                for x in o.writes():
                    d = x.one()
                    if d and d["k"] == "delete" and not any(y in o.name for y in ("remove", "trim")):
                        t, rs = deletes(x)
                        ok = len(rs) == 1 and rs[0][0] == "beyond" and rs[0][1][0] == "num" and rs[0][1][1] >= 10 and \
                            rs[0][2] and rs[0][2][0] == "unit"
                        c.ob(k + "/trim-while-recording", ok, x.site.where(),
                             "a recording operation deletes rows other than the oldest of the recorded unit: %s" % x.text)
    c.floor("reads", reads, 3)
    c.floor("trims", trims, 3)
    c.assumptions.append("SQLite implements ORDER BY, LIMIT and OFFSET as documented")


def row_reads(t):
    out = []

    def p(x):
        rv = row_value(x)
        if rv:
            out.append(rv)
        return False
    mentions(t, p)
    return out
