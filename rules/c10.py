"""Removing records by prefix removes exactly the units with the prefix."""
from stores import *
from rules.c13 import surfaced


def check(c):
    c.rule = """In every store operation that removes by a text prefix, each delete is resolved to the set of units it selects (bound
    parameters, sub-selects and values read from rows of earlier queries are followed); that set must be exactly the
    units whose identifier starts with the given text, character by character: substr/instr comparisons are accepted,
    pattern matches (LIKE and GLOB, whose wildcards and case folding select other units) are not. A successful return
    requires the deletes to have run for every such unit, and nothing else is written."""
    n = 0
    for s in stores(c.F):
        for o in s.ops:
            if "prefix" not in o.name or not o.mut:
                continue
            n += 1
            k = "%s/%s" % (s.adt.split("::")[-1], o.name)
            ws = o.writes()
            dels = []
            for x in ws:
                d = x.one()
                if not d or d["k"] != "delete":
                    c.fail(k + "/only-deletes", x.site.where(), "writes something other than a delete: %s" % x.text)
                    continue
                t, rs = deletes(x)
                kinds = [r[0] for r in rs]
                ok = kinds == ["prefix"] and rs[0][1] is mk("P", 2)
                if ok and t != "uids":
                    dels.append(x)
                c.ob("%s/exactly-the-prefix/%s" % (k, t), ok, x.site.where(),
                     "the rows deleted from %s are not exactly those of the units with the given prefix: %s (restriction %s)"
                     % (t, x.text, [tuple(show(z, 4) if isinstance(z, T) else z for z in r) for r in rs]))
                bad = oddconds(x.site) + [f for f in x.site.facts if f.op == "is" and f.a[1] not in ("POS",)
                                          and not outcome(f.a[0])]
                if x.params and mentions(mk("Arr", *x.params), lambda t: t.op == "E"):
                    c.ob("%s/all-rows/%s" % (k, t), x.site.loop, x.site.where(),
                         "only one of the selected rows is deleted")
                c.ob("%s/every-row/%s" % (k, t), not bad, x.site.where(),
                     "the delete is skipped depending on %s" % "; ".join(show(b, 5)[:150] for b in bad))
            c.ob(k + "/deletes", dels, o.where(), "no delete of the records of the units with the prefix")
            reordered(c, k, o)
            surfaced(c, [o.path], k)
    c.floor("prefix removals", n, 4)
    c.assumptions.append("SQLite's substr/length count characters as documented")


def reordered(c, k, o):
    for x in o.other:
        if x.name.split("::")[-1] in ORDERISH and not (x.recv is not None and "cache" in show(x.recv, 4)):
            c.fail("%s/%s" % (k, x.name.split("::")[-1]), x.where(), "rows are dropped or reordered by %s" % x.name)
