"""Weights of encompassed units lie in [0, 1]."""
from graph import *

P4 = mk("P", 4)


def num(t):
    try:
        return float(show(t).strip("'").rstrip("f32").rstrip("_"))
    except ValueError:
        return None


def bounds(f, w):
    """What the fact says about w: the set of bounds it establishes ('lo': >= 0, 'hi': <= 1), NaN excluded."""
    if f.op == "all":
        return bounds(f.a[1], w) if f.a[0] is P4 else set()
    if f.op != "is" or f.a[1] is not True:
        return set()
    t = f.a[0]
    if t.op == "C" and t.a[0].split("::")[-1] == "contains" and t.a[2] is w:
        r = t.a[1]
        if r.op == "C" and len(r.a) == 3 and num(r.a[1]) is not None and num(r.a[2]) is not None:
            return {x for x, ok in (("lo", num(r.a[1]) >= 0), ("hi", num(r.a[2]) <= 1)) if ok}
        if r.op == "A" and "Range" in show(r):
            lo, hi = num(field(r, "start")), num(field(r, "end"))
            return {x for x, ok in (("lo", lo is not None and lo >= 0), ("hi", hi is not None and hi <= 1)) if ok}
    if t.op == "B" and t.a[0] in ("Ge", "Gt", "Le", "Lt"):
        op, a, b = t.a
        if b is w:
            op, a, b = {"Ge": "Le", "Gt": "Lt", "Le": "Ge", "Lt": "Gt"}[op], b, a
        if a is w and num(b) is not None:
            if op in ("Ge", "Gt") and num(b) >= 0:
                return {"lo"}
            if op in ("Le", "Lt") and num(b) <= 1:
                return {"hi"}
    return set()


def check(c):
    F = c.F
    c.rule = """The weights of encompassed units are written only where the facts established on the path say that every given weight
    is at least 0 and at most 1 by comparisons that are false for NaN; the remaining weights written or returned are constants
    in that range; nothing else writes the maps the getters read."""
    G = ops(F)
    c.include("c16", lambda k: k.startswith(("get_encompass", "add_encompassed", "writers/encompass", "anchor/add_encompassed")))
    w = field(elem(P4), "1")
    n = 0
    for o in G.values():
        for e in o.edges:
            ws = set()
            for x in unphi(e.val):
                for y in unphi(field(x, "1")):
                    ws.add(y)
            weighted = o.name == "add_encompassed"
            if not weighted:
                continue
            n += 1
            for y in ws:
                if y is w:
                    ok = {"lo", "hi"} <= everyone(e.site.facts, w)
                    c.ob("given/%s" % ".".join(e.map), ok, e.site.where(), "a weight outside [0, 1] can be stored (established: %s)" % (
                        sorted(everyone(e.site.facts, w)) or "nothing"))
                else:
                    c.ob("constant/%s" % ".".join(e.map), num(y) is not None and 0 <= num(y) <= 1, e.site.where(),
                         "the weight %s is stored" % show(y, 5))
    c.floor("writes of weights", n, 2)


def everyone(fs, w):
    """Bounds established for every element of the given list."""
    out = set()
    for f in fs:
        if f.op == "all":
            out |= bounds(f, w)
    return out
