"""Unit ids are unique and the type of a unit never changes."""
from graph import *

ADDS = {"add_course": ("Course", None), "add_lesson": ("Lesson", "Course"), "add_exercise": ("Exercise", "Lesson")}


def is_new(fs, m, k):
    """The facts say the map has no entry for the key."""
    for f in fs:
        if f.op != "is" or f.a[1] not in (False, "NEG"):
            continue
        t = f.a[0]
        if t.op == "C" and t.a[0].split("::")[-1] in ("get", "contains", "contains_key") and len(t.a) > 2 and t.a[2] is k:
            if same_map(t.a[1], m):
                return True
    return False


def check(c):
    F = c.F
    c.rule = """An operation adding a course, lesson or exercise writes nothing unless the map of types has no entry for the id it
    is given, it then always records that id with its own type, and the type recorded for a unit is only ever written where the
    map has no entry for it; nothing removes a type, and get_unit_type answers from that map."""
    G = ops(F)
    g = G.get("get_unit_type")
    maps = set()
    if g:
        for x, fs in alts(g.r.ret):
            if x.op == "C" and x.a[0].split("::")[-1] == "get" and path_of(x.a[1]) and x.a[2] is UNIT_ID:
                maps.add(path_of(x.a[1]))
            else:
                c.fail("get_unit_type/reads", g.where(), "answers with %s" % show(x, 6))
    c.ob("get_unit_type/one-map", len(maps) == 1, g.where() if g else "", "get_unit_type reads %s" % maps)
    if len(maps) != 1:
        return
    tm = next(iter(maps))
    n = 0
    for name, (own, parent) in ADDS.items():
        o = G.get(name)
        if not o:
            c.fail("anchor/" + name, "", "operation not found")
            continue
        mine = [e for e in o.edges if e.map == tm and e.key is UNIT_ID]
        c.ob("%s/records-type" % name, mine, o.where(), "the type of the new unit is not recorded")
        for e in mine:
            c.ob("%s/type" % name, variant(e.val, own), e.site.where(),
                 "records %s, not %s" % (show(e.val), own))
            c.ob("%s/always" % name, not o.needed(e), e.site.where(), "only recorded if %s" % [show(x, 5) for x in o.needed(e)])
        for e in o.edges:
            n += 1
            c.ob("%s/new/%s" % (name, ".".join(e.map)), is_new(e.site.facts, tm, UNIT_ID), e.site.where(),
                 "%s is written although a unit with the same id may exist" % ".".join(e.map))
        for fs in o.success():
            c.ob("%s/refuses" % name, is_new(fs, tm, UNIT_ID), o.where(), "succeeds although a unit with the same id may exist")
        if parent:
            par = [e for e in o.edges if e.map == tm and e.key is mk("P", 3)]
            c.ob("%s/parent" % name, par and all(variant(e.val, parent) for e in par),
                 o.where(), "the %s is not registered as one" % parent.lower())
            for e in par:
                c.ob("%s/parent-always" % name, not o.needed(e), e.site.where(), "only registered if %s" % [
                    show(x, 5) for x in o.needed(e)])
            # a parent known as something else is refused before anything refers to it
            for e in o.edges:
                if e.map != tm:
                    c.ob("%s/parent-type/%s" % (name, ".".join(e.map)), any(refuses(x, parent) for x in e.site.conds),
                         e.site.where(), "%s is written although the %s may be of another type" % (
                             ".".join(e.map), parent.lower()))
    for o in G.values():
        for e in o.edges:
            if e.map == tm:
                c.ob("types/only-new/%s" % o.name, e.key is not None and is_new(e.site.facts, tm, e.key), e.site.where(),
                     "the type of an existing unit may be overwritten")
        for m, k, s in o.shrinks:
            c.ob("types/kept/%s" % o.name, m != tm, s.where(), "a type is removed")
    c.floor("writes of the adding operations", n, 9)
    c.analysed["operations"] = len(G)


def refuses(t, parent):
    """The condition tells a parent of the right type from one known as something else."""
    p3 = mk("P", 3)
    if t.op == "Phi":
        return any(x.op == "Neg" and any(about(f, parent) for f in fs) for x, fs in t.a)
    return t.op == "B" and t.a[0] in ("Eq", "Ne") and mentions(t, lambda x: x is p3) and parent in show(t)


def about(f, parent):
    if f.op != "is" or not mentions(f.a[0], lambda x: x is mk("P", 3)):
        return False
    return f.a[1] == "!" + parent or f.a[0].op == "B" and parent in show(f.a[0])
