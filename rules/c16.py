"""Relations of the unit graph are recorded in both directions and read back unchanged."""
from graph import *
from stores import ORDERISH, mentions

RELS = [("add_lesson", mk("P", 3), "get_lesson_course", "get_course_lessons"),
        ("add_exercise", mk("P", 3), "get_exercise_lesson", "get_lesson_exercises"),
        ("add_dependencies", mk("E", mk("P", 4)), "get_dependencies", "get_dependents"),
        ("add_encompassed", None, "get_encompasses", "get_encompassed_by"),
        ("add_superseded", mk("E", mk("P", 3)), "get_supersedes", "get_superseded_by")]


def reads(o, deps=None):
    """Map from which a getter answers for the unit it is given; with deps, the stand-in used when that map is empty."""
    maps, bad = set(), []
    for x, fs in alts(o.r.ret):
        if x.op == "C" and x.a[0].split("::")[-1] == "get" and path_of(x.a[1]) and x.a[2] is UNIT_ID:
            maps.add(path_of(x.a[1]))
            continue
        if deps is not None:
            em = [f for f in fs if f.op == "is" and f.a[1] is True and f.a[0].op == "C" and
                  f.a[0].a[0].split("::")[-1] == "is_empty"]
            d = mk("C", "get", field(ME, deps[0]), UNIT_ID) if len(deps) == 1 else None
            if em and d is not None:
                if x.op == "Neg" and holds(fs, fact(d, "NEG")):
                    continue
                if x.op == "Pos" and x.a[0].op == "S" and len(x.a[0].a) == 1:
                    e = x.a[0].a[0][0]
                    if not x.a[0].a[0][1] and field(e, "0") is elem(payload(d)) and show(field(e, "1")) in ("'1.0'", "1.0"):
                        continue
        bad.append(x)
    return maps, bad


def plain(t, want):
    return len(alts(t)) == 1 and alts(t)[0][0] is want and not alts(t)[0][1]


def decided_by_weight(v, we):
    """The questions about the given weight that decide which weight is written."""
    w = field(we, "1")
    return {f.a[0] for _, fs in alts(field(v, "1")) for f in fs if f.op == "is" and mentions(f.a[0], lambda x: x is w)}


def check(c):
    F = c.F
    c.rule = """Every operation adding a relation between two units writes it, for exactly the units it is given and for every one of
    them, into the map its forward getter reads, keyed by the first unit, and into the map its reverse getter reads, keyed
    by the second, on every successful path; getters return that entry for the unit asked; nothing else writes these maps,
    and what empties one of a pair empties the other. A dependency not listed as encompassed is encompassed with weight 1;
    when no weights are stored the dependencies stand in for them in both directions."""
    G = ops(F)
    used = {}
    n = 0
    deps = {}
    for add, other, fw, rv in RELS:
        if not all(x in G for x in (add, fw, rv)):
            c.fail("anchor/" + add, "", "operation not found")
            continue
        o = G[add]
        enc = add == "add_encompassed"
        dm = {}
        for g in (fw, rv):
            maps, bad = reads(G[g], deps.get((enc and "add_dependencies", g == fw)) if enc else None)
            c.ob("%s/reads" % g, len(maps) == 1 and not bad, G[g].where(), "%s answers with %s" % (
                g, [show(x, 6) for x in bad] or maps))
            dm[g] = next(iter(maps), None)
        deps[(add, True)], deps[(add, False)] = dm[fw], dm[rv]
        if not dm[fw] or not dm[rv]:
            continue
        c.ob("%s/two-maps" % add, dm[fw] != dm[rv], o.where(), "both getters read %s" % (dm[fw],))
        if enc:
            # the stand-in is used when the map itself is empty
            for g in (fw, rv):
                for x, fs in alts(G[g].r.ret):
                    em = [f for f in fs if f.op == "is" and f.a[0].op == "C" and f.a[0].a[0].split("::")[-1] == "is_empty"]
                    c.ob("%s/stand-in" % g, em and all(path_of(f.a[0].a[1]) in dm.values() for f in em) and
                         (em[0].a[1] is True) == (x.op in ("Neg", "Pos")), G[g].where(),
                         "the dependencies stand in under another condition than an empty map")
        F_, R_ = [e for e in o.edges if e.map == dm[fw]], [e for e in o.edges if e.map == dm[rv]]
        c.ob("%s/forward" % add, F_, o.where(), "nothing is written to the map %s reads" % fw)
        c.ob("%s/reverse" % add, R_, o.where(), "nothing is written to the map %s reads" % rv)
        n += len(F_) + len(R_)
        for e in F_:
            used[(o.name, id(e.site))] = 1
            c.ob("%s/forward/unit" % add, plain(e.key, UNIT_ID), e.site.where(), "keyed by %s, not the unit given" % show(e.key))
            c.ob("%s/forward/always" % add, not o.needed(e), e.site.where(), "only written if %s" % [
                show(x, 5) for x in o.needed(e)])
        for e in R_:
            used[(o.name, id(e.site))] = 1
            c.ob("%s/reverse/always" % add, not o.needed(e), e.site.where(), "only written if %s" % [
                show(x, 5) for x in o.needed(e)])
        if not enc:
            for e in F_:
                c.ob("%s/forward/other" % add, plain(e.val, other), e.site.where(), "writes %s, not %s" % (
                    show(e.val, 6), show(other)))
            for e in R_:
                c.ob("%s/reverse/unit" % add, plain(e.val, UNIT_ID), e.site.where(), "writes %s, not the unit given" % show(e.val, 6))
                c.ob("%s/reverse/other" % add, plain(e.key, other), e.site.where(), "keyed by %s, not %s" % (
                    show(e.key, 6), show(other)))
        else:
            wd, we = mk("E", mk("P", 3)), mk("E", mk("P", 4))
            for e in F_:
                seen = set()
                for x, fs in alts(e.val):
                    if x is we and not fs:
                        seen.add("given")
                    elif field(x, "0") is wd and "1.0" in show(field(x, "1")):
                        bad = [f for f in fs if not absent(f, wd)]
                        c.ob("%s/default-weight" % add, not bad, e.site.where(),
                             "a dependency is only encompassed if %s" % [show(f, 5) for f in bad])
                        c.ob("%s/default-only-if-absent" % add, any(absent(f, wd) for f in fs), e.site.where(),
                             "the default weight is added although the unit may be listed with its own")
                        seen.add("default")
                    else:
                        c.fail("%s/forward/other" % add, e.site.where(), "encompasses %s" % show(x, 6))
                for k in ("given", "default"):
                    c.ob("%s/forward/%s" % (add, k), k in seen, e.site.where(), "the %s units are not encompassed" % k)
                for r in R_:
                    c.ob("%s/reverse/unit" % add, field(r.val, "0") is UNIT_ID, r.site.where(), "writes %s" % show(r.val, 6))
                    c.ob("%s/reverse/other" % add, unphi(r.key) == unphi(field(e.val, "0")), r.site.where(),
                         "keyed by %s, not by each encompassed unit" % show(r.key, 6))
                    c.ob("%s/reverse/weight" % add, unphi(field(r.val, "1")) == unphi(field(e.val, "1")), r.site.where(),
                         "writes the weight %s" % show(field(r.val, "1"), 6))
                    c.ob("%s/reverse/weight-unconditional" % add, decided_by_weight(r.val, we) <= decided_by_weight(e.val, we),
                         r.site.where(), "the weight written depends on the weight given, unlike in the forward direction")
        c.to_the_end(add, [e.site for e in F_ + R_])
        # partial traversals (engine treats these as identity)
        E = Engine(F, watch_call=lambda x: x.split("::")[-1] in ORDERISH)
        for s in E.run(o.path).sites:
            if s.name.split("::")[-1] in ("skip", "take", "step_by", "skip_while", "take_while", "nth", "next"):
                c.fail("%s/partial" % add, s.where(), "only part of the units is traversed: %s" % s.name)
        for m in (dm[fw], dm[rv]):
            used.setdefault(("map", m), (add, dm[fw], dm[rv]))
    maps = {k[1]: v for k, v in used.items() if k[0] == "map"}
    for o in G.values():
        for e in o.edges:
            if e.map in maps:
                c.ob("writers/%s/%s" % (".".join(e.map), o.name), maps[e.map][0] == o.name, e.site.where(),
                     "%s also writes %s" % (o.name, ".".join(e.map)))
        cl = {}
        for m, k, s in o.shrinks:
            if m in maps:
                cl.setdefault(maps[m], {}).setdefault(m, []).append((k, s))
        for (add, a, b), d in cl.items():
            ok = all(m in d and any(k is None and s.name.split("::")[-1] == "clear" and not s.conds for k, s in d[m]) for m in (a, b))
            s = next(iter(d.values()))[0][1]
            c.ob("removes/%s/%s" % (add, o.name), ok, s.where(), "an entry is removed in one direction only")
        for s in o.odd:
            c.fail("removes/%s" % o.name, s.where(), "removes from %s" % show(s.recv, 5))
    # self dependencies and dependencies of exercises are refused
    o = G.get("add_dependencies")
    if o:
        for e in o.edges:
            if e.map not in maps:
                continue
            ok = any(f.op == "all" and f.a[0] is mk("P", 4) and f.a[1].op == "is" and f.a[1].a[1] is False and
                     f.a[1].a[0].op == "B" and f.a[1].a[0].a[0] == "Eq" and
                     {f.a[1].a[0].a[1], f.a[1].a[0].a[2]} == {UNIT_ID, mk("E", mk("P", 4))} for f in e.site.facts) or \
                any(f.op == "is" and f.a[1] is False and f.a[0].op == "C" and f.a[0].a[0].split("::")[-1] == "contains" and
                    f.a[0].a[1] is mk("P", 4) and f.a[0].a[2] is UNIT_ID for f in e.site.facts)
            c.ob("add_dependencies/no-self", ok, e.site.where(), "a unit can be made to depend on itself")
            c.ob("add_dependencies/no-exercise", any(f.op == "is" and f.a[0] is mk("P", 3) and f.a[1] == "!Exercise" or
                 f.op == "is" and f.a[0].op == "B" and f.a[0].a[0] in ("Eq", "Ne") and "Exercise" in show(f.a[0]) and
                 f.a[1] is (f.a[0].a[0] == "Ne") for f in e.site.facts), e.site.where(), "an exercise can be given dependencies")
    c.floor("relation writes", n, 10)
    c.analysed["operations"] = len(G)


def absent(f, wd):
    """The fact says that the dependency is not among the encompassed units given."""
    p4 = mk("P", 4)
    if f.op == "all":
        return f.a[0] is p4 and absent(f.a[1], wd)
    if f.op != "is" or f.a[1] is not False:
        return False
    t = f.a[0]
    if t.op == "B" and t.a[0] == "Eq":
        return {t.a[1], t.a[2]} == {wd, field(mk("E", p4), "0")}
    return t.op == "C" and t.a[0].split("::")[-1] in ("any", "contains") and (
        t.a[1] is p4 or mentions(t.a[1], lambda x: x is p4)) and mentions(t, lambda x: x is wd)
