"""Starting lessons and starting points of the search."""
from graph import *
from sched import PARTIAL

P4 = mk("P", 4)


def get_map(o):
    out = set()
    for x, fs in alts(o.r.ret):
        if x.op == "C" and x.a[0].split("::")[-1] == "get" and path_of(x.a[1]) and x.a[2] is UNIT_ID and not fs:
            out.add(path_of(x.a[1]))
        else:
            out.add(None)
    return next(iter(out)) if len(out) == 1 else None


def at_path(p):
    t = ME
    for x in p:
        t = field(t, x)
    return t


def last(t):
    return t.a[0].split("::")[-1] if t.op == "C" else None


def starting_fact(f, lesson, lessons, dep):
    """The fact says exactly that the lesson depends on no lesson of its course: 'yes', 'part' (one of the ways), or None."""
    d = mk("C", "get", at_path(dep), lesson)
    if f.op == "or":
        br = []
        for x in f.a[0]:
            every = [y for y in x if y.op == "all"]
            k = {starting_fact(y, lesson, lessons, dep) for y in x if not any(y is e.a[1] for e in every) and
                 not (every and y.op == "is" and y.a[1] is True and last(y.a[0]) == "all")}
            if not k <= {"yes", "none", "some", "yes?"}:
                return None
            br.append(k)
        disjoint = [k for k in br if k & {"yes", "yes?"}]
        none = [k for k in br if k == {"none"}]
        if len(disjoint) + len(none) != len(br) or not disjoint:
            return None
        return "yes" if none or any("some" not in k and "yes" in k for k in disjoint) else None
    if f.op == "is":
        t = f.a[0]
        if t is d:
            return {"NEG": "none", "POS": "some"}.get(f.a[1])
        if last(t) == "is_disjoint" and f.a[1] is True:
            return disjoint_of(t.a[1], t.a[2], lessons, d)
    if f.op == "all" and f.a[1].op == "is" and f.a[1].a[1] is False and last(f.a[1].a[0]) == "contains":
        return disjoint_of(f.a[0], f.a[1].a[0].a[1], lessons, d)
    return None


def disjoint_of(a, b, lessons, d):
    """yes: also when there are no dependencies at all; yes?: given that there are some."""
    for x, y in ((a, b), (b, a)):
        if is_coll(x, lessons) and is_coll(y, d):
            return "yes" if y.op == "S" else "yes?"
    return None


def is_coll(t, c):
    """t holds exactly the elements of the optional collection c."""
    if t is c or t is payload(c):
        return True
    return t.op == "S" and len(t.a) == 1 and t.a[0][0] is elem(payload(c)) and all(f is fact(c, "POS") for f in t.a[0][1])


def check(c):
    F = c.F
    c.rule = """For every course with lessons, and for no other key, the map get_starting_lessons reads is set to exactly the lessons of
    the course whose dependencies are absent or disjoint from the lessons of the course. A unit whose recorded and given dependencies
    are empty is added to the starting points unless its course is known; a dependency that is not in the library is treated
    likewise; a course is taken out of them only where every one of its starting lessons has dependencies that exist."""
    G = ops(F)
    need = ("update_starting_lessons", "get_starting_lessons", "get_course_lessons", "get_dependencies", "get_dependency_sinks",
            "get_unit_type", "get_lesson_course", "add_dependencies")
    for n in need:
        if n not in G:
            c.fail("anchor/" + n, "", "operation not found")
            return
    start, lessons, dep = (get_map(G[x]) for x in ("get_starting_lessons", "get_course_lessons", "get_dependencies"))
    typ, lc = get_map(G["get_unit_type"]), get_map(G["get_lesson_course"])
    sinks = path_of(alts(G["get_dependency_sinks"].r.ret)[0][0]) if len(alts(G["get_dependency_sinks"].r.ret)) == 1 else None
    for n, m in (("get_starting_lessons", start), ("get_course_lessons", lessons), ("get_dependencies", dep), ("get_unit_type", typ),
                 ("get_lesson_course", lc), ("get_dependency_sinks", sinks)):
        c.ob("%s/reads" % n, m is not None, G[n].where(), "does not answer from one map")
    if None in (start, lessons, dep, typ, lc, sinks):
        return
    o = G["update_starting_lessons"]
    es = [e for e in o.edges if e.map == start]
    c.ob("starting/written", es, o.where(), "the starting lessons are not computed")
    courses = at_path(lessons)
    n = 0
    for e in es:
        n += 1
        key = e.key
        okkey = key is elem(mk("C", "keys", courses)) or key is field(elem(courses), "0")
        c.ob("starting/every-course", okkey, e.site.where(), "computed for %s, not for every course with lessons" % show(key, 5))
        got = mk("C", "get", courses, key)
        bad = [x for x in e.site.conds if not (x.op == "Next")]
        c.ob("starting/always", not bad, e.site.where(), "only computed if %s" % [show(x, 5) for x in bad])
        for x, fs in alts(e.val):
            ls = None
            for cand in (got, field(elem(courses), "1")):
                if x is elem(payload(cand)) or x is elem(cand):
                    ls = cand
            c.ob("starting/of-the-course", ls is not None, e.site.where(), "%s is recorded as a starting lesson" % show(x, 6))
            if ls is None:
                continue
            rest = [f for f in fs if f is not fact(ls, "POS")]
            ok = [f for f in rest if starting_fact(f, x, ls, dep) == "yes"]
            c.ob("starting/no-inner-dependency", ok, e.site.where(), "a lesson depending on another lesson of the course is recorded")
            extra = [f for f in rest if f not in ok]
            c.ob("starting/complete", not extra, e.site.where(), "a lesson is only recorded if also %s" % [show(f, 6) for f in extra])
    for p, q in [(k, s) for oo in G.values() for k, _, s in oo.shrinks if k == start]:
        c.fail("starting/kept", q.where(), "starting lessons are removed")
    for oo in G.values():
        for e in oo.edges:
            if e.map == start:
                c.ob("starting/writer/" + oo.name, oo.name == "update_starting_lessons", e.site.where(), "%s also writes them" % oo.name)
    for nm in ("update_starting_lessons", "add_dependencies"):
        c.to_the_end("complete/" + nm, [e.site for e in G[nm].edges] + [s for _, _, s in G[nm].shrinks])
        for s in Engine(F, watch_call=lambda x: x.split("::")[-1] in PARTIAL).run(G[nm].path).sites:
            if s.kind == "call" and s.name.split("::")[-1] in PARTIAL:
                c.fail("complete/" + nm, s.where(), "only a part of the units is looked at: %s" % s.name)
    # starting points
    o = G["add_dependencies"]
    mine = mk("C", "get", at_path(dep), UNIT_ID)
    ins = [e for e in o.edges if e.map == sinks and e.val is UNIT_ID]
    c.ob("points/added", ins, o.where(), "a unit without dependencies does not become a starting point")
    for e in ins:
        n += 1
        bad = [x for x in e.site.conds if not empty_of(x, mine) and not all(determined(x, fs) for fs in o.success())]
        c.ob("points/added-always", not bad, e.site.where(), "only if also %s" % [show(x, 5) for x in bad])
    rec = {e.site.fn for e in ins}
    E = Engine(F, watch_call=lambda x: x in rec, opaque=lambda p: False)
    deps = [e for e in o.edges if e.map == sinks and e.val is elem(P4)]
    calls = [s for s in E.run(o.path).sites if s.name in rec and any(a is elem(P4) for a in s.args)]
    c.ob("points/missing-dependency", deps or calls, o.where(), "a dependency missing from the library does not become a starting point")
    for s in calls:
        bad = [x for x in s.conds if x.op != "Next" and not all(determined(x, fs) for fs in o.success())]
        c.ob("points/missing-dependency-always", not bad, s.where(), "only if %s" % [show(x, 5) for x in bad])
    for oo in G.values():
        for m, k, s in oo.shrinks:
            if m != sinks:
                continue
            n += 1
            if oo.name == "add_dependencies":
                t = s.args[1] if len(s.args) > 1 else None
                c.ob("points/removed/%s/unit" % oo.name, t is UNIT_ID, s.where(), "removes %s" % (show(t, 5) if t else "everything"))
                known = holds(s.facts, fact(mk("C", "get", at_path(lc), UNIT_ID), "POS"))
                dd = any(empty_of(x, mine) for x in s.conds) and not any(
                    f.op == "is" and f.a[0] is mk("C", "is_empty", P4) and f.a[1] is True and
                    not any(g.op == "is" and last(g.a[0]) == "is_empty" and g.a[1] is False for g in s.facts) for f in s.facts)
                c.ob("points/removed/%s/when" % oo.name, known or dd, s.where(),
                     "a unit without dependencies is taken out of the starting points")
            elif oo.name == "update_starting_lessons":
                k = s.args[1] if len(s.args) > 1 else None
                okk = k is elem(mk("C", "keys", courses)) or k is field(elem(courses), "0")
                c.ob("points/removed/%s/course" % oo.name, okk, s.where(), "removes %s" % (show(k, 5) if k else "everything"))
                if okk:
                    ls = mk("C", "get", courses, k) if k.a[0].op == "C" else field(elem(courses), "1")
                    c.ob("points/removed/%s/when" % oo.name, all_wait(s.facts, ls, dep, typ), s.where(),
                         "a course is no starting point although one of its starting lessons may wait for nothing: "
                         "that lesson cannot be reached")
            else:
                c.fail("points/removed/" + oo.name, s.where(), "removes starting points")
    c.floor("writes of starting lessons and points", n, 4)


def all_wait(fs, ls, dep, typ):
    """Every starting lesson of the course has a dependency, and its dependencies exist."""
    les = {elem(payload(ls)), elem(ls)}
    nonempty = exist = some = False
    for f in fs:
        if f.op != "all" or not (set(unphi(elem(f.a[0]))) <= les):
            continue
        g = f.a[1]
        if g.op == "is" and g.a[1] is False and last(g.a[0]) == "is_empty":
            nonempty = True
        if g.op == "all" and g.a[1].op == "is" and g.a[1].a[1] == "POS" and last(g.a[1].a[0]) == "get" and \
                path_of(g.a[1].a[0].a[1]) == typ:
            exist = True
        if g.op == "ex" and any(h.op == "is" and h.a[1] == "POS" and last(h.a[0]) == "get" and path_of(h.a[0].a[1]) == typ for h in g.a[1]):
            some = True
    return some or nonempty and exist


def empty_of(x, mine):
    """The condition only asks whether there are dependencies."""
    while x.op in ("Not", "Is"):
        x = x.a[0]
    if x.op == "Phi":
        return all((y in (TRUE, FALSE) or empty_of(y, mine)) and fs and all(f.op == "is" and empty_of(f.a[0], mine) for f in fs)
                   for y, fs in x.a)
    return last(x) == "is_empty" and (x.a[1] is P4 or mentions(x.a[1], lambda t: t is mine)) or x is mine
