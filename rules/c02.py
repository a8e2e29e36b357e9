"""Nothing is scheduled before its dependencies are met."""
from sched import *

GRAPH = ("none", "MetadataFilter", "Dependents", "Dependencies", "CourseFilter", "ReviewListFilter")


def check(c):
    F = c.F
    c.rule = """In every mode of the search, each unit put on the search stack is either one the request names (or the starting lessons of a
    course it names), or has been found to have every one of its listed dependencies satisfied under the request's metadata
    filter (every dependency missing from the library, for starting units), or is the course of a lesson just visited; candidates are only
    made from the lesson taken from the stack. A dependency counts as satisfied exactly if all the units standing in for it are, and a unit is exactly if
    it or its course is blacklisted, it is superseded, its score or trials are unknown, or both reach the configured minimum
    (complete truth table). A unit stands for itself if it passes the filter; otherwise its own dependencies stand in for it (a
    course's last matching lessons first, and a starting lesson's course as well)."""
    root, M = modes(F)
    c.ob("anchor/search", root and len(M) == 8, "", "the search for candidates is not found")
    if not root:
        return
    n = 0
    for m in GRAPH:
        n += stack(c, m, M[m])
    c.floor("units put on the stack", n, 30)
    c.floor("modes", len(M), 8)
    satisfied(c, F)
    targets(c, F)
    effective(c, F)


def mf_ok(m, t):
    """The metadata filter used is the request's."""
    return mentions(t, lambda x: x is P2) and t.op == "Pos" if m == "MetadataFilter" else t.op == "Neg"


def asked(m, u, facts):
    """The request names this unit."""
    if u.op != "E":
        return False
    t = u.a[0]
    if m in ("Dependents", "LessonFilter"):
        return t.op == "F" and t.a[-1] in ("unit_ids", "lesson_ids") and mentions(t, lambda x: x is P2)
    if m == "CourseFilter" and t.op == "C" and last(t.a[0]) == "get_starting_lessons":
        x = t.a[-1]
        return x.op == "E" and x.a[0].op == "F" and x.a[0].a[-1] == "course_ids"
    if m == "ReviewListFilter":
        x = t.a[-1] if t.op == "C" and last(t.a[0]) == "get_starting_lessons" else u
        return x.op == "E" and x.a[0].op == "C" and last(x.a[0].a[0]) == "get_review_list_entries"
    return False


def stack(c, m, r):
    n = 0
    for s in r.sites:
        if last(s.name) in PARTIAL and s.kind == "call":
            if any(mentions(a, lambda t: t.op == "C" and last(t.a[0]) == "get_dependencies") and s.fn.split("::{")[0] not in AT_DEPTH
                   for a in s.args[:1]) and "Candidate" not in show(s.args[0], 3):
                c.fail("%s/partial" % m, s.where(), "only some of the dependencies are looked at (%s)" % last(s.name))
            continue
        if s.name == CAND:
            x = s.arg("lesson_id")
            if m != "ReviewListFilter":
                ok = any(f.op == "is" and f.a[1] == "Lesson" and f.a[0].op == "C" and last(f.a[0].a[0]).startswith("get_unit_type") and
                         (f.a[0].a[-1] is x or same_unit(f.a[0].a[-1], x)) for f in s.facts)
                c.ob("%s/candidate" % m, ok, s.where(), "exercises are taken from a unit other than the lesson just visited: %s" % show(x, 3)[:200])
            n += 1
            continue
        if s.name != ITEM:
            continue
        n += 1
        for u, fs in units(s):
            k = "%s/%s:%s" % (m, s.fn.split("::")[-1] if "{" not in s.fn else s.fn.split("::")[-2], s.span[1])
            k = "%s/stack/%s" % (m, last(s.fn.split("::{")[0]))
            if asked(m, u, fs) or m == "Dependencies" and from_depth(s, u):
                c.ob(k, True, s.where(), "")
                continue
            # the course of the lesson just visited
            if u.op == "C" and last(u.a[0]) in ("get_lesson_course", "get_course_id") and any(
                    f.op == "is" and f.a[1] == "Lesson" and f.a[0].op == "C" and f.a[0].a[-1] is u.a[-1] for f in fs):
                c.ob(k, True, s.where(), "")
                continue
            ok = forall(fs, "get_dependencies", u, lambda t, v, e: v is True and t.op == "C" and last(t.a[0]) == "satisfied_dependency" and
                        t.a[2] is e and mf_ok(m, t.a[3]))
            if not ok and m in ("none", "MetadataFilter"):
                ok = forall(fs, "get_dependencies", u, lambda t, v, e: v in (False, "NEG") and t.op == "C" and
                            last(t.a[0]) == "unit_exists" and t.a[-1] is e)
            c.ob(k, ok, s.where(), "%s is put on the stack although not all of its dependencies are known to be satisfied" %
                 show(u, 4)[:200])
    return n


AT_DEPTH = ("scheduler::data::SchedulerData::get_dependencies_at_depth",)


def same_unit(a, b):
    """Both stand for the unit taken from the stack (one of the two was widened)."""
    return a.op == "W" and b.op in ("W", "Phi") or b.op == "W" and a.op == "Phi"


def from_depth(s, u):
    return s.fn.split("::{")[0].endswith("get_initial_candidates")


def fn(c, name):
    p = [p for p in c.F.fns if p.endswith("::" + name)]
    if len(p) != 1:
        c.fail("anchor/" + name, "", "function %s not found" % name)
        return None
    return p[0]


def effective(c, F):
    p = fn(c, "satisfied_effective_dependency")
    if not p:
        return
    isd = lambda t: t is P2
    crs = call("get_lesson_course", "get_course_id")
    opq = {"is_superseded", "get_superseding_recursive", "get_unit_score", "get_avg_trials"}
    opt = lambda n: lambda t: t.op == "F" and t.a[-1] == n and mentions(t, lambda x: x.op == "F" and x.a[-1] == "passing_score")
    at = [Atom("blacklisted", on(call("blacklisted"), isd), OK_BOOL + (("NEG",),)),
          Atom("course blacklisted", on(call("blacklisted"), crs), OK_BOOL),
          Atom("superseding units", on(call("get_superseding_recursive"), isd), OPT),
          Atom("superseded", on(call("is_superseded"), isd), BOOL),
          Atom("score", on(call("get_unit_score"), isd), OPT), Atom("trials", on(call("get_avg_trials"), isd), OPT),
          Cmp("score against minimum", call("get_unit_score"), opt("min_score")),
          Cmp("trials against minimum", call("get_avg_trials"), opt("min_avg_trials")), Atom("course", crs, (("POS",),))]
    n = 0
    f = F.fns[p]
    for row in rows(at):
        bl, cb, sp, su, sc, tr, c1, c2, _ = row
        if sp[0] == "NEG" and su[0]:
            continue
        r, v = run(F, p, at, row, opaque=lambda q: last(q) in opq)
        want = bl[-1] is True or cb[1] or su[0] or sc[0] == "NEG" or tr[0] == "NEG" or (c1 in "=>" and c2 in "=>")
        n += 1
        c.ob("satisfied/unit", v == {want}, "%s:%s" % tuple(f.span[:2]), "a dependency with %s counts as %s" % (
            label(at, row), "satisfied" if True in v else "not satisfied"))
    c.floor("rows of the table of satisfied units", n, 300)


def targets(c, F):
    p = fn(c, "resolve_effective_dependencies")
    if not p:
        return
    f = F.fns[p]
    w = "%s:%s" % tuple(f.span[:2])
    isd = lambda t: t is P2
    crs = call("get_lesson_course", "get_course_id")
    seen = lambda t: on(call("contains"), isd)(t) and t.a[1].op in ("P", "W")
    at = [Atom("passes the filter", on(call("unit_passes_filter"), isd), OK_BOOL),
          Atom("type", on(call("get_unit_type", "get_unit_type_strict"), isd), (("POS", "Lesson"), ("POS", "Course"), ("NEG",))),
          Atom("starting lesson", lambda t: on(call("contains"), isd)(t) and not seen(t), BOOL),
          Atom("no matching lessons", call("is_empty"), BOOL), Atom("seen before", seen, ((False,),)), Atom("not seen before", on(call("insert"), isd), ((True,),)),
          Atom("course", crs, (("POS",),))]
    n = 0
    for row in rows(at):
        ps, ty, st, em = row[:4]
        r, _ = run(F, p, at, row, opaque=lambda q: last(q) == "unit_passes_filter",
                   watch_call=lambda q: last(q) in PARTIAL - {"last"} or last(q) in GROW)
        n += 1
        for s in r.sites:
            if last(s.name) in GROW:
                if s.args and (s.args[0] is P4 or s.recv is P4):
                    c.ob("targets/marked", same_elements(s, P2), s.where(), "%s is marked as seen before it has been followed" % show(s.args[-1], 4)[:150])
                continue
            c.fail("targets/partial", s.where(), "only some of the dependencies are followed (%s)" % last(s.name))
        got = set()
        for e, g in elems(r.ret):
            got |= kinds(e, p, g)
        if ps[1]:
            want = {"itself"}
        elif ty == ("POS", "Lesson"):
            want = {"its dependencies"} | ({"its course's dependencies"} if st[0] else set())
        elif ty == ("POS", "Course"):
            want = {"its dependencies"} if em[0] else {"last matching lessons"}
        else:
            want = set()
        c.ob("targets", got == want, w, "%s: %s stands in for the dependency, expected %s" % (label(at[:4], row), sorted(got), sorted(want)))
    c.floor("rows of the table of stand-ins", n, 20)


GROW = {"insert", "extend", "push", "replace", "append"}
P4 = mk("P", 4)


def same_elements(s, u):
    """The call adds u and nothing else."""
    x = s.args[-1]
    return x is u if last(s.name) not in ("extend", "append") else [y for y, _ in elems(x)] == [u]


def kinds(e, p, g):
    if e.op == "E" and e.a[0].op == "C" and last(e.a[0].a[0]) == last(p) and e.a[0].a[2].op == "Phi":
        t = e.a[0]
        return {kind(mk("E", mk("C", t.a[0], t.a[1], x, *t.a[3:])), p, g) for x, _ in alts(t.a[2])}
    return {kind(e, p, g)}


def kind(e, p, g):
    if e is P2:
        return "itself"
    if e.op != "E" or e.a[0].op != "C":
        return "?" + show(e, 3)[:80]
    t = e.a[0]
    n = last(t.a[0])
    if n == last(p):
        d = t.a[2]
        if t.a[3] is not mk("P", 3):
            return "dependencies under another filter"
        if d.op == "E" and d.a[0].op == "C" and last(d.a[0].a[0]) == "get_dependencies":
            u = d.a[0].a[-1]
            if u is P2:
                return "its dependencies"
            if u.op == "C" and last(u.a[0]) in ("get_lesson_course", "get_course_id") and u.a[-1] is P2:
                return "its course's dependencies"
    if n == "get_course_lessons" and t.a[-1] is P2:
        bad = not refutes(g, [Atom("x", lambda t: call("unit_passes_filter")(t) and t.a[-2] is e and t.a[-1] is mk("P", 3), None)], [("POS", False)])
        dis = any(f.op == "is" and f.a[1] is True and f.a[0].op == "C" and last(f.a[0].a[0]) == "is_disjoint" and
                  mentions(f.a[0], lambda x: x.op == "C" and last(x.a[0]) == "get_dependents" and x.a[-1] is e) for f in g) or any(
            f.op == "all" and mentions(f, lambda x: x.op == "C" and last(x.a[0]) == "get_dependents") for f in g)
        if not bad and dis:
            return "last matching lessons"
        return "other lessons of the course"
    return "?" + show(e, 3)[:80]


def satisfied(c, F):
    p = fn(c, "satisfied_dependency")
    if not p:
        return
    f = F.fns[p]
    w = "%s:%s" % tuple(f.span[:2])
    opq = {"resolve_effective_dependencies", "satisfied_effective_dependency"}
    isd = call("satisfied_effective_dependency")
    for empty in (True, False):
        for each in (True, False):
            at = [Atom("no stand-ins", call("is_empty"), [(empty,)]), Atom("each satisfied", isd, [(each,)])]
            r, v = run(F, p, at, [(empty,), (each,)], opaque=lambda q: last(q) in opq, watch_call=lambda q: last(q) in PARTIAL)
            for s in r.sites:
                c.fail("satisfied/partial", s.where(), "only some of the stand-ins are looked at (%s)" % last(s.name))
            if each or empty:
                c.ob("satisfied/holds", True in v and (each is False or v == {True}), w, "a dependency without unsatisfied stand-ins is not satisfied")
    r, _ = run(F, p, [], [], opaque=lambda q: last(q) in opq,
               watch_call=lambda q: last(q) == "resolve_effective_dependencies" or last(q) in GROW)
    seen = {s.args[-1] for s in r.sites if last(s.name) == "resolve_effective_dependencies" and len(s.args) > 3 and s.args[1] is P2}
    for x in seen:
        g = [s for s in r.sites if last(s.name) in GROW and (s.recv is x or s.args and s.args[0] is x)]
        c.ob("satisfied/nothing-seen", x.op != "P" and not g, g[0].where() if g else w,
             "units are taken for seen before the dependency is followed: %s" % ", ".join(show(s.args[-1], 4)[:150] for s in g))
    # with at least one stand-in
    r, _ = run(F, p, [Atom("no stand-ins", call("is_empty"), [(False,)])], [(False,)], opaque=lambda q: last(q) in opq)
    for x, fs in alts(r.ret):
        a = assume(x, True)
        if a is None:
            continue
        fs = fs | a[0]
        ok = any(
            g.op == "all" and g.a[1].op == "is" and g.a[1].a[1] is True and isd(g.a[1].a[0]) and resolved(g.a[0]) and
            g.a[1].a[0].a[-1] is elem(g.a[0]) for g in fs)
        c.ob("satisfied/every", ok, w, "a dependency counts as satisfied although one of its stand-ins may not be")


def resolved(coll):
    es = elems(coll)
    return len(es) == 1 and es[0][0].op == "E" and call("resolve_effective_dependencies")(es[0][0].a[0]) and es[0][0].a[0].a[2] is P2 and \
        es[0][0].a[0].a[3] is mk("P", 3) and not es[0][1]
