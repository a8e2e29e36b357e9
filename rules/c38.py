"""A filter restricts a batch to what it asks for."""
from sched import *
from rules.c02 import fn, same_unit

KV = "data::filter::KeyValueFilter"


def check(c):
    F = c.F
    c.rule = """Every candidate the search makes is for an exercise of the candidate's lesson, and that lesson is: one the request names, under a
    lesson filter; of a course the request names, under a course filter; one passing the request's metadata filter, under a metadata
    filter; and in the review list (it, its course, or the exercise) under a review-list filter. A unit passes a metadata filter exactly as the
    truth tables of the filter's evaluation over a course and over a lesson say. A study session searches with the filter of one
    of its own parts."""
    root, M = modes(F)
    c.ob("anchor/search", root and len(M) == 8, "", "the search for candidates is not found")
    if not root:
        return
    n = 0
    for m in M:
        n += candidates(c, m, M[m])
    c.floor("candidate constructions", n, 9)
    session(c, F, root, M["StudySession"])
    tables(c, F)
    wiring(c, F)
    unitfilter(c, F)


def entry(t):
    return t.op == "E" and t.a[0].op == "C" and last(t.a[0].a[0]) == "get_review_list_entries"


def named(t, field):
    return t.op == "E" and t.a[0].op == "F" and t.a[0].a[-1] == field and mentions(t, lambda x: x is P2)


def in_lesson(e, l):
    """e ranges over the exercises of lesson l."""
    return e.op == "E" and e.a[0].op == "C" and last(e.a[0].a[0]) in ("all_valid_exercises_in_lesson", "get_lesson_exercises") and \
        (e.a[0].a[-1] is l or same_unit(e.a[0].a[-1], l))


def candidates(c, m, r):
    n = 0
    for s in r.sites:
        if s.name != CAND:
            continue
        n += 1
        lesson, ex, course = s.arg("lesson_id"), s.arg("exercise_id"), s.arg("course_id")
        w = s.where()
        single = m == "ReviewListFilter" and entry(ex)
        if single:
            ok = lesson.op == "C" and last(lesson.a[0]) in ("get_exercise_lesson", "get_lesson_id") and lesson.a[-1] is ex or any(
                x.op == "C" and last(x.a[0]) in ("get_exercise_lesson", "get_lesson_id") and x.a[-1] is ex for x, _ in alts(lesson))
        else:
            ok = all(in_lesson(x, lesson) for x, _ in alts(ex))
        c.ob("%s/exercise-of-lesson" % m, ok, w, "the exercise %s is not one of the lesson %s" % (show(ex, 3)[:150], show(lesson, 3)[:100]))
        ok = any(x.op == "C" and last(x.a[0]) in ("get_lesson_course", "get_course_id") and (
            x.a[-1] is lesson or same_unit(x.a[-1], lesson) or any(x.a[-1] is y for y, _ in alts(lesson))) for x, _ in alts(course))
        c.ob("%s/course-of-lesson" % m, ok, w, "the course recorded is not the lesson's")
        if m == "LessonFilter":
            c.ob("LessonFilter/scope", all(named(x, "lesson_ids") for x, _ in alts(lesson)), w, "exercises of a lesson which was not asked for")
        elif m == "CourseFilter":
            c.ob("CourseFilter/scope", inside(s, lesson, lambda x: named(x, "course_ids")), w, "exercises of a course which was not asked for")
        elif m == "ReviewListFilter" and not single:
            c.ob("ReviewListFilter/scope", entry(lesson) or inside(s, lesson, entry), w, "exercises of a lesson outside the review list")
        elif m == "MetadataFilter":
            at = [Atom("passes", lambda t: call("unit_passes_filter")(t) and (t.a[-2] is lesson or same_unit(t.a[-2], lesson)) and
                       t.a[-1].op == "Pos" and mentions(t.a[-1], lambda x: x is P2), None)]
            c.ob("MetadataFilter/scope", refutes(s.facts, at, [("POS", False)]), w, "exercises of a lesson which does not pass the filter")
    return n


def inside(s, lesson, pred):
    """A fact says the lesson's course is among the courses asked for."""
    for f in s.facts:
        if f.op == "is" and f.a[1] is True and f.a[0].op == "C" and last(f.a[0].a[0]) == "contains":
            coll, x = f.a[0].a[1], f.a[0].a[2]
            xs = [y for y, _ in alts(x)]
            if all(pred(e) for e, _ in elems(coll)) and elems(coll) and any(
                    y.op == "C" and last(y.a[0]) in ("get_lesson_course", "get_course_id") and
                    (y.a[-1] is lesson or same_unit(y.a[-1], lesson)) for y in xs):
                return True
        if f.op == "ex" and False:
            return True
    # any(|id| id == course): the comparison holds for some element
    for f in s.facts:
        if f.op == "ex":
            for g in f.a[1]:
                if g.op == "is" and g.a[1] is True and g.a[0].op in ("Eq", "B") and all(pred(e) for e, _ in elems(f.a[0])) and mentions(
                        g.a[0], lambda y: y.op == "C" and last(y.a[0]) in ("get_lesson_course", "get_course_id") and
                        (y.a[-1] is lesson or same_unit(y.a[-1], lesson))):
                    return True
    return False


def session(c, F, root, r):
    calls = [s for s in r.sites if s.name == root]
    c.ob("session/search", calls, "", "a study session leads to no search")
    for s in calls:
        for x, g in alts(s.args[1]):
            ok = x.op == "Neg"
            if x.op == "Pos":
                for y, _ in alts(x.a[0]):
                    fl = [z for z, _ in alts(field(y, "0"))] if y.op == "A" and y.a[1] == "UnitFilter" else []
                    ok = bool(fl) and all(part_filter(z) for z in fl)
            if x.op == "Neg":
                # only without parts or for a part without filter
                bad = [v for v in ("SavedFilter", "UnitFilter") if not refutes(g | s.facts, [
                    Atom("parts", call("is_empty"), None), Atom("part", lambda t: t.op == "E" and t.a[0].op == "F" and t.a[0].a[-1] == "parts", None)],
                    [(False,), (v,)])]
                ok = not bad
            c.ob("session/own-part", ok, s.where(), "the session searches with %s" % show(x, 5)[:200])


def part_filter(t):
    own = lambda z: mentions(z, lambda x: x.op == "E" and x.a[0].op == "F" and x.a[0].a[-1] == "parts" and mentions(x, lambda y: y is P2))
    if t.op != "F" or t.a[-1] != "filter":
        return False
    b = t.a[0]
    if b.op == "C" and last(b.a[0]) in ("get_filter", "get_saved_filter"):
        return own(b.a[-1]) and b.a[-1].op == "F" and b.a[-1].a[-1] == "filter_id"
    return own(t) and not mentions(t, lambda x: x.op == "C")


# ---------------------------------------------------------------- metadata filters
def variants(name):
    return Atom("kind", lambda t: t is P1, [(name,)])


def kvfield(n):
    return lambda t: t.op == "F" and t.a[-1] == n and mentions(t, lambda x: x is P1)


def lookup(who):
    """metadata.get(key) for the filter's own key in the metadata of the given manifest."""
    return lambda t: t.op == "C" and last(t.a[0]) == "get" and kvfield("key")(t.a[2]) and mentions(
        t.a[1], lambda x: x.op == "C" and last(x.a[0]) == "get_metadata" and x.a[1] is who)


def equal(who):
    def m(t):
        if t.op == "B" and t.a[0] == "Eq":
            a, b = t.a[1], t.a[2]
        elif t.op == "Eq":
            a, b = t.a
        elif t.op == "C" and last(t.a[0]) == "contains":
            a, b = elem(t.a[1]), t.a[2]
        else:
            return False
        for x, y in ((a, b), (b, a)):
            if kvfield("value")(x) and y.op == "E" and mentions(y, lookup(who)):
                return True
        return False
    return m


def tables(c, F):
    P3 = mk("P", 3)
    n = 0
    for name, cases in (("apply_to_lesson", (("CourseFilter", P2), ("LessonFilter", P3))), ("apply_to_course", (("CourseFilter", P2),))):
        p = [q for q in F.fns if q == KV + "::" + name]
        if len(p) != 1:
            c.fail("anchor/" + name, "", "%s not found" % name)
            continue
        p = p[0]
        w = "%s:%s" % tuple(F.fns[p].span[:2])
        for var, who in cases:
            at = [variants(var), Atom("type", kvfield("filter_type"), (("Include",), ("Exclude",))),
                  Atom("metadata", on(call("get_metadata"), lambda t: t is who), OPT), Atom("key", lookup(who), OPT), Atom("a value is equal", equal(who), BOOL),
                  Atom("metadata of the other unit", call("get_metadata"), OPT)]
            for row in rows(at):
                inc, md, ky, eqv = row[1][0] == "Include", row[2][0] == "POS", row[3][0] == "POS", row[4][0]
                if ky and not md or eqv and not ky:
                    continue
                r, v = run(F, p, at, row, watch_call=lambda q: last(q) in PARTIAL)
                n += 1
                for s in r.sites:
                    c.fail("%s/partial" % name, s.where(), "only some of the values are compared (%s)" % last(s.name))
                want = inc if eqv else not inc
                ok = want in v if eqv else v == {want}
                c.ob("%s/%s" % (name, var), ok, w, "%s gives %s" % (label(at, row), sorted(v)))
            # the comparison with a value decides
            for inc in ("Include", "Exclude"):
                at2 = [variants(var), Atom("type", kvfield("filter_type"), [(inc,)]), Atom("m", call("get_metadata"), [("POS",)]),
                       Atom("key", lookup(who), [("POS",)])]
                r, v = run(F, p, at2, [a.values[0] for a in at2])
                c.ob("%s/%s/decides" % (name, var), v == {True, False}, w, "the outcome does not depend on the metadata")
        rec = lambda t: call(name)(t) and t.a[1].op == "E" and kvfield("filters")(t.a[1].a[0])
        for op in ("All", "Any"):
            for each in (True, False):
                at = [variants("CombinedFilter"), Atom("op", kvfield("op"), [(op,)]), Atom("each", rec, [(each,)])]
                rowv = [a.values[0] for a in at]
                if name == "apply_to_course":
                    for others in (True, False):
                        at3 = at + [Atom("no other filters", call("is_empty"), [(others,)])]
                        r, v = run(F, p, at3, rowv + [(others,)], watch_call=lambda q: last(q) in PARTIAL)
                        n += 1
                        if op == "All":
                            ok = v == {True} if each else False in v
                        elif not others:
                            ok = v == {False}
                        else:
                            ok = True in v if each else v == {False}
                        c.ob("%s/combined" % name, ok, w, "%s gives %s" % (label(at3, rowv + [(others,)]), sorted(v)))
                else:
                    r, v = run(F, p, at, rowv, watch_call=lambda q: last(q) in PARTIAL)
                    n += 1
                    ok = (v == {True} if each else False in v) if op == "All" else (True in v if each else v == {False})
                    c.ob("%s/combined" % name, ok, w, "%s gives %s" % (label(at, rowv), sorted(v)))
                for s in r.sites:
                    c.fail("%s/partial" % name, s.where(), "only some of the filters are applied (%s)" % last(s.name))
        # under All, success means every filter passed
        every(c, F, p, name, w, rec)
        for args_ok in recursion(F, p, name):
            c.ob("%s/recursion" % name, args_ok[0], args_ok[1], "a nested filter is applied to other units than the outer one")
    # a lesson filter never passes for a course by itself
    p = KV + "::apply_to_course"
    if p in F.fns:
        r, v = run(F, p, [variants("LessonFilter")], [("LessonFilter",)])
        c.ob("apply_to_course/LessonFilter", v == {False}, "%s:%s" % tuple(F.fns[p].span[:2]), "a lesson filter lets whole courses pass")
    c.floor("rows of the tables of metadata filters", n, 30)


def every(c, F, p, name, w, rec):
    at = [variants("CombinedFilter"), Atom("op", kvfield("op"), [("All",)])]
    row = [("CombinedFilter",), ("All",)]
    if name == "apply_to_course":
        at.append(Atom("no other filters", call("is_empty"), [(False,)]))
        row.append((False,))
    r, _ = run(F, p, at, row)
    for x, fs in alts(r.ret):
        a = assume(x, True)
        if a is None:
            continue
        seen = set()
        for f in fs | a[0]:
            if f.op == "all" and f.a[1].op == "is" and f.a[1].a[1] is True and rec(f.a[1].a[0]):
                for e, g in elems(f.a[0]):
                    v = {h.a[1] for h in g if h.op == "is" and h.a[0] is e}
                    seen |= v or {"CourseFilter", "!CourseFilter"}
        c.ob("%s/every" % name, {"CourseFilter", "!CourseFilter"} <= seen, w, "All does not apply every filter")


def recursion(F, p, name):
    E = Engine(F, watch_call=lambda q: q == p)
    for s in E.run(p).sites:
        yield all(a is mk("P", i + 2) for i, a in enumerate(s.args[1:])), s.where()


def wiring(c, F):
    p = [q for q in F.fns if q.endswith("SchedulerData::unit_passes_filter")]
    if len(p) != 1:
        c.fail("anchor/unit_passes_filter", "", "not found")
        return
    p = p[0]
    w = "%s:%s" % tuple(F.fns[p].span[:2])
    P3 = mk("P", 3)
    opq = lambda q: last(q) in ("apply_to_course", "apply_to_lesson")
    r, _ = run(F, p, [Atom("filter", lambda t: t is P3, None)], [("NEG",)], opaque=opq)
    c.ob("unit_passes_filter/none", all(x.op == "Pos" and x.a[0] is TRUE for x, _ in alts(r.ret)), w, "a unit is left out although there is no filter")
    man = lambda t, kind, of: t.op == "C" and last(t.a[0]) == "get_%s_manifest" % kind and t.a[-1] is of
    for ty in ("Course", "Lesson", "Exercise"):
        r, _ = run(F, p, [Atom("filter", lambda t: t is P3, None), Atom("type", on(call("get_unit_type", "get_unit_type_strict"), lambda x: x is P2), None),
                          Atom("course", call("get_lesson_course"), None)],
                   [("POS",), ("POS", ty), ("POS",)], opaque=opq)
        for x, fs in alts(r.ret):
            if x.op == "Neg":
                continue
            t = x.a[0] if x.op == "Pos" else x
            ok = False
            if ty == "Course":
                ok = call("apply_to_course")(t) and t.a[1] is P3 and man(t.a[2], "course", P2)
            elif ty == "Lesson":
                ok = call("apply_to_lesson")(t) and t.a[1] is P3 and man(t.a[3], "lesson", P2) and t.a[2].op == "C" and \
                    last(t.a[2].a[0]) == "get_course_manifest" and t.a[2].a[-1].op == "C" and \
                    last(t.a[2].a[-1].a[0]) in ("get_lesson_course", "get_course_id") and t.a[2].a[-1].a[-1] is P2
            c.ob("unit_passes_filter/%s" % ty, ok, w, "the filter is decided by %s" % show(t, 4)[:200])
        if ty != "Exercise":
            c.ob("unit_passes_filter/%s/answers" % ty, any(x.op != "Neg" for x, _ in alts(r.ret)), w, "no answer is ever given")


def unitfilter(c, F):
    for name, var, fld in (("passes_course_filter", "CourseFilter", "course_ids"), ("passes_lesson_filter", "LessonFilter", "lesson_ids")):
        p = [q for q in F.fns if q.endswith("UnitFilter::" + name)]
        if len(p) != 1:
            continue
        p = p[0]
        w = "%s:%s" % tuple(F.fns[p].span[:2])
        for v in UNIT_FILTERS:
            for cont in (True, False):
                at = [Atom("kind", lambda t: t is P1, None),
                      Atom("listed", lambda t: (call("contains")(t) and kvfield(fld)(t.a[1]) and t.a[2] is P2) or
                           t.op in ("Eq", "B") and mentions(t, kvfield(fld)) and mentions(t, lambda x: x is P2), None)]
                r, got = run(F, p, at, [(v,), (cont,)])
                want = v == var and cont
                c.ob(name, want in got if want else got == {False}, w, "%s with the unit %slisted gives %s" % (v, "" if cont else "not ", got))
