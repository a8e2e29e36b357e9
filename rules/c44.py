"""Looking up the units of a library."""
import terms
from sched import *

LIB = "course_library::LocalCourseLibrary"
ME = mk("P", 1)
P3 = mk("P", 3)
SORTS = {"sort", "sort_unstable", "sorted", "sorted_unstable"}
SORTS_BY = {"sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "sorted_by", "sorted_by_key"}
PLAIN = {"as_str", "deref", "to_string", "clone", "as_ref", "borrow", "as_bytes", "as_char_ptr"}


def check(c):
    F = c.F
    c.rule = """For every way the request and the library can be, a lookup answers from the map or relation of the right kind of unit, with the
    entry of the unit asked for, and lists every unit it should and no other, in order; a prefix is compared with the start of each id."""
    fs = F.adts[LIB]["variants"][0]["fields"] if LIB in F.adts else []
    M = {}
    for kind in ("Course", "Lesson", "Exercise"):
        hit = [f["name"] for f in fs if "data::%sManifest" % kind in f["ty"] and "Map" in f["ty"]]
        c.ob("anchor/" + kind, len(hit) == 1, "", "the map of %s manifests is not found" % kind)
        if len(hit) != 1:
            return
        M[kind] = field(ME, hit[0])
    impl = {p.split("::")[-1]: p for p in F.fns if F.fns[p].d.get("impl_self") == LIB and "::CourseLibrary" in str(F.fns[p].d.get("impl_trait"))}
    n = 0
    for kind, m in M.items():
        p = impl.get("get_%s_manifest" % kind.lower())
        if not p:
            c.fail("anchor/manifest/" + kind, "", "no lookup of %s manifests" % kind)
            continue
        n += 1
        for known in (True, False):
            v = ("POS",) if known else ("NEG",)
            r, E = go(F, p, [Atom("entry", lambda t: entry_of(t, m, mk("P", 2)), [v])] + has(m, P2, known), [v] + [(known,)] * 1)
            for x, g in alts(r.ret):
                ok = (known and value_of(x, m, mk("P", 2))) if class_of(x) == "POS" else (not known and class_of(x) == "NEG") \
                    if class_of(x) else entry_of(x, m, P2)
                c.ob("manifest/%s/%s" % (kind, known), ok, where(F, p), "answers %s" % show(x, 5)[:200])
    table = []
    p = impl.get("get_course_ids")
    table.append(("course-ids", p, [], [], lambda: keys(M["Course"]), True))
    for kind, name, over in (("Lesson", "get_lesson_ids", "get_course_lessons"), ("Exercise", "get_exercise_ids", "get_lesson_exercises")):
        for known in (True, False):
            v = ("POS",) if known else ("NEG",)
            table.append(("%s-ids/%s" % (kind, known), impl.get(name), [Atom("entry", call(over), [v])], [v],
                          (lambda over=over: children(over, P2)) if known else None, True))
    at = [Atom("unit", lambda t: t is P2, None), Atom("type", lambda t: call("get_unit_type")(t) and mentions(t.a[-1], lambda x: x is P2), None),
          Atom("relation", call("get_course_lessons", "get_lesson_exercises"), None)]
    for kind in ("Course", "Lesson", "Exercise", "unknown"):
        ty = ("NEG",) if kind == "unknown" else ("POS", kind)
        for v in (("POS",), ("NEG",)):
            want = {"Course": lambda: nested(P2), "Lesson": lambda: children("get_lesson_exercises", P2),
                    "Exercise": lambda: single(P2), "unknown": lambda: nothing}[kind]
            if v == ("NEG",) and kind in ("Course", "Lesson"):
                want = lambda: nothing
            table.append(("all-exercises/%s/%s" % (kind, v[0]), impl.get("get_all_exercise_ids"), at, [("POS",), ty, v], want, True))
    table.append(("all-exercises/library", impl.get("get_all_exercise_ids"), at[:1], [("NEG",)], lambda: keys(M["Exercise"]), True))
    for kind in ("Course", "Lesson", "Exercise", "any"):
        ty = ("NEG",) if kind == "any" else ("POS", kind)
        for b in (True, False):
            ms = list(M.values()) if kind == "any" else [M[kind]]
            at2 = [Atom("type", lambda t: t is P3, None), Atom("starts", lambda t: call("starts_with")(t) and len(t.a) == 3 and t.a[2] is P2 and
                                                               any(key_of(base(t.a[1]), x) for x in M.values()), None)]
            table.append(("prefix/%s/%s" % (kind, b), impl.get("get_matching_prefix"), at2, [ty, (b,)],
                          (lambda ms=ms: keys(*ms)) if b else (lambda: nothing), False))
    for key, p, at, row, want, order in table:
        if not p:
            c.fail("anchor/" + key, "", "the lookup is not found")
            continue
        n += 1
        r, E = go(F, p, at, row)
        listed(c, key, F, p, r, want, order, at, row)
    c.floor("lookups and kinds of requests", n, 24)


def where(F, p):
    return "%s:%s" % (F.fns[p].d.get("file", ""), p.split("::")[-1])


def has(m, u, known):
    return [Atom("has", lambda t: call("contains_key")(t) and t.a[1] is m and t.a[2] is u, None)]


def go(F, p, atoms, row):
    terms.ORACLE[0] = oracle(atoms, row)
    try:
        E = Engine(F, opaque=lambda q: last(q) in ("get_course_lessons", "get_lesson_exercises", "get_unit_type"),
                   watch_call=lambda n: last(n) in SORTS | SORTS_BY | PARTIAL, vals=True)
        return E.run(p), E
    finally:
        terms.ORACLE[0] = None


def base(t):
    while t.op == "C" and last(t.a[0]) in PLAIN and len(t.a) == 2:
        t = t.a[1]
    return t


def entry_of(t, m, u):
    return t.op == "C" and last(t.a[0]) in ("get", "get_key_value", "index") and t.a[1] is m and t.a[2] is u


def value_of(x, m, u):
    return mentions(x, lambda y: entry_of(y, m, u)) and all(entry_of(base(y), m, u) or y is payload(mk("C", "get", m, u))
                                                           for y, _ in alts(payload(x)))


def key_of(t, m):
    """t ranges over the ids the map has entries for."""
    if t.op == "F" and t.a[-1] == "id" and t.a[0].op == "E":
        t = t.a[0]
        return t.a[0].op == "C" and last(t.a[0].a[0]) in ("values", "into_values") and t.a[0].a[1] is m
    if t.op == "F" and t.a[-1] == "0" and t.a[0].op == "E":
        return t.a[0].a[0] is m
    return t.op == "E" and t.a[0].op == "C" and last(t.a[0].a[0]) in ("keys", "into_keys") and t.a[0].a[1] is m


def relation(coll, name, unit):
    return coll.op == "C" and last(coll.a[0]) == name and unit(coll.a[-1])


def keys(*ms):
    return [lambda t, m=m: key_of(t, m) for m in ms]


def children(name, u):
    return [lambda t: t.op == "E" and relation(t.a[0], name, lambda x: x is u or same_alts(x, u))]


def nested(u):
    lesson = children("get_course_lessons", u)[0]
    return [lambda t: t.op == "E" and relation(t.a[0], "get_lesson_exercises", lambda x: lesson(x))]


def single(u):
    return [lambda t: t is u or t is payload(u)]


nothing = []


def same_alts(x, u):
    return x is payload(u)


def listed(c, key, F, p, r, want, order, at, row):
    w = where(F, p)
    for x, g in alts(r.ret):
        if want is None:
            c.ob(key, class_of(x) == "NEG", w, "an unknown unit is answered with %s" % show(x, 5)[:200])
            continue
        if class_of(x) == "NEG":
            c.fail(key, w, "a known unit is answered with nothing")
            continue
        coll = payload(x) if x.op == "Pos" or class_of(x) == "POS" else x
        told = oracle(at, row)
        members(c, key, w, coll, want(), lambda t, v: told(t) is not None and v in told(t) or v == "POS" and call(
            "get_lesson_exercises", "get_course_lessons")(t))
        if order and want():
            es = lambda t: frozenset(e for e, _ in elems(t))
            ok = any(all(told(x) for x in s.conds) and s.args and es(s.args[0]) == es(coll) and natural(F, s) for s in r.sites if last(s.name) in SORTS | SORTS_BY)
            c.ob(key + "/order", ok, w, "the ids are not sorted before they are returned")
    for s in r.sites:
        c.ob(key + "/part", last(s.name) not in PARTIAL, s.where(), "only a part of the units is listed")


def natural(F, s):
    """The sort orders the ids as they compare."""
    if last(s.name) in SORTS:
        return True
    k = s.args[1] if len(s.args) == 2 else None
    if k is None or k.op != "Clo" or k.a[0] not in F.fns:
        return False
    t = Engine(F).run(k.a[0]).ret
    if "key" in last(s.name):
        return base(t) is P2
    return t.op == "C" and last(t.a[0]) == "cmp" and base(t.a[1]) is P2 and base(t.a[2]) is P3


def members(c, key, w, coll, want, decided):
    got = elems(coll)
    left = list(want)
    for e, fs in got:
        hit = [h for h in want if h(base(e))]
        c.ob(key + "/only", hit, w, "lists %s" % show(e, 6)[:200])
        fs = [f for f in fs if not (f.op == "is" and decided(f.a[0], f.a[1]))]
        if hit and not fs:
            left = [h for h in left if h not in hit]
        c.ob(key + "/gate", not fs, w, "some are left out: %s" % [show(f, 5)[:120] for f in fs][:3])
    c.ob(key + "/all", not left, w, "not every unit is listed; only %s" % show(coll, 6)[:200])
