"""Blacklist respected in every batch."""
from absint import *
import terms

BL = "blacklist::Blacklist::blacklisted"


def has(facts, term, cls):
    f = fact(term, cls)
    return f in facts or any(x.op == "all" and x.a[1] is f for x in facts)


def bl_false(facts):
    """Terms known not to be blacklisted."""
    out = set()
    for x in facts:
        if x.op == "all":
            x = x.a[1]
        if x.op == "is" and x.a[1] is False and x.a[0].op == "C" and x.a[0].a[0] == BL:
            out.add(x.a[0].a[2])
    return out


def strip(t):
    while t.op in ("Pos",):
        t = t.a[0]
    return t


def calls(t, name):
    return t.op == "C" and t.a[0].endswith(name)


def lesson_of(lessons, ex):
    """Which of the terms denotes the lesson of ex."""
    for l in lessons:
        if calls(l, "::get_exercise_lesson") and l.a[-1] is ex:
            return l
        # ex is drawn from the exercises of l
        if ex.op == "E" and calls(ex.a[0], "::get_lesson_exercises") and ex.a[0].a[-1] is l:
            return l
    return None


def course_of(courses, lesson):
    for c in courses:
        if calls(c, "::get_lesson_course") and c.a[-1] is lesson:
            return c
        if lesson.op == "E" and calls(lesson.a[0], "::get_course_lessons") and lesson.a[0].a[-1] is c:
            return c
    return None


def check(c):
    c.rule = """Every construction of a scheduling candidate reachable from get_exercise_batch (all functions inlined,
    closures and iterator adaptors evaluated) must be dominated by facts blacklisted(exercise)=false,
    blacklisted(lesson of it)=false and blacklisted(course of that)=false; candidate ids are never rewritten afterwards."""
    c.assumptions += ["a blacklist read does not fail (a failing read is the subject of the error-surfacing property)",
                      "the blacklist does not change while a batch is being assembled"]
    terms.NOFAIL.add(BL)
    root = c.fn("DepthFirstScheduler as scheduler::ExerciseScheduler::get_exercise_batch")
    if not root:
        return
    adt = "scheduler::Candidate"
    if not c.ob("anchor/candidate", adt in c.F.adts, "", "candidate type"):
        return
    E = Engine(c.F, opaque=lambda p: "unit_scorer::" in p, watch_adts=[adt], watch_fields=[(adt, "exercise_id")])
    r = E.run(root)
    c.analysed["functions_evaluated"] = len(E.visited)
    c.analysed["evaluations"] = E.evals
    sites = {}
    for s in r.sites:
        ex = s.arg("exercise_id")
        if ex is None:
            continue
        if s.kind == "agg" and ex.op == "C" and ex.a[0] == "default":
            continue       # ..Default::default(): overwritten by the enclosing construction
        sites.setdefault((s.fn, ex), []).append(s)
    c.floor("candidate construction sites", len({s[0] for s in sites}), 1)
    for r in ("c15", "c35"):
        c.include(r, lambda k: "LocalBlacklist" in k)
    for (fn, ex), ss in sites.items():
        for s in ss:
            ok_ids = bl_false(s.facts)
            why = []
            for e, g in alts(ex):
                ids = ok_ids | bl_false(g)
                if e not in ids:
                    why.append("exercise not known to be off the blacklist")
                l = lesson_of(ids, e)
                if l is None:
                    why.append("its lesson not known to be off the blacklist")
                elif course_of(ids, l) is None:
                    why.append("its course not known to be off the blacklist")
            entry = " <- ".join(x[0].split("::")[-1] for x in reversed(s.chain))
            c.ob("candidate/%s/%s" % (fn.split("::{")[0], show(ex, 3)), not why, s.where(),
                 "candidate with exercise id %s built via %s: %s" % (show(ex), entry, "; ".join(why) or "all three excluded"))
