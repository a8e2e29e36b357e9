"""What the score of each unit is computed from."""
from rules.c08 import PARTIAL, US, getter, sub, last, takes_unit
from q import *
from table import *

ME, ID, P3 = mk("P", 1), mk("P", 2), mk("P", 3)
me = lambda x: x is ID
B3 = (("POS", True), ("POS", False), ("NEG",))


def within(n, of=me):
    return lambda x: x.op == "E" and getter(x.a[0], n) and of(x.a[0].a[-1])


LESSON, COURSE = within("get_lesson_exercises"), within("get_course_lessons")


def check(c):
    F = c.F
    c.rule = """Complete truth tables, over whether units are blacklisted, superseded, present and have scores, of the functions giving
    the score and average number of trials of exercises, lessons and courses: a lesson's is the average over its exercises that are not
    blacklisted, a course's over its lessons that have one; blacklisted and superseded units have none. A unit is superseded exactly
    if it has superseding units, all its exercises in use have been practised, and no superseding unit, those superseded themselves
    replaced by their own superseding units, has a score below the threshold."""
    ms = [f for f in own_methods(F, US) if "{" not in f.d["name"]]
    fn = {}
    # the functions by role: those get_unit_score and get_avg_trials turn to
    for root, kinds in (("get_unit_score", ("Exercise", "Lesson", "Course")), ("get_avg_trials", ("Lesson", "Course"))):
        p = c.fn("UnitScorer::" + root)
        if not p:
            return
        w = "%s:%s" % tuple(F.fns[p].span[:2])
        for ty in kinds:
            r, _ = run(F, p, [Atom("type", call("get_unit_type", "get_unit_type_strict"), None)], [("POS", ty)],
                       opaque=lambda q: q != p and q.startswith(US + "::") and takes_unit(F, q))
            got = {t for x, _ in alts(r.ret) for t in sub(x) if t.op == "C" and t.a[0].startswith(US + "::")}
            if c.ob("%s/%s" % (root, ty), len(got) == 1 and all(t.a[-1] is ID for t in got), w,
                    "the answer for a %s is %s" % (ty.lower(), show(r.ret, 5)[:200])):
                t = got.pop()
                fn[(root, ty)] = t.a[0]
                for x, _ in alts(r.ret):
                    while x.op == "Pos":
                        x = x.a[0]
                    c.ob("%s/%s/unchanged" % (root, ty), x is t or x.op == "Neg", w, "the answer is %s" % show(x, 5)[:200])
    if len(fn) != 5:
        return
    c.floor("scoring functions", len(set(fn.values())), 5)
    sup = [f.path for f in ms if f.locals[0] == "bool" and f.argc == 3 and "Ustr" in f.locals[2] and "Set" in f.locals[3]]
    rec = [f.path for f in ms if f.argc == 2 and f.locals[0].startswith("std::option") and "Set" in f.locals[0]]
    if not c.ob("anchor/superseded", len(sup) == 1 and len(rec) == 1, "", "functions deciding what is superseded: %s %s" % (sup, rec)):
        return
    sup, rec = sup[0], rec[0]
    nested.clear()
    nested.update(f.path for f in ms if "Result<std::option::Option" in f.locals[0])
    trials = {f.path for f in ms if takes_unit(F, f.path) and "usize" in f.locals[0]}
    opq = set(fn.values()) | {sup, rec} | trials | {US + "::get_unit_score"}
    O = lambda p: dict(opaque=lambda q: q in opq and q != p, nest=True)
    is_ = lambda *ps: (lambda t: t.op == "C" and t.a[0] in ps)
    cached = Atom("cached", lambda t: getter(t, "get") and t.a[-1] is ID, None)
    bl = Atom("blacklisted", on(call("blacklisted"), me), B3)
    spr = Atom("superseding", on(is_(rec), me), OPT)
    su = Atom("superseded", lambda t: is_(sup)(t) and t.a[2] is ID, BOOL)
    # scores
    p = fn[("get_unit_score", "Lesson")]
    table(c, F, p, cached, [bl, spr, su], Atom("exercises", call("get_lesson_exercises"), OPT),
          [Atom("exercise blacklisted", on(call("blacklisted"), LESSON), B3)], lambda t: is_(fn[("get_unit_score", "Exercise")])(t) and LESSON(t.a[-1]),
          lambda i: True not in i, O(p), True)
    p = fn[("get_unit_score", "Course")]
    table(c, F, p, cached, [bl, spr, su], Atom("lessons", call("get_course_lessons"), OPT),
          outcome("lesson score", lambda t: is_(fn[("get_unit_score", "Lesson")])(t) and COURSE(t.a[-1])),
          lambda t: is_(fn[("get_unit_score", "Lesson")])(t) and COURSE(t.a[-1]), lambda i: "POS" in i, O(p), True)
    # numbers of trials
    p = fn[("get_avg_trials", "Lesson")]
    tr = lambda t: is_(*trials)(t) and LESSON(t.a[-1])
    table(c, F, p, cached, [], Atom("exercises", call("get_lesson_exercises"), OPT),
          [Atom("exercise blacklisted", on(call("blacklisted"), LESSON), B3)] + outcome("trials", tr), tr, None, O(p), False)
    p = fn[("get_avg_trials", "Course")]
    tr2 = lambda t: is_(fn[("get_avg_trials", "Lesson")])(t) and COURSE(t.a[-1])
    table(c, F, p, cached, [], Atom("lessons", call("get_course_lessons"), OPT),
          [Atom("lesson blacklisted", on(call("blacklisted"), COURSE), B3)] + outcome("trials", tr2) + [
           Atom("superseding", on(is_(rec), COURSE), OPT), Atom("superseded", lambda t: is_(sup)(t) and COURSE(t.a[2]), BOOL)], tr2, None, O(p), False)
    exercise(c, F, fn[("get_unit_score", "Exercise")], trials)
    superseded(c, F, sup, rec, fn, opq)


def core(t):
    while t.op == "F" and t.a[1] == "ok":
        t = t.a[0]
    return t


def outcome(name, match):
    """Whether a computation has an answer, which it may give as an option or as the result of something that does not fail."""
    return [Atom(name + " computed", lambda t: match(t) and t.a[0] in nested, (("POS",),)), Atom(name, lambda t: match(core(t)), OPT)]


# functions with two levels of results
nested = set()


def strip(t, n):
    for _ in range(n):
        if t.op != "Pos":
            return None
        t = t.a[0]
    return t


def table(c, F, p, cached, own, members, inner, elempred, used, opts, result):
    """own: atoms about the unit itself; members: whether it has any; inner: atoms about one of them."""
    w = "%s:%s" % tuple(F.fns[p].span[:2])
    name = p.split("::")[-1]
    atoms = [cached] + own + [members] + inner
    some = False
    n = 0
    for row in rows([Atom(a.name, a.match, a.values or (("NEG",),)) for a in atoms]):
        r, _ = run(F, p, atoms, row, **opts)
        n += 1
        d = dict(zip([a.name for a in atoms], row))
        none = members.name and d[members.name] == ("NEG",)
        if own and (True in d["blacklisted"] or d["superseding"] == ("POS",) and True in d["superseded"]):
            none = True
        if any(a.name.endswith("blacklisted") and True in d[a.name] for a in inner) or \
                any(a.name in ("trials", "lesson score") and d[a.name][-1] == "NEG" for a in inner) or \
                "superseding" in [a.name for a in inner] and d["superseding"] == ("POS",) and True in d["superseded"]:
            none = True        # the unit's members, all alike, do not count
        avg = []
        for x, fs in alts(r.ret):
            if x.op == "Neg":
                # a failing computation, or, for functions that cannot fail, no value
                if result:
                    fail = [f.a[0] for f in fs if f.op == "is" and f.a[1] == "NEG"]
                    c.ob("%s/fails" % name, none is False and not own or not none or fail, w, "fails where the unit has no score (%s)" % label(atoms, row))
                continue
            y = strip(x, 2 if result else 1)
            if result and y is None and x.op == "Pos" and x.a[0].op == "Neg":
                continue
            avg.append(y if y is not None else x)
        if none:
            c.ob("%s/none" % name, not avg, w, "has a value, %s, although it should have none (%s)" % (
                ", ".join(show(x, 4)[:120] for x in avg), label(atoms, row)))
            if result:
                c.ob("%s/answers" % name, any(x.op == "Pos" for x, _ in alts(r.ret)), w, "no answer is given (%s)" % label(atoms, row))
            continue
        c.ob("%s/some" % name, avg, w, "has no value although it should (%s)" % label(atoms, row))
        for y in avg:
            why = average(y, elempred, atoms, row)
            c.ob("%s/average" % name, why is None, w, "%s (%s)" % (why, label(atoms, row)))
        some = some or bool(avg)
        if result or True:
            # without members in use there is no value rather than a division by zero
            c.ob("%s/empty" % name, any(x.op == "Neg" or x.op == "Pos" and x.a[0].op == "Neg" for x, _ in alts(r.ret)), w,
                 "a unit without anything in use has a value")
    c.ob("%s/reached" % name, some, w, "no average is ever computed")
    # which members are added up, and which are counted, whatever the others are like
    def used(row):
        d = dict(zip([a.name for a in inner], row))
        return not any(True in v for k, v in d.items() if k.endswith("blacklisted")) and \
            not any(d[k][-1] == "NEG" for k in ("trials", "lesson score") if k in d) and \
            not (d.get("superseding") == ("POS",) and True in d["superseded"])
    out = [cached] + own + [members]
    best = [("NEG",) for a in out[:-1]] + [members.values[0]]
    best = [(("POS", False) if a.name == "blacklisted" else (False,) if a.name == "superseded" else v) for a, v in zip(out, best)]
    r, _ = run(F, p, [Atom(a.name, a.match, a.values) for a in out], best, watch_call=lambda q: last(q) in PARTIAL, **opts)
    sums = [t for x, _ in alts(r.ret) for t in sub(x) if t.op == "C" and t.a[0] in ("sum", "len", "count") and
            any(x.op == "B" and x.a[0] == "Div" for x in sub(x))]
    c.ob("%s/members" % name, len(sums) >= 2, w, "no sum is divided by a number")
    for t in sums:
        es = elems(t.a[1])
        for row in rows(inner):
            left = [not excluded(g, inner, row) for _, g in es]
            c.ob("%s/which" % name, any(left) == used(row), w, "%s members %s where %s" % (
                {"sum": "adding up"}.get(t.a[0], "counting"), "includes" if any(left) else "leaves out", label(inner, row)))
    for s in r.sites:
        if s.kind == "call" and last(s.name) in PARTIAL:
            c.fail("%s/partial" % name, "%s:%s" % s.span[:2], "only part of the members is used (%s)" % last(s.name))
    c.analysed["rows/" + name] = n


def average(y, elempred, atoms, row):
    """Why y is not the average of what elempred recognises, over exactly the elements in use."""
    if y.op != "B" or y.a[0] != "Div":
        return "the value is %s" % show(y, 6)[:300]
    n, d = y.a[1], y.a[2]
    while n.op == "Pos":
        n = n.a[0]
    if not getter(n, "sum"):
        return "the sum is %s" % show(n, 6)[:300]
    if not getter(d, "len", "count"):
        return "the divisor is %s" % show(d, 6)[:300]
    ns, ds = elems(n.a[1]), elems(d.a[1])
    for x, g in ns:
        if not elempred(core(x)):
            return "%s is added" % show(x, 6)[:200]
    if len({x for x, _ in ns}) != 1:
        return "the sum is over %s" % show(n.a[1], 5)[:200]
    el = core(ns[0][0]).a[-1]
    for x, g in ds:
        if not (elempred(core(x)) or x is el):
            return "%s is counted" % show(x, 6)[:200]
    if len({x for x, _ in ds}) != 1:
        return "the count is over %s" % show(d.a[1], 5)[:200]
    orc = oracle(atoms, row)
    for x, g in list(ns) + list(ds):
        for f in g:
            if f.op == "is" and (orc(f.a[0]) or elempred(core(f.a[0]))):
                continue
            if f.op == "or" and all(any(h.op == "is" and (orc(h.a[0]) or elempred(core(h.a[0]))) for h in k) for k in f.a[0]):
                continue
            return "only elements with %s are used" % show(f, 5)[:200]
    return None


def exercise(c, F, p, trials):
    w = "%s:%s" % tuple(F.fns[p].span[:2])
    cached = Atom("cached", lambda t: getter(t, "get") and t.a[-1] is ID, None)
    les = lambda t: getter(t, "get_exercise_lesson") and t.a[-1] is ID
    cou = lambda t: getter(t, "get_lesson_course") and any(les(x) for x, _ in alts(t.a[-1]))
    isscore = lambda t: getter(t, "score") and len(t.a) >= 5
    isreward = lambda t: getter(t, "score_rewards")
    apply_ = Atom("apply", call("apply_reward"), BOOL)
    data = lambda t, n, of: any(getter(x, n) and of(x.a[2]) for x in sub(t))
    good = 0
    ats = [cached, apply_, Atom("lesson", les, None), Atom("course", call("get_lesson_course"), None), Atom("reward", isreward, OPT)]
    for row in ((("NEG",), (a,), ("POS",), ("POS",), rw) for a in (True, False) for rw in (("POS",), ("NEG",))):
        r, _ = run(F, p, ats, row)
        for x, fs in alts(r.ret):
            if x.op == "Neg":
                continue
            for v, _ in alts(x.a[0]) if x.op == "Pos" else ((x, None),):
                sc = [t for t in sub(v) if isscore(t)]
                if not c.ob("exercise/scorer", len(sc) == 1, w, "the score is %s" % show(v, 5)[:200]):
                    continue
                s = sc[0]
                val = mk("F", s, "value")
                c.ob("exercise/trials", data(s.a[3], "get_scores", me), w, "trials scored: %s" % show(s.a[3], 5)[:160])
                c.ob("exercise/deltas", data(s.a[4], "get_deltas", me), w, "deltas scored: %s" % show(s.a[4], 5)[:160])
                if row[1] == (False,):
                    c.ob("exercise/no-reward", v is val, w, "without a reward the score is %s" % show(v, 5)[:200])
                    good += v is val
                    continue
                ap = [t for t in (f.a[0] for f in fs if f.op == "is") if getter(t, "apply_reward")]
                ok = v.op == "C" and last(v.a[0]) == "clamp" and show(v.a[2]).strip("'") in ("0.0", "0") and show(v.a[3]).strip("'") in ("5.0", "5")
                ok = ok and v.a[1].op == "B" and v.a[1].a[0] == "Add" and val in v.a[1].a[1:]
                if ok:
                    other = [x for x in v.a[1].a[1:] if x is not val]
                    ok = len(other) == 1
                    if ok and row[4] == ("POS",):
                        rw = strip(other[0], 1) or other[0]
                        ok = isreward(rw) and data(rw.a[2], "get_rewards", cou) and data(rw.a[3], "get_rewards", les) and \
                            not data(rw.a[2], "get_rewards", les) and not data(rw.a[3], "get_rewards", cou)
                c.ob("exercise/reward", ok, w, "with a reward the score is %s" % show(v, 7)[:300])
                good += ok
    c.floor("ways an exercise is scored", good, 2)
    for t in trials:
        ins = Engine(F).run(t)
    return


def superseded(c, F, sup, rec, fn, opq):
    w = "%s:%s" % tuple(F.fns[sup].span[:2])
    mentioned = {q for q, _ in site_calls(F, F.fns[sup])}
    allp = [q for q in mentioned if q in F.fns and F.fns[q].locals[0] == "bool" and q.startswith(US + "::")]
    ex = fn[("get_unit_score", "Exercise")]
    seen = lambda t: t.op == "C" and t.a[0] in allp and t.a[-1] is ID
    if allp:
        atoms = [Atom("empty", on(call("is_empty"), lambda x: x is P3), BOOL), Atom("practised", seen, BOOL),
                 Atom("score", lambda t: t.op == "C" and t.a[0] == US + "::get_unit_score" and t.a[-1].op == "E" and t.a[-1].a[0] is P3, OPT),
                 Cmp("threshold", lambda t: t.op == "C" and t.a[0] == US + "::get_unit_score", lambda t: t.op == "F" and t.a[1] == "superseding_score")]
        for row in rows(atoms):
            r, ret = run(F, sup, atoms, row, opaque=lambda q: q != sup and (q in opq or q in allp))
            e, pr, sc, th = row[0][0], row[1][0], row[2][0], row[3]
            if e or not pr:
                want = {False}
            elif sc == "NEG":
                continue        # whether units without a score hold back is left open
            elif th == "<":
                want = None     # false if there is any such unit
            else:
                want = {True}
            c.ob("superseded/table", ret == want if want else False in ret, w, "answers %s (%s)" % (ret, label(atoms, row)))
            if want is None:
                # with at least one such unit the answer is no: true only for an empty set
                c.ob("superseded/all", all(x is not TRUE or any(f.op == "all" and P3 in set(sub(f)) or f.op in ("is",) and P3 in set(sub(f)) for f in fs)
                                           for x, fs in alts(r.ret)), w, "superseded although a superseding unit is below the threshold")
        # all of its exercises in use
        for q in allp:
            practised(c, F, q, ex, opq)
    else:
        c.fail("anchor/practised", w, "nothing decides whether all exercises have been practised")
    replaced(c, F, sup, rec, opq)


def practised(c, F, q, ex, opq):
    w = "%s:%s" % tuple(F.fns[q].span[:2])
    name = q.split("::")[-1]
    les = lambda t: getter(t, "get_lesson_course")
    deep = within("get_lesson_exercises", COURSE)
    want = {"Exercise": me, "Lesson": LESSON, "Course": deep}
    for ty in want:
        ups = [Atom("own", on(call("blacklisted"), me), ((True,), (False,)))]
        if ty == "Lesson":
            ups.append(Atom("course", on(call("blacklisted"), les), BOOL))
        if ty == "Course":
            ups.append(Atom("lesson", on(call("blacklisted"), COURSE), BOOL))
        if ty != "Exercise":
            ups.append(Atom("exercise", on(call("blacklisted"), want[ty]), BOOL))
        isel = want[ty]
        sc = lambda t: t.op == "C" and t.a[0] == ex and isel(t.a[-1])
        atoms = [Atom("type", call("get_unit_type", "get_unit_type_strict"), None)] + ups + [
            Atom("scored", sc, OPT), Cmp("score", sc, lambda t: t.op == "K" and str(t.a[1]) in ("0", "0.0"), (">", "="))]
        for row in rows([Atom(a.name, None, a.values or (("POS", ty),)) if isinstance(a, Atom) else a for a in atoms]):
            row = tuple(("POS",) + v if a.name in ("own", "course", "lesson", "exercise") else v for a, v in zip(atoms, row))
            r, ret = run(F, q, atoms, row, opaque=lambda p: p != q and p in opq)
            d = dict(zip([a.name for a in atoms], row))
            out = any(True in d.get(k, ()) for k in ("own", "course", "lesson", "exercise"))
            if out:
                ok = ret == {True}
            elif d["scored"] == ("NEG",) or d["score"] == "=":
                ok = False in ret
            else:
                ok = ret == {True}
            c.ob("%s/%s" % (name, ty), ok, w, "answers %s for a %s (%s)" % (ret, ty.lower(), label(atoms, row)))


def replaced(c, F, sup, rec, opq):
    """Superseding units that are themselves superseded are replaced by their own."""
    w = "%s:%s" % tuple(F.fns[rec].span[:2])
    by = lambda of: (lambda t: getter(t, "get_superseded_by") and of(t.a[-1]))
    helper = [q for q in F.reachable([rec]) if q in F.fns and q.startswith(US + "::") and q != rec and q not in opq and
              "Set" in F.fns[q].locals[0] and q in {x for x, _ in site_calls(F, F.fns[q])} ]
    for row in ((("POS",),), (("NEG",),)):
        r, _ = run(F, rec, [Atom("superseding", by(me), None)], row, opaque=lambda q: q != rec and (q in opq or q in helper))
        if row[0] == ("NEG",):
            c.ob("recursive/none", same(r.ret, NEG) or r.ret is mk("Neg"), w, "a unit that nothing supersedes is given %s" % show(r.ret, 5)[:160])
        else:
            for x, _ in alts(r.ret):
                t = strip(x, 1)
                c.ob("recursive/some", t is not None and (not helper or t.op == "C" and t.a[0] in helper and by(me)(t.a[-1])), w,
                     "a unit with superseding units is given %s" % show(x, 5)[:160])
    for h in helper:
        w = "%s:%s" % tuple(F.fns[h].span[:2])
        e = lambda t: t.op == "E" and t.a[0] is ID
        atoms = [Atom("superseding", by(e), OPT), Atom("superseded", lambda t: t.op == "C" and t.a[0] == sup and e(t.a[2]), BOOL)]
        for row in rows(atoms):
            r, _ = run(F, h, atoms, row, opaque=lambda q: q in opq or q == h)
            es = [x for x, _ in elems(r.ret)] if r.ret is not None else []
            if row[0] == ("POS",) and row[1] == (True,):
                ok = es and all(x.op == "E" and x.a[0].op == "C" and x.a[0].a[0] == h and by(e)(x.a[0].a[-1]) for x in es)
            else:
                ok = es and all(e(x) for x in es)
            c.ob("recursive/element", ok, w, "a superseding unit is replaced by %s (%s)" % (", ".join(show(x, 5)[:100] for x in es), label(atoms, row)))
    c.floor("recursive replacement of superseding units", len(helper), 1)
