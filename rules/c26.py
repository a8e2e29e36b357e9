"""What scoring an exercise records."""
import re
from q import *
from stores import mentions
from table import *

ME, ID, GRADE, WHEN = (mk("P", i) for i in (1, 2, 3, 4))
GRADES = (("One", 1.0), ("Two", 2.0), ("Three", 3.0), ("Four", 4.0), ("Five", 5.0))
RECORD = ("record_exercise_scores", "record_exercise_deltas", "record_unit_rewards")
OPAQUE = set(RECORD) | {"get_unit_score", "get_exercise_num_trials", "propagate_rewards", "get_exercise_manifest", "get_unit_type",
                        "get_unit_type_strict", "invalidate_cached_score"}
TOUCH = ("insert", "remove", "clear", "retain", "extend", "take", "drain")


def last(t):
    return t.a[0].split("::")[-1] if t.op in ("C", "ev") else None


def number(t):
    t0 = t
    while t0.op in ("F", "V", "Pos", "Is", "Not", "VF") and t0.a:
        t0 = t0.a[0]
    return last(t0) == "get_exercise_num_trials"


def compared(v):
    """The answer to a question about the number of trials when it is v (None: unknown or no answer)."""
    def f(t):
        n = v or 0

        def val(x):
            if x.op == "K" and x.a[0] == "int" and str(x.a[1]).lstrip("-").isdigit():
                return int(x.a[1])
            return n if number(x) else None
        if t.op in ("B", "Eq"):
            a, b = (t.a[1], t.a[2]) if t.op == "B" else t.a[:2]
            if number(a) or number(b):
                x, y = val(a), val(b)
                if x is None or y is None:
                    return None
                o = t.a[0] if t.op == "B" else "Eq"
                if o in ("Lt", "Le", "Eq"):
                    return ({"Lt": x < y, "Le": x <= y, "Eq": x == y}[o],)
        elif last(t) == "get_exercise_num_trials":
            return ("NEG",) if v is None else ("POS",)
        elif t.op == "F" and number(t) and t.a[1] == "ok":
            return ("NEG",) if v is None else ("POS",)
        return None
    return f


def scoring(F, grade, trials, known=True):
    """One run of score_exercise on a known or unknown exercise with this grade and that many earlier trials."""
    root = [p for p in F.impl_of.get("scheduler::ExerciseScheduler::score_exercise", []) if "DepthFirstScheduler" in p]
    if len(root) != 1:
        return None, None
    cmp = compared(trials)

    def orc(t):
        if t is GRADE:
            return (grade,)
        n = last(t) if t.op == "C" else None
        if n == "get_exercise_manifest":
            return ("POS",) if known is True else ("NEG",)
        if n in ("get_unit_type", "get_unit_type_strict"):
            return ("POS", "Exercise") if known is True else ("POS", known) if known else ("NEG",)
        return cmp(t)
    terms.ORACLE[0] = orc
    try:
        E = Engine(F, opaque=lambda q: q.split("::")[-1] in OPAQUE, nest=True, vals=True,
                   event=lambda n: n.split("::")[-1] in RECORD or n.split("::")[-1] in TOUCH,
                   watch_call=lambda n: n == "keeps" or n.split("::")[-1] in OPAQUE or n.split("::")[-1] in TOUCH,
                   watch_store=lambda t: mentions(t, lambda x: x is ME))
        r = E.run(root[0])
        return root[0], r
    finally:
        terms.ORACLE[0] = None


def single(t, adt):
    """The only element of a list holding exactly one record."""
    x = t.a if t.op == "Arr" else None
    if x is None and t.op == "S":
        x = [y for y, _ in t.a]
    if x is not None and len(x) == 1 and x[0].op == "A" and x[0].a[0].split("::")[-1] == adt:
        return x[0]
    return None


def amount(t):
    """The number a constant stands for."""
    if t.op == "K":
        m = re.fullmatch(r"(-?[0-9.]+(?:[eE][-+]?[0-9]+)?)(?:_?[fiu][0-9]+)?", str(t.a[1]))
        return float(m.group(1)) if m else None
    return None


def successes(r):
    return [(x, fs | r.facts) for x, fs in alts(r.ret) if x.op != "Neg"]


def pay(t, name):
    """t is the previous score: what get_unit_score answered for the exercise, or zero if it had none."""
    for x, _ in alts(t):
        y = x
        while y.op in ("F", "V", "VF", "Pos") and y.a:
            y = y.a[0]
        if not (last(y) == name and y.a[-1] is ID or amount(x) == 0.0):
            return False
    return True


def check(c):
    F = c.F
    c.rule = """In every combination of grade, number of earlier trials and whether the unit is an exercise of the library: every success of
    score_exercise has recorded exactly one trial {the exercise, the grade's number, the time given}, and one delta (the grade's number
    minus the score asked for before anything was recorded) exactly if there were earlier trials, and has handed the rewards propagated
    from this exercise, grade and time to the rewards store; for other units nothing is changed and an error returned."""
    n = 0
    for known in (True, False, "Lesson", "Course"):
        for g, num in GRADES:
            for trials in (None, 0, 1, 2, 12):
                root, r = scoring(F, g, trials, known)
                if root is None:
                    c.fail("anchor/score_exercise", "", "operation not found")
                    return
                n += 1
                w = "%s:%s" % tuple(F.fns[root].span[:2])
                k = "%s/%s/%s" % ("exercise" if known is True else str(known or "unknown").lower(), g, "no" if trials is None else trials)
                live = [s for s in r.sites if s.name.split("::")[-1] in RECORD or s.kind == "store" or
                        s.name.split("::")[-1] in TOUCH and s.args and mentions(s.args[0], lambda x: x is ME)]
                if known is not True:
                    c.ob(k + "/rejected", not successes(r), w, "scoring something that is not an exercise succeeds")
                    for s in live:
                        c.fail(k + "/untouched", s.where(), "%s happens for a unit that is not an exercise" % s.name.split("::")[-1])
                    continue
                one(c, k, r, w, "record_exercise_scores", "ExerciseTrial",
                    {"exercise_id": lambda t: t is ID, "score": lambda t: amount(t) == num, "timestamp": lambda t: t is WHEN}, True)
                one(c, k, r, w, "record_exercise_deltas", "ExerciseDelta",
                    {"exercise_id": lambda t: t is ID, "timestamp": lambda t: t is WHEN,
                     "delta": lambda t: t.op == "B" and t.a[0] == "Sub" and amount(t.a[1]) == num and pay(t.a[2], "get_unit_score")},
                    bool(trials))
                for s in r.sites:
                    if s.name.split("::")[-1] in ("get_unit_score", "get_exercise_num_trials"):
                        late = [x for x in s.facts if x.op == "ev" and last(x) in ("record_exercise_scores", "record_exercise_deltas")]
                        c.ob(k + "/before", not late, s.where(), "the previous state is asked for after the new one was recorded")
                got = successes(r)
                c.ob(k + "/succeeds", got, w, "scoring an exercise never succeeds")
                for x, fs in got:
                    ok = [e for e in fs if last(e) == "record_unit_rewards" and last(e.a[-1]) == "propagate_rewards" and
                          e.a[-1].a[2:] == (ID, GRADE, WHEN)]
                    c.ob(k + "/rewards", ok, w, "scoring an exercise may end without its rewards having been recorded")
                for s in r.sites:
                    if s.name.split("::")[-1] == "record_unit_rewards":
                        c.ob(k + "/rewards-of-the-trial", last(s.args[-1]) == "propagate_rewards" and s.args[-1].a[2:] == (ID, GRADE, WHEN),
                             s.where(), "records %s" % show(s.args[-1], 4))
    c.floor("combinations", n, 50)


def one(c, k, r, w, op, adt, want, expected):
    sites = [s for s in r.sites if s.name.split("::")[-1] == op]
    for s in sites:
        rec = single(s.args[-1], adt)
        if not expected:
            c.fail("%s/%s/unexpected" % (k, op), s.where(), "%s is recorded although there is nothing to compare with" % adt)
            continue
        if c.ob("%s/%s/single" % (k, op), rec is not None and not s.loop, s.where(), "not exactly one record: %s" % show(s.args[-1], 5)[:200]):
            d = dict(rec.a[2:])
            for f, p in want.items():
                c.ob("%s/%s/%s" % (k, op, f), f in d and p(d[f]), s.where(), "%s is %s" % (f, show(d.get(f), 6)[:200]))
    if expected:
        for x, fs in successes(r):
            es = [e for e in fs if last(e) == op]
            c.ob("%s/%s/always" % (k, op), len({e.a[-1] for e in es}) == 1, w,
                 "scoring an exercise may end without having recorded its %s" % adt if not es else "recorded more than once")
