"""How rewards travel through the graph."""
from q import *
from rules.c26 import GRADES, amount, last
from rules.c27 import subs
from sched import PARTIAL
from stores import mentions
from table import *

ME, ID, GRADE, WHEN = (mk("P", i) for i in (1, 2, 3, 4))
ADD = ("insert", "push", "push_back", "push_front", "or_insert", "extend", "append", "collect")
DOWN, UP = "get_encompasses", "get_encompassed_by"


def popped(t):
    return t.op == "C" and t.a[0] == "popped"


def of_popped(t, name):
    return t.op == "F" and t.a[1] == name and popped(t.a[0])


def bare(t):
    """(t without abs, whether it had one)"""
    return (t.a[1], True) if last(t) == "abs" else (t, False)


def factors(t):
    if t.op == "B" and t.a[0] == "Mul":
        return factors(t.a[1]) + factors(t.a[2])
    return [t]


def world(grade, known):
    """Answers to everything but thresholds: known is how the unit's earlier reward compares (None: there is none)."""
    plus = grade in ("Four", "Five")

    def earlier(t):
        return t.op == "F" and t.a[1] == "value" and mentions(t, lambda x: last(x) == "get" and of_popped(x.a[-1], "unit_id"))

    def f(t):
        if t is GRADE:
            return (grade,)
        n = last(t) if t.op == "C" else None
        if n in ("get_exercise_lesson", "get_lesson_course"):
            return ("POS",)
        if n == "is_empty" and last(t.a[1]) in ("get_exercise_lesson", "get_lesson_course"):
            return (False,)
        if n == "get" and of_popped(t.a[-1], "unit_id"):
            return ("NEG",) if known is None else ("POS",)
        if n == "contains_key" and of_popped(t.a[-1], "unit_id"):
            return (known is not None,)
        if popped(t):
            return None
        if t.op == "B" and t.a[0] in ("Lt", "Le") or t.op == "Eq":
            o = t.a[0] if t.op == "B" else "Eq"
            x, y = t.a[-2:]
            (a, ax), (b, bx) = bare(x), bare(y)
            c = None
            if of_popped(a, "value") and amount(b) == 0:
                c = 1 if plus or ax else -1
            elif of_popped(b, "value") and amount(a) == 0:
                c = -1 if plus or bx else 1
            elif known is not None and (of_popped(a, "value") and earlier(b) or of_popped(b, "value") and earlier(a)):
                # known: how strong the earlier one is compared with the new one
                c = {"weaker": 1, "stronger": -1}[known] * (1 if of_popped(a, "value") else -1)
                if ax != bx:
                    return None
                if not ax and not plus:
                    c = -c
            if c is not None:
                return ({"Lt": c < 0, "Le": c <= 0, "Eq": False}[o],)
        return None
    return f


def open_(t):
    """The condition is not decided."""
    try:
        if t.op in ("Next",) or popped(t) or last(t) == "is_empty" and t.a[1].op == "S":
            return False
        got = [x for x in (True, False, "POS", "NEG") if assume(t, x) is not None]
        b = [x for x in got if isinstance(x, bool)]
        o = [x for x in got if not isinstance(x, bool)]
        return len(b) != 1 and len(o) != 1 and t is not GRADE
    except Exception:
        return True


def threshold(t):
    """Only compares amounts and weights with constants."""
    if t.op in ("Not", "Is"):
        return threshold(t.a[0])
    if t.op == "Phi":
        return all((x in (TRUE, FALSE) or threshold(x)) and all(f.op == "is" and (threshold(f.a[0]) or not open_(f.a[0])) for f in fs)
                   for x, fs in t.a)
    return t.op == "B" and t.a[0] in ("Lt", "Le") and (amount(t.a[1]) is not None or amount(t.a[2]) is not None)


def check(c):
    F = c.F
    c.rule = """For each grade and each way the reward already known for a unit may compare: the rewards made start from the lesson and the course of
    the exercise and go on from every unit reached, only along what a unit encompasses if the grade is Four or Five and only along what
    encompasses it otherwise; an amount is the edge's weight times a constant, at first of the grade's sign and at most 1 in size, later
    positive and below 1, times the amount it continues; the weight likewise; nothing below the thresholds is passed on, nothing
    else is left out, a weaker reward never replaces a stronger one, and all carry the time of the trial."""
    adt = [a for a in F.adts if a.split("::")[-1] == "UnitReward"]
    p = c.fn("RewardPropagator::propagate_rewards")
    if not p or not c.ob("anchor/UnitReward", len(adt) == 1, "", "type not found"):
        return
    w = "%s:%s" % tuple(F.fns[p].span[:2])
    n = 0
    for g, num in GRADES:
        plus = num > 3
        getter, other = (DOWN, UP) if plus else (UP, DOWN)
        for known in (None, "weaker", "stronger"):
            terms.ORACLE[0] = world(g, known)
            try:
                E = Engine(F, watch_adts=adt, popsym=True, event=lambda q: False,
                           watch_call=lambda q: q.split("::")[-1] in PARTIAL - {"pop"} or
                           q.split("::")[-1] in ADD)
                r = E.run(p)
                n += judge(c, "%s/%s" % (g, known or "first"), r, E, plus, getter, known, w)
            finally:
                terms.ORACLE[0] = None
    c.floor("rewards made", n, 15)


def kind(src):
    """Whose neighbours they are."""
    if of_popped(src, "unit_id"):
        return "later"
    if last(src) == "get_exercise_lesson" and src.a[-1] is ID:
        return "lesson"
    if last(src) == "get_lesson_course" and last(src.a[-1]) == "get_exercise_lesson" and src.a[-1].a[-1] is ID:
        return "course"
    return "else"


def judge(c, k, r, E, plus, getter, known, w):
    roots = set()
    n = onward = 0
    adds = [s for s in r.sites if s.kind == "call" and s.name.split("::")[-1] in ADD]
    # weak rewards may as well be dropped when their turn comes
    turn = [s for s in adds if any(popped(t) for t, _ in added(s))]
    popped_limited = turn and all(any(limited(s.facts, mk("F", x, "value")) for x in subs(s.args[-1]) if popped(x)) for s in turn)
    limits = {y for s in r.sites if s.kind == "agg" or s in adds and s not in turn for f in s.facts for y in amounts(f)} | \
             {y for s in adds if s not in turn for _, g in added(s) for f in g for y in amounts(f)}
    for s in r.sites:
        if s.kind == "call" and s.name.split("::")[-1] in PARTIAL:
            c.fail(k + "/all/" + s.name.split("::")[-1], s.where(), "only a part is looked at")
        if s.kind != "agg":
            continue
        n += 1
        u, v, wt, ts = (s.arg(x) for x in ("unit_id", "value", "weight", "timestamp"))
        es = [x.a[0] if x.op == "F" and x.a[1] == "0" else None for x, _ in alts(u)]
        srcs = []
        for e in es:
            coll = e.a[0] if e is not None and e.op == "E" else None
            while coll is not None and coll.op in ("V", "Pos") or coll is not None and last(coll) in ("unwrap_or_default",):
                coll = coll.a[0] if coll.op != "C" else coll.a[1]
            srcs.append(coll.a[-1] if coll is not None and last(coll) == getter else None)
        if not c.ob(k + "/direction", srcs and None not in srcs, s.where(), "a reward is given to %s" % show(u, 6)[:200]):
            continue
        c.ob(k + "/time", ts is WHEN, s.where(), "the time is %s" % show(ts, 4))
        kinds = {kind(x) for x in srcs}
        later = kinds == {"later"}
        if not c.ob(k + "/source", later or kinds <= {"lesson", "course"}, s.where(),
                    "a reward is passed on from %s" % [show(x, 5)[:200] for x in srcs]):
            continue
        if later:
            onward += 1
        else:
            roots |= kinds
        edges = {field(e, "1") for e in es}
        for nm, t in (("value", v), ("weight", wt)):
            fs = factors(t)
            edge = [x for x in fs if {y for y, _ in alts(x)} == edges]
            old = [x for x in fs if of_popped(x, nm) and x.a[0] is (srcs[0].a[0] if later else None)]
            rest = [x for x in fs if x not in edge and x not in old]
            con = 1.0
            for x in rest:
                con = con * amount(x) if con is not None and amount(x) is not None else None
            ok = len(edge) == 1 and len(old) == (1 if later else 0) and con is not None
            if c.ob("%s/%s/product" % (k, nm), ok, s.where(), "the %s is %s" % (nm, show(t, 7)[:250])):
                if later:
                    good = 0 < con < 1
                elif nm == "value":
                    good = 0 < con <= 1 if plus else -1 <= con < 0
                else:
                    good = 0 < con <= 1
                c.ob("%s/%s/factor" % (k, nm), good, s.where(), "the constant factor is %s" % con)
        on = [(x, f | x.facts) for x in adds for t, f in added(x) if t.op == "A" and field(t, "unit_id") is u]
        c.ob(k + "/limited", limited(s.facts, v) or any(limited(f, v) for _, f in on) or popped_limited, s.where(),
             "rewards are passed on however small they are")
        odd = [x for x in s.conds if open_(x) and not threshold(x)]
        odd += [f for x, f2 in on for f in f2 if f not in s.facts and f.op == "is" and open_(f.a[0]) and not threshold(f.a[0])]
        odd += [t for t in (v, wt) if len({y for g in [*s.conds, *s.facts] for y in compared(g, t)}) > 1]
        c.ob(k + "/nothing-left-out", not odd, s.where(), "only passed on if %s" % [show(x, 7)[:200] for x in odd])
    c.ob(k + "/from", roots == {"lesson", "course"}, w, "rewards start from %s" % (sorted(roots) or "nothing"))
    ins = [s for s in r.sites if s.kind == "call" and s.name.split("::")[-1] in ("insert", "or_insert") and any(popped(a) or a.op == "A" for a in s.args[1:])]
    if known == "stronger":
        for s in ins:
            c.fail(k + "/strongest", s.where(), "a weaker reward replaces a stronger one")
        c.ob(k + "/stop", not onward, w, "a weaker reward for a unit is passed on")
    else:
        c.ob(k + "/recorded", ins, w, "a reward reaching a unit is not recorded")
        c.ob(k + "/onward", onward, w, "rewards do not go beyond the first units")
        for s in ins:
            odd = [x for x in s.conds if open_(x) and not threshold(x)]
            odd += [f for f in s.facts if f.op == "is" and open_(f.a[0]) and not amounts(f) <= limits]
            c.ob(k + "/recorded-always", not odd, s.where(), "only recorded if %s" % [show(x, 7)[:200] for x in odd])
            c.ob(k + "/under-its-unit", of_popped(s.args[1], "unit_id") and s.args[2] is s.args[1].a[0], s.where(),
                 "recorded for %s" % show(s.args[1], 4))
    c.to_the_end(k, adds + [s for s in r.sites if s.kind == "agg"])
    some = [y for x, _ in alts(r.ret) for y, _ in elems(x) if popped(y) or y.op == "A"]
    c.ob(k + "/returned", some or known == "stronger", w, "no rewards are returned")
    for x, _ in alts(r.ret):
        for y, g in elems(x):
            c.ob(k + "/returned", popped(y) or y.op == "A", w, "the rewards returned are %s" % show(y, 5)[:200])
            odd = [f for f in g if f.op == "is" and open_(f.a[0]) and not amounts(f) <= limits]
            c.ob(k + "/all-returned", not odd, w, "only returned if %s" % [show(f, 7)[:200] for f in odd])
    return n


def compared(f, t):
    """The constants t is compared with in a condition."""
    return {abs(y) for x in subs(f) if x.op == "B" and x.a[0] in ("Lt", "Le") for a, b in ((1, 2), (2, 1)) if bare(x.a[a])[0] is t
            for y in [amount(x.a[b])] if y}


def amounts(f):
    """The constants a condition compares with."""
    if f.op == "is" and f.a[0].op == "B" and f.a[0].a[0] in ("Lt", "Le"):
        return {abs(y) for y in map(amount, f.a[0].a[1:]) if y}
    return set()


def added(s):
    """The elements a call adds, each with what is known about it."""
    return [(y, f) for a in s.args[1:] or s.args for x, f0 in alts(a) for y, f in elems(x)] + \
           [(x, frozenset()) for a in s.args[1:] for x, _ in alts(a)]


def limited(facts, v):
    """The reward v is at least some positive amount."""
    return any(f.op == "is" and f.a[0].op == "B" and f.a[0].a[0] in ("Lt", "Le") and mentions(f.a[0], lambda x: x is v) and
               max(abs(amount(f.a[0].a[1]) or 0), abs(amount(f.a[0].a[2]) or 0)) > 0 for f in facts)
