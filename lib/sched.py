"""The search for candidates, one run of the interpreter per kind of filter."""
import terms
from absint import *
from q import *
from stores import mentions
from table import *

ITEM, CAND = "scheduler::StackItem", "scheduler::Candidate"
OPAQUE = {"unit_exists", "satisfied_dependency", "get_unit_score", "get_exercise_urgency", "get_exercise_velocity",
          "get_avg_trials", "get_superseding_recursive", "is_superseded", "all_valid_exercises_in_lesson", "inside_blacklisted",
          "unit_passes_filter"}
PARTIAL = {"skip", "take", "step_by", "skip_while", "take_while", "nth", "truncate", "drain", "split_off", "swap_remove",
           "chunks", "first", "last", "pop"}
UNIT_FILTERS = ("CourseFilter", "LessonFilter", "MetadataFilter", "ReviewListFilter", "Dependents", "Dependencies")
P1, P2 = mk("P", 1), mk("P", 2)
_runs = {}


def last(n):
    return n.split("::")[-1]


def is_unit_filter(t):
    """The unit filter inside the requested filter."""
    return t.op == "VF" and t.a[0] is P2 or t.op == "F" and t.a[-1] == "0" and any(x is P2 or getattr(x, "op", "") in ("V", "As") and
                                                                               x.a[0] is P2 for x in t.a)


def modes(F):
    """{mode: (root, Result)}"""
    k = id(F)
    if k in _runs:
        return _runs[k]
    root = [p for p in F.fns if p.endswith("DepthFirstScheduler::get_initial_candidates")]
    out = {}
    if len(root) == 1:
        for m in ("none", "StudySession") + UNIT_FILTERS:
            v = ("NEG",) if m == "none" else ("POS", "StudySession") if m == "StudySession" else ("POS", "UnitFilter")
            # a unit without an entry has no dependencies; unit_exists always has an answer
            at = [Atom("filter", lambda t: t is P2, [v]), Atom("lookups", call("get_dependencies", "unit_exists"), [("POS",)])]
            row = [v, ("POS",)]
            if m in UNIT_FILTERS:
                at.append(Atom("unit filter", is_unit_filter, [(m,)]))
                row.append((m,))
            terms.ORACLE[0] = oracle(at, row)
            try:
                E = Engine(F, opaque=lambda q: last(q) in OPAQUE, watch_adts=(ITEM, CAND),
                           watch_call=lambda n: n == root[0] or last(n) in PARTIAL)
                out[m] = E.run(root[0])
            finally:
                terms.ORACLE[0] = None
    _runs[k] = (root[0] if len(root) == 1 else None, out)
    return _runs[k]


def only(t, names):
    """The facts gating the elements of a collection that are not about the named lookups having a result."""
    return [f for f in t if not (f.op == "is" and f.a[1] == "POS" and f.a[0].op == "C" and last(f.a[0].a[0]) in names)]


def stands_for(x, unit):
    """x is the unit, possibly abbreviated because it was nested too deeply."""
    return x is unit or x.op == "W" and x.a == ("deep", unit.op, unit.id % 1000003)


def forall(facts, getter, unit, pred, names=None):
    """Facts saying that pred holds for every element of getter(unit)."""
    out = []
    for f in facts:
        if f.op != "all" or f.a[1].op != "is":
            continue
        es = elems(f.a[0])
        if len(es) != 1:
            continue
        e, g = es[0]
        if e.op != "E" or e.a[0].op != "C" or last(e.a[0].a[0]) != getter or not stands_for(e.a[0].a[-1], unit):
            continue
        if [x for x in only(g, (getter,)) if not (x.op == "is" and x.a[0] is e.a[0])] and names is None:
            continue
        if pred(f.a[1].a[0], f.a[1].a[1], e):
            out.append(f)
    return out


def refutes(facts, atoms, row):
    """Whether the facts exclude this combination of outcomes."""
    terms.ORACLE[0] = oracle(atoms, row)
    try:
        return any(contradicts(facts, f) for f in facts)
    finally:
        terms.ORACLE[0] = None


def units(site, name="unit_id"):
    """The alternatives of the unit a stack item is made for, each with everything known about it."""
    return [(x, site.facts | g) for x, g in alts(site.arg(name))]
