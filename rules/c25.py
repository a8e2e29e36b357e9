"""How often each exercise was scheduled."""
from q import *
from sched import CAND, PARTIAL, modes
from stores import mentions
from rules.c27 import at_me, chain, grown
from table import *

ME = mk("P", 1)
ADD = ("insert",)
TOUCH = ("insert", "remove", "clear", "entry", "retain", "or_insert", "or_insert_with", "drain", "extend")
OPAQUE = ("get_initial_candidates", "knock_out_reviews", "filter_candidates", "shuffle_candidates", "select_exercises",
          "get_exercise_manifest", "inside_blacklisted")


def last(t):
    return t.a[0].split("::")[-1] if t.op in ("C", "ev") else None


def unpos(t):
    while t.op == "Pos":
        t = t.a[0]
    return t


def entry(place):
    """(map, key) of a place that is an entry of a map."""
    if last(place) == "get" and len(place.a) == 3:
        return place.a[1], place.a[2]
    if place.op == "At":
        return place.a[0], place.a[1]
    return None


def check(c):
    F = c.F
    c.rule = """On every success of get_exercise_batch, for each exercise manifest returned, the entry of one map for its id has grown by one,
    and nothing else is done to that map; every candidate's frequency is what the same map holds for its exercise, 0 if nothing."""
    root = [p for p in F.impl_of.get("scheduler::ExerciseScheduler::get_exercise_batch", []) if "DepthFirstScheduler" in p]
    if not c.ob("anchor/get_exercise_batch", len(root) == 1, "", "operation not found"):
        return
    root = root[0]
    w = "%s:%s" % tuple(F.fns[root].span[:2])
    E = Engine(F, opaque=lambda q: q.split("::")[-1] in OPAQUE, watch_store=lambda t: isinstance(t, terms.T) and at_me(t),
               event=lambda n: n.split("::")[-1] in ADD,
               watch_call=lambda n: n.split("::")[-1] in TOUCH or n.split("::")[-1] in PARTIAL, vals=True)
    r = E.run(root)
    ups = [(s, count(s.args)) for s in r.sites if s.args and count(s.args)]
    maps = {x[0] for _, x in ups}
    if not c.ob("count/kept", len(maps) == 1, w, "scheduling an exercise is counted in %d places" % len(maps)):
        return
    m = maps.pop()
    n = len(ups)
    for x, fs in alts(r.ret):
        if x.op == "Neg":
            continue
        fs = fs | r.facts
        coll = payload(x)
        good = False
        for f in fs:
            if f.op != "all" or not (f.a[0] is coll or same_elems(f.a[0], coll)):
                continue
            g = f.a[1]
            u = count(g.a[1:]) if g.op == "ev" else None
            if u and u[0] is m:
                good = good or all(field(unpos(e), "id") in ids(u[1]) for e, _ in elems(coll))
        c.ob("count/each", good, w, "an exercise may be returned without being counted as scheduled")
        for s in r.sites:
            if s.name.split("::")[-1] in PARTIAL and any(a is coll or same_elems(a, coll) for a in s.args if isinstance(a, terms.T)):
                c.fail("count/all/" + s.name.split("::")[-1], s.where(), "only a part of the exercises returned is looked at")
    once(c, F, E, root, [s for s, _ in ups])
    for s in r.sites:
        nm = s.name.split("::")[-1]
        if s.kind == "store" and (s.args[0] is m or m in chain(s.args[0]) or entry(s.args[0]) and entry(s.args[0])[0] is m):
            c.ob("count/by-one", count(s.args), s.where(), "the count becomes %s" % show(s.args[1], 4)[:200])
        elif s.kind == "call" and s.args and s.args[0] is m and nm not in ("entry", "get") and nm not in PARTIAL:
            c.ob("count/other/" + nm, count(s.args), s.where(), "the counts are changed otherwise")
        elif s.kind == "call" and nm in ("or_insert", "or_insert_with") and s.args and s.args[0].op == "Entry" and \
                s.args[0].a[0] is m and len(s.args[0].a) == 2:
            c.ob("count/from-zero", s.args[1] is K("int", 0), s.where(), "the first time counts from %s" % show(s.args[1], 3))
    # what candidates are told
    _, res = modes(F)
    told = 0
    for mode, rr in sorted(res.items()):
        for s in rr.sites:
            if s.kind == "agg" and s.name == CAND and s.arg("frequency") is not None:
                told += 1
                ex = s.arg("exercise_id")
                want = mk("C", "get", m, ex)
                ok = all(t is K("int", 0) or strip(t) is want or strip(t) is payload(want) for t, _ in alts(s.arg("frequency")))
                real = any(strip(t) in (want, payload(want)) for t, _ in alts(s.arg("frequency")))
                c.ob("told/%s" % mode, ok and real, s.where(), "the frequency of a candidate is %s" % show(s.arg("frequency"), 5)[:200])
    c.floor("counts and candidates", n + told, 10)


def once(c, F, E, root, ups):
    """Growth happens in one statement, reached by one chain of calls."""
    outer = {}
    for s in ups:
        f = F.fns[s.fn]
        while f.parent_fn and f.parent_fn in F.fns:
            f = F.fns[f.parent_fn]
        outer.setdefault(f.path, set()).add((s.fn != f.path, tuple(s.span[:3])))
    c.ob("count/once", len(outer) == 1, "", "exercises are counted in %s" % sorted(outer))
    for g, spans in outer.items():
        direct = [x for x in spans if not x[0]] or spans
        c.ob("count/once-in-function", len(direct) == 1, "", "%s counts %d times" % (g, len(direct)))
        seen = set()
        while g != root and g not in seen:
            seen.add(g)
            calls = []
            for p in set(E.visited) | {root}:
                p = p[0] if isinstance(p, tuple) else p
                if p in F.fns:
                    calls += [(p, i) for i, t in F.fns[p].calls() if (t.get("f") or {}).get("path") == g]
            calls = sorted(set(calls))
            if not c.ob("count/once-called", len(calls) == 1, "", "%s is called from %d places: %s" % (g, len(calls), calls)):
                break
            f = F.fns[calls[0][0]]
            while f.parent_fn and f.parent_fn in F.fns:
                f = F.fns[f.parent_fn]
            g = f.path


def count(a):
    """(map, key) if this changes the entry of a map to one more than it was."""
    if len(a) == 2 and isinstance(a[0], terms.T) and entry(a[0]):
        m, k = entry(a[0])
        return (m, k) if all(grown(a[0], v) or v is K("int", 1) and fs == {fact(a[0], "NEG")} for v, fs in alts(a[1])) else None
    if len(a) == 3 and all(isinstance(x, terms.T) for x in a) and at_me(a[0]):
        old = mk("C", "get", a[0], a[1])
        for v, fs in alts(a[2]):
            if v.op != "B" or v.a[0] != "Add" or K("int", 1) not in v.a:
                return None
            o = v.a[1] if v.a[2] is K("int", 1) else v.a[2]
            for x, _ in alts(o):
                if not (x is K("int", 0) or strip(x) in (old, payload(old))):
                    return None
        return a[0], a[1]
    return None


def strip(t):
    while t.op in ("Pos", "V"):
        t = t.a[0]
    return t


def ids(k):
    return {unpos(x) for x, _ in alts(k)} | {k}


def same_elems(a, b):
    return {unpos(x) for x, _ in elems(a)} == {unpos(x) for x, _ in elems(b)}
