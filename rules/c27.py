"""What grades do to the relearn pile and the success rate."""
from rules.c26 import *

TAKES = ("remove", "clear", "retain", "take", "drain", "swap_remove", "pop", "extract_if")


def at_me(t):
    return mentions(t, lambda x: x is ME)


def check(c):
    F = c.F
    c.rule = """For each grade, on every success of score_exercise: the exercise was added to the relearn pile exactly if the grade is One or
    Two and taken out otherwise; exactly one of two counters grew by one, one of them for One and Two and the other for Three to Five, in
    both cases only after the trial was recorded. The success rate is the share of the latter counter in their sum, and 1 when both are 0.
    Nothing else adds to the pile or takes from it, except that blacklisted exercises are dropped; options do not touch it."""
    pile, place, n = set(), {}, 0
    for (g, num), before in [(x, y) for x in GRADES for y in (None, 0, 3)]:
        root, r = scoring(F, g, before)
        if root is None:
            c.fail("anchor/score_exercise", "", "operation not found")
            return
        w = "%s:%s" % tuple(F.fns[root].span[:2])
        low = num < 3
        for x, fs in successes(r):
            add = {e.a[1] for e in fs if last(e) == "insert" and at_me(e.a[1]) and e.a[-1] is ID}
            take = {e.a[1] for e in fs if last(e) == "remove" and at_me(e.a[1]) and e.a[-1] is ID}
            n += 1
            if c.ob(g + "/pile", len(add if low else take) == 1, w, "the grade %s does not %s the relearn pile" % (
                    g, "add the exercise to" if low else "take the exercise out of")):
                pile |= add if low else take
            c.ob(g + "/pile-only", not (take if low else add), w, "the grade %s also %s the relearn pile" % (
                g, "takes the exercise out of" if low else "adds the exercise to"))
            up = [e for e in fs if e.op == "ev" and e.a[0] == "store" and grown(e.a[1], e.a[2])]
            if c.ob(g + "/counted", len({e.a[1] for e in up}) == 1, w, "the grade %s is counted %d times" % (g, len(up))):
                place.setdefault(low, set()).add(up[0].a[1])
        for s in r.sites:
            nm = s.name.split("::")[-1]
            if nm in ("insert", "remove") and s.args and at_me(s.args[0]) and s.args[0] in pile or s.kind == "store":
                c.ob(g + "/after", any(f.op == "is" and f.a[1] == "POS" and last(f.a[0]) == "record_exercise_scores" for f in s.facts),
                     s.where(), "takes effect although the trial may not have been recorded")
                if s.kind == "store":
                    c.ob(g + "/store", grown(*s.args), s.where(), "stores %s" % show(s.args[1], 4))
                    c.ob(g + "/once", not s.loop, s.where(), "counted in a loop")
                else:
                    c.ob(g + "/exercise", s.args[1] is ID, s.where(), "applies to %s" % show(s.args[1], 4))
                    c.ob(g + "/right", (nm == "insert") == low, s.where(), "the grade %s causes %s on the pile" % (g, nm))
    c.floor("combinations", n, 15)
    if not c.ob("pile/one", len(pile) == 1, "", "not one pile: %s" % [show(x) for x in pile]):
        return
    pile = pile.pop()
    if c.ob("counters/two", len(place.get(True, ())) == len(place.get(False, ())) == 1 and place[True] != place[False], "",
            "the counters are %s" % {k: [show(x) for x in v] for k, v in place.items()}):
        bad, good = place[True].pop(), place[False].pop()
        rate(c, good, bad)
    # nothing else touches the pile
    seen = 0
    for item, impls in sorted(F.impl_of.items()):
        if not item.startswith("scheduler::ExerciseScheduler::"):
            continue
        for p in impls:
            if "DepthFirstScheduler" not in p:
                continue
            seen += 1
            nm = item.split("::")[-1]
            E = Engine(F, watch_call=lambda q: q == "keeps" or q.split("::")[-1] in TAKES + ("insert", "extend", "entry", "push"),
                       watch_store=lambda t: isinstance(t, terms.T) and mentions(pile, lambda x: x is t) or pile in chain(t), vals=True,
                       opaque=lambda q: q.split("::")[-1] in ("get_initial_candidates", "get_unit_score", "inside_blacklisted",
                                                              "get_exercise_manifest", "unit_exists", "propagate_rewards") or
                       "UnitScorer::" in q)
            r = E.run(p)
            for s in r.sites:
                if not s.args or not (s.args[0] is pile or s.kind == "store"):
                    continue
                k = "pile/%s/%s" % (nm, s.name.split("::")[-1])
                if s.kind == "keeps":
                    terms.ORACLE[0] = oracle([Atom("blacklisted", call("inside_blacklisted", "blacklisted"), None),
                                              Atom("known", call("get_exercise_manifest"), None),
                                              Atom("exists", call("unit_exists"), None)], [("POS", False), ("POS",), ("POS", True)])
                    try:
                        lost = assume(s.args[1], False) is not None
                    finally:
                        terms.ORACLE[0] = None
                    c.ob(k, not lost, s.where(), "an exercise that is not blacklisted may be dropped from the pile: it stays only if %s"
                         % show(s.args[1], 5))
                elif s.kind == "store":
                    c.fail(k, s.where(), "replaces the pile")
                elif nm != "score_exercise" and s.name.split("::")[-1] != "retain":
                    c.fail(k, s.where(), "%s changes the pile" % nm)
    c.floor("operations", seen, 8)


def chain(t):
    """The places t is a part of."""
    out = []
    while isinstance(t, terms.T) and t.op in ("F", "At", "E", "V"):
        t = t.a[0]
        out.append(t)
    return out


def grown(place, val):
    return val.op == "B" and val.a[0] == "Add" and {val.a[1], val.a[2]} == {place, K("int", 1)} or \
        val.op == "C" and val.a[0].split("::")[-1] in ("saturating_add", "wrapping_add") and val.a[1] is place and val.a[2] is K("int", 1)


def rate(c, good, bad):
    """The function answering with the share of good ones."""
    F = c.F
    names = [x.a[1] for x in (good, bad)]
    root = good.a[0]
    fld = root.a[1] if root.op == "F" and names[0].isdigit() else None
    found = 0
    for f in F.fns.values():
        if f.argc != 1 or f.locals[0] != "f32" or "{" in f.path or not (f.d.get("impl_self") or "").endswith("SchedulerData"):
            continue
        r = Engine(F).run(f.path)
        reads = lambda g: [x for x in subs(r.ret) if x.op == "F" and x.a[1] == g.a[1] and (fld is None or x.a[0].op == "F" and
                                                                                          x.a[0].a[1] == fld)]
        if not reads(good) and not reads(bad):
            continue
        found += 1
        w = "%s:%s" % tuple(f.span[:2])
        g, b = reads(good), reads(bad)
        if not c.ob("rate/reads", len(set(g)) == len(set(b)) == 1, w, "does not read both counters"):
            continue
        g, b = g[0], b[0]
        sums = {mk("B", "Add", g, b), mk("B", "Add", b, g)}
        div = one = 0
        for x, fs in alts(r.ret):
            if x.op == "B" and x.a[0] == "Div":
                div += 1
                c.ob("rate/share", x.a[1] is g and x.a[2] in sums, w, "the success rate is %s" % show(x, 6))
            else:
                one += 1
                c.ob("rate/none", amount(x) == 1.0, w, "the success rate is %s" % show(x, 6))
                zero = [y for y in fs if y.op == "is" and y.a[0].op in ("B", "Eq") and y.a[1] is True]
                c.ob("rate/none-when", zero or any(y.op == "is" and y.a[0].op == "B" and y.a[0].a[0] == "Lt" and y.a[1] is False
                                                   for y in fs), w, "the rate is 1 although there are trials: %s" % [show(y, 5) for y in fs])
        c.ob("rate/both", div == 1 and one == 1, w, "the success rate is %s" % show(r.ret, 6))
    c.ob("rate/found", found == 1, "", "%d functions answer with the success rate" % found)


def subs(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo += [y for y in terms._kids(x.a)]
    return out
