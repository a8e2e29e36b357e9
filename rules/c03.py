"""Scheduler options take effect everywhere."""
from q import *
from table import *

OPT_ = (("POS",), ("NEG",))

OPT = "data::SchedulerOptions"
SCHED = "scheduler::DepthFirstScheduler"


def check(c):
    F = c.F
    c.rule = """The symbolic post-state of setting (and resetting) the options is computed by abstract interpretation; at
    every field path of the scheduler, through all nested components, whose type is the options type, the new value
    must be the given (default) one; all cached scores are emptied; the getter returns the same value; and every
    option field is read by scheduling code, with the retrieval limits bound to their own option."""
    paths = sub_paths(F, SCHED, lambda ty: ty == OPT)
    c.floor("option copies held by the scheduler", len(paths), 1)
    caches = sub_paths(F, SCHED, lambda ty: ("CachedScore" in ty or "Option<f32>" in ty) and "<" in ty and not ty.startswith("std::option"))
    c.floor("score caches", len(caches), 1)
    for name in ("set_scheduler_options", "reset_scheduler_options"):
        root = c.fn("DepthFirstScheduler as scheduler::ExerciseScheduler::" + name)
        if not root:
            continue
        E = Engine(F, event=lambda n: n.endswith("::clear"))
        r = E.run(root)
        cell = next((v for k, v in r.cells.items() if k[1] == "r1"), None)
        if not c.ob("post-state/" + name, cell is not None, "", "post-state computed"):
            continue
        want = mk("P", 2) if name.startswith("set") else None
        for p in paths:
            v = at(cell, p)
            if want is None:
                # the default value must be the same term at every copy
                want = v
                c.ob("%s/%s" % (name, ".".join(p)), "P1" not in show(v), "", "reset value %s" % show(v, 3))
                continue
            c.ob("%s/%s" % (name, ".".join(p)), same(v, want), F.fns[root].span[0],
                 "after %s the copy at %s is %s" % (name, ".".join(p), show(v, 4)))
        cleared = {show(a[0], 6) for n, a in evs(r.facts) if a}
        for p in caches:
            old = "P1." + ".".join(p)
            v = at(cell, p)
            c.ob("%s/cache/%s" % (name, p[-1]), any(x.startswith(old) for x in cleared) or v.op == "S" and not v.a,
                 F.fns[root].span[0], "cached scores at %s must be discarded by %s" % (".".join(p), name))
    g = c.fn("DepthFirstScheduler as scheduler::ExerciseScheduler::get_scheduler_options")
    if g:
        r = Engine(F).run(g)
        ok = show(r.ret) in ["P1." + ".".join(p) for p in paths]
        c.ob("getter", ok, F.fns[g].span[0], "the getter returns %s" % show(r.ret, 4))
    new = c.fn("DepthFirstScheduler::new")
    if new:
        r = Engine(F).run(new)
        for p in paths:
            v = at(r.ret, p)
            c.ob("new/" + ".".join(p), show(v) == "P1.options", F.fns[new].span[0], "the scheduler starts with %s at %s" % (show(v, 4), ".".join(p)))
    # the facade hands the options over unchanged: part of the facade property as well
    for name in ("set_scheduler_options", "reset_scheduler_options"):
        t = c.fn("Trane as scheduler::ExerciseScheduler::" + name)
        if t:
            r = Engine(F, opaque=lambda p: "DepthFirstScheduler" in p, event=lambda n: n.endswith("::" + name)).run(t)
            want = [mk("P", 2)] if name.startswith("set") else []
            ok = any(list(a[1:]) == want and show(a[0]) == "P1.scheduler" for n, a in evs(r.facts))
            c.ob("facade/" + name, ok, F.fns[t].span[0], "the facade passes the options to the scheduler")
    # preferences override the defaults
    dflt = c.fn("data::SchedulerOptions as std::default::Default::default")
    comp = lambda q: "::Local" in q or q.startswith("Local") or q.endswith("get_user_preferences")
    sch = lambda t: t.op == "F" and t.a[1] == "scheduler" and show(t.a[0]).startswith("get_user_preferences")
    atoms = [Atom("scheduler preferences", sch, OPT_), Atom("batch size preferred", lambda t: t.op == "F" and t.a[1] == "batch_size" and sch(t.a[0]), OPT_)]
    for name in ("Trane::new_local", "Trane::new_local_from_serialized"):
        p = c.fn(name)
        if not p or not dflt:
            continue
        w = "%s:%s" % tuple(F.fns[p].span[:2])
        std = Engine(F).run(dflt).ret
        for row in rows(atoms):
            r, _ = run(F, p, atoms, row, opaque=comp)
            got = 0
            for x, _ in alts(r.ret):
                o = field(field(x.a[0], "scheduler_data"), "options") if x.op == "Pos" else None
                if o is None:
                    continue
                got += 1
                for fl in F.adts[OPT]["variants"][0]["fields"]:
                    n, v = fl["name"], field(o, fl["name"])
                    if n == "batch_size" and row == (("POS",), ("POS",)):
                        ok = all(atoms[1].match(y) for y, _ in alts(v))
                    else:
                        ok = v is field(std, n) or all(y is field(std, n) for y, _ in alts(v))
                    c.ob("preferences/%s/%s" % (name.split("::")[-1], n), ok, w, "initially set to %s (%s)" % (show(v, 6)[:200], label(atoms, row)))
            c.ob("preferences/%s" % name.split("::")[-1], got, w, "the library is never opened")
    # each option is read by product code other than its own validation and default
    adts = [OPT, "data::MasteryWindow", "data::PassingScoreOptions"]
    reads = {}
    for f in list(F.fns.values()) + list(F.proms.values()):
        if f.derived or not F.in_scope(f) or f.d.get("impl_self") in adts:
            continue
        for pl in places(f):
            for e in pl[1:]:
                if isinstance(e, list) and e[0] == "f" and e[2] in adts:
                    reads.setdefault((e[2], e[1]), set()).add(f.path)
    writes_only = set()
    for a in adts:
        for fl in F.adts[a]["variants"][0]["fields"]:
            k = (a, fl["name"])
            c.ob("read/%s.%s" % (a.split("::")[-1], fl["name"]), k in reads, F.adts[a]["span"][0],
                 "option %s is read by %s" % (fl["name"], ", ".join(sorted(reads.get(k, [])))[:200] or "nothing"))
    # retrieval limits
    root = c.fn("UnitScorer::get_exercise_score")
    if root:
        LIM = {"PracticeStats::get_scores": "num_trials", "PracticeDeltas::get_deltas": "num_deltas",
               "PracticeRewards::get_rewards": "num_rewards"}
        E = Engine(F, watch_call=lambda n: any(n.endswith(k) for k in LIM))
        r = E.run(root)
        seen = set()
        for s in r.sites:
            for k, opt in LIM.items():
                if s.name.endswith(k):
                    seen.add(k)
                    v = s.args[2]
                    ok = all(x.op == "F" and x.a[-1] == opt and "options" in show(x) for x, _ in alts(v))
                    c.ob("limit/" + k, ok, s.where(), "%s limited by %s" % (k, show(v, 4)))
        for k in LIM:
            c.ob("limit-site/" + k, k in seen, F.fns[root].span[0], "%s is consulted when scoring" % k)
