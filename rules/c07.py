"""The facade forwards every operation to the component that owns it."""
from q import *
from rules.c13 import losses
import re

MUTATING = None


def check(c):
    F = c.F
    c.rule = """For every trait method implemented by the top-level object, abstract interpretation (all helpers inlined)
    must show that on every path the same operation is called on the one component implementing that trait, with the
    caller's arguments in order, that the caller receives its result unchanged, and that no other component is
    modified. The constructor must wire the same component instances into the object and its scheduler, and each
    store to its own file."""
    trane = F.adts.get("Trane")
    if not c.ob("anchor/Trane", trane, "", "the facade type"):
        return
    comp = {}
    for f in trane["variants"][0]["fields"]:
        m = re.search(r"dyn ([\w:]+)", f["ty"])
        if m and m.group(1) in F.traits:
            comp[m.group(1)] = f["name"]
    for im in F.impls:
        for f in trane["variants"][0]["fields"]:
            if im["trait"] in F.traits and im["self_adt"] and im["self_adt"] == f["ty"]:
                comp[im["trait"]] = f["name"]
    mut = {}          # trait methods that take &mut self
    for f in F.fns.values():
        if f.d.get("trait_item") and f.argc and re.match(r"&('\w+ )?mut ", f.locals[1]):
            mut[f.d["trait_item"]] = True
    for p in losses(F)[2]:
        if p in F.fns and F.fns[p].d.get("trait_item") and "Trane" not in p:
            mut[F.fns[p].d["trait_item"]] = True      # writes to a database or a file, even through &self
    n = 0
    for im in F.impls:
        if im["self"] != "Trane" or im["trait"] not in comp:
            continue
        fld = comp[im["trait"]]
        for m in im["methods"]:
            p = m["path"]
            if not m["is_fn"] or p not in F.fns:
                continue
            f = F.fns[p]
            n += 1
            item = m["trait_item"]
            name = item.split("::")[-1]

            def local(q):
                return "DepthFirstScheduler" in q and not q.startswith("Trane")
            E = Engine(F, opaque=local, event=lambda x: True)
            r = E.run(p)
            target = field(mk("P", 1), fld)
            args = [mk("P", i) for i in range(2, f.argc + 1)]
            ok_ev = False
            others = []
            for nm, a in evs(r.facts):
                last = nm.split("::")[-1].rstrip(">")
                if a and a[0] is target and last == name and list(a[1:]) == args:
                    ok_ev = True
                    call = mk("C", nm, target, *args)
            c.ob("forward/" + item, ok_ev, "%s:%s" % tuple(f.span[:2]),
                 "%s must call %s on %s with its own arguments on every path" % (p, name, fld))
            if ok_ev and r.ret is not None and f.locals[0] != "()":
                c.ob("result/" + item, same_result(r.ret, call), "%s:%s" % tuple(f.span[:2]),
                     "%s returns %s instead of the result of the component" % (p, show(r.ret, 6)))
            # no other modification, on any path
            E = Engine(F, opaque=local, watch_call=lambda x: True)
            r = E.run(p)
            for s in r.sites:
                if not s.args:
                    continue
                last = s.name.split("::")[-1].rstrip(">")
                a0 = s.args[0]
                base = a0
                is_mut = any(k.endswith("::" + last) for k in mut) and a0.op == "F" and a0.a[0] is mk("P", 1)
                if is_mut and not (a0 is target and last == name):
                    others.append("%s on %s" % (last, show(a0)))
                if a0 is target and last == name and list(s.args[1:]) != args:
                    others.append("%s with %s" % (last, [show(x, 3) for x in s.args[1:]]))
            c.ob("only/" + item, not others, "%s:%s" % tuple(f.span[:2]), "%s also modifies: %s" % (p, ", ".join(others)))
    c.floor("facade operations", n, 55)
    # wiring
    comp = lambda p: "::Local" in p or p.startswith("Local")
    for name in ("Trane::new_local", "Trane::new_local_from_serialized"):
        h = c.fn(name)
        if not h:
            continue
        E = Engine(F, opaque=comp, watch_adts=["Trane"], watch_call=lambda n: n.endswith("new_from_disk") or n.endswith("Manager::new"))
        r = E.run(h)
        aggs = [s for s in r.sites if s.kind == "agg" and s.name.startswith("Trane")]
        c.floor("facade constructions", len(aggs), 1)
        sd = F.adts["scheduler::data::SchedulerData"]["variants"][0]["fields"]
        for s in aggs:
            fields = dict(s.args)
            data = fields.get("scheduler_data")
            sch = fields.get("scheduler")
            for x in sd:
                if x["name"] in fields and data is not None:
                    a, b, d = fields[x["name"]], field(data, x["name"]), field(field(sch, "data"), x["name"])
                    c.ob("wired/" + x["name"], a is b and a is d, s.where(),
                         "the object and its scheduler must share one %s: %s / %s / %s" % (x["name"], show(a, 3), show(b, 3), show(d, 3)))
        opened = {}
        for s in r.sites:
            if s.kind == "call":
                opened.setdefault(show(s.args[0], 9), set()).add(s.name)
        for k, v in opened.items():
            c.ob("file/" + k[-60:], len(v) == 1, F.fns[h].span[0], "%s is the store of %s" % (k, ", ".join(v)))
        c.floor("stores opened", len(opened), 7)
