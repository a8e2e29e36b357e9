"""No operation deadlocks, alone or together with others."""
from q import *
from locks import Locks


def check(c):
    F = c.F
    c.rule = """Interprocedural lock analysis: for every call of every function the guards still held there (followed through
    moves, wrappers, temporaries and drops) are compared with all the locks the callee may acquire (virtual calls
    resolved to every implementation, closures assumed to run). No lock may be requested while the same thread holds it
    in a conflicting mode, no shared lock re-requested while held if a concurrent operation can request it exclusively,
    and the acquisition order among locks that concurrent operations can hold exclusively must be acyclic."""
    c.assumptions += ["the facade object itself is not placed behind one of its own component locks",
                      "exclusive access (&mut self) to the facade excludes every concurrent operation on it"]
    L = Locks(F, lambda p: p.startswith("<Trane as"))
    roots = []
    for f in F.fns.values():
        if f.d.get("impl_self") == "Trane" and f.argc and f.locals[1] == "&Trane":
            roots.append(f.path)
    c.floor("shared-access facade operations", len(roots), 35)
    reach = F.reachable(roots)
    # virtual calls never come back to the facade
    reach = {p for p in reach}
    writable = {}
    for p in reach:
        f = F.fns[p]
        for lk, md, org in L.sum[p][0]:
            if isinstance(lk, str) and md in ("W", "U") and not p.startswith("<Trane as"):
                writable.setdefault(lk, org)
        if p.startswith("<Trane as") and f.argc and f.locals[1] == "&Trane":
            for lk, md, org in L.sum[p][0]:
                if isinstance(lk, str) and md in ("W", "U"):
                    writable.setdefault(lk, org)
    # only what the shared operations themselves may acquire counts
    shared = set()
    for p in roots:
        for lk, md, _ in L.sum[p][0]:
            if isinstance(lk, str) and md in ("W", "U"):
                shared.add(lk)
    writable = {k: v for k, v in writable.items() if k in shared}
    c.analysed["locks exclusively lockable by shared operations"] = sorted(writable)
    edges = {}
    stats = {"calls": 0, "nested": 0, "acq": 0}
    for f in F.fns.values():
        if not F.in_scope(f):
            continue

        def visit(t, held, acq, f=f):
            stats["calls"] += 1
            stats["acq"] += 1 if acq else 0
            for h, hm in held:
                for lk, md, org in acq:
                    stats["nested"] += 1
                    at = "%s:%s in %s" % (t["fsp"][0], t["fsp"][1], f.path)
                    via = "acquired at %s:%s in %s" % (org[1][0], org[1][1], org[0])
                    h2, l2 = h, lk
                    if not isinstance(h, str) or not isinstance(lk, str):
                        if h != lk:
                            continue
                        h2 = l2 = "param:" + str(h[3])
                    if h2 == l2:
                        if hm in ("W", "U") or md in ("W", "U"):
                            if hm == "R" and md == "U" or hm == "U" and md == "R":
                                continue
                            c.fail("self/%s/%s" % (short(f.path), h2), at,
                                   "%s requested (%s) while already held (%s) by the same thread; %s" % (l2, md, hm, via))
                        elif md == "R" and h2 in writable:
                            c.fail("reread/%s/%s" % (short(f.path), h2), at,
                                   "%s read-locked again while held; a writer waiting in between blocks both; %s" % (l2, via))
                        continue
                    if h2 in writable and l2 in writable:
                        edges.setdefault((h2, l2), (at, via))
        L.flow(f, visit)
    c.floor("calls examined", stats["calls"], 2000)
    c.floor("nested acquisitions", stats["nested"], 20)
    c.floor("lock requests", stats["acq"], 40)
    c.floor("locks under concurrent write", len(writable), 3)
    # cycles
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    c.analysed["order edges"] = len(edges)

    def path(a, b):
        seen, st = {a: None}, [a]
        while st:
            x = st.pop()
            for y in g.get(x, ()):
                if y == b:
                    r = [b]
                    while x is not None:
                        r.append(x)
                        x = seen[x]
                    return r[::-1]
                if y not in seen:
                    seen[y] = x
                    st.append(y)
        return None
    for (a, b), (at, via) in sorted(edges.items()):
        p = path(b, a)
        c.ob("order/%s<%s" % (a, b), p is None, at, "%s held while requesting %s (%s)%s" %
             (a, b, via, "" if p is None else "; the opposite order exists: " + " -> ".join(p) + " e.g. " +
              edges[(p[0], p[1])][0]))
    c.ob("self-deadlock-free", not any(not ok and k.startswith(("self/", "reread/")) for k, ok, _, _ in c.obligations), "",
         "no lock is requested while held in a conflicting mode")
