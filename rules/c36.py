"""Cycles among units are rejected."""
from graph import *
from stores import ORDERISH

RELS = [("dependencies", "get_dependencies", "get_dependents"), ("superseded units", "get_supersedes", "get_superseded_by"),
        ("encompassed units", "get_encompasses", "get_encompassed_by")]
PARTIAL = {"skip", "take", "step_by", "skip_while", "take_while", "nth", "truncate", "drain", "split_off", "swap_remove", "dedup",
           "retain", "chunks", "first"}


def last(n):
    return n.split("::")[-1]


def map_of(o):
    m = {path_of(x.a[1]) for x, _ in alts(o.r.ret) if x.op == "C" and last(x.a[0]) == "get"}
    m.discard(None)
    return m


def search_fn(F, root):
    """The function reached from check_cycles that pops from a stack it pushes to."""
    out, seen, todo = [], set(), [root]
    while todo:
        p = todo.pop()
        if p in seen or p not in F.fns:
            continue
        seen.add(p)
        names = {last(n) for n, _ in site_calls(F, F.fns[p])}
        if {"pop", "push", "contains"} <= names:
            out.append(p)
        todo += [n for n, _ in site_calls(F, F.fns[p])]
        todo += [q for q in F.fns if q.startswith(p + "::{closure")]
    return out


def check(c):
    F = c.F
    c.rule = """check_cycles runs one search over each of the dependency, superseding and encompassing relations, unconditionally, from
    every unit with an entry in the relation, following every neighbour the relation's getter returns, and succeeds only if every
    search does. The search marks a unit visited only when it takes it from the stack, looks at all of its neighbours, pushes each
    of them exactly if it is not on the path leading to the unit, and otherwise returns an error."""
    G = ops(F)
    o = G.get("check_cycles")
    if not o:
        c.fail("anchor/check_cycles", "", "operation not found")
        return
    D = search_fn(F, o.path)
    c.ob("search/found", len(D) == 1, o.where(), "the search for cycles is not found (%s)" % D)
    if len(D) != 1:
        return
    D = D[0]
    wiring(c, F, G, o, D)
    search(c, F, D)
    n = c.include("c16", lambda k: k.split("/")[0] in ("get_dependencies", "get_dependents", "get_supersedes", "get_superseded_by",
                                                     "get_encompasses", "get_encompassed_by", "add_dependencies",
                                                     "add_superseded", "add_encompassed", "writers"))
    c.floor("shared obligations about the relations", n, 30)


def wiring(c, F, G, o, D):
    E = Engine(F, watch_call=lambda n: n == D, opaque=lambda p: p == D)
    r = E.run(o.path)
    calls = [s for s in r.sites if s.name == D]
    good = []
    for what, fw, rv in RELS:
        if fw not in G:
            c.fail("anchor/" + fw, "", "operation not found")
            continue
        m = map_of(G[fw])
        hit = []
        for s in calls:
            for a in s.args:
                e = elem(a)
                for x in m:
                    t = ME
                    for y in x:
                        t = field(t, y)
                    if e is elem(mk("C", "keys", t)) or e is field(elem(t), "0"):
                        if not (a.op == "S" and any(f for _, f in a.a)):
                            hit.append(s)
        # the relation whose map is stored first in the getter is the one searched
        hit = [s for s in hit if neighbours(F, s, G[fw])]
        c.ob("%s/searched" % fw, hit, o.where(), "no search covers every unit with %s and follows %s" % (what, fw))
        for s in hit[:1]:
            good.append(s)
            bad = [x for x in s.conds if not mentions(x, lambda t: t.op == "C" and t.a[0] == D)]
            c.ob("%s/always" % fw, not bad, s.where(), "the search is only made if %s" % [show(x, 4) for x in bad])
            res = mk("C", D, *s.args)
            for fs in [f for _, f in pos_rets(r)]:
                c.ob("%s/counts" % fw, any(f.op == "is" and f.a[1] == "POS" and f.a[0].op == "C" and f.a[0].a[0] == D and
                                           f.a[0].a[1] is s.args[0] for f in fs) or tail(r, D, s),
                     s.where(), "check_cycles succeeds although this search found a cycle")
    c.floor("searches", len(good), 3)


def tail(r, D, s):
    """The result of the search is returned as it is."""
    return any(x.op == "C" and x.a[0] == D and x.a[1] is s.args[0] for x, _ in alts(r.ret))


def neighbours(F, s, getter):
    """Some closure passed to the search returns every unit the getter returns for the unit it is given."""
    for a in s.args:
        if a.op != "Clo":
            continue
        p = a.a[0]
        if p not in F.fns:
            continue
        r = Engine(F).run(p)
        want = {x.a[1] for x, _ in alts(getter.r.ret) if x.op == "C" and last(x.a[0]) == "get"}
        ok = False
        bad = False
        for x, fs in alts(r.ret):
            if x.op == "Neg":
                continue
            coll = x.a[0] if x.op == "Pos" else x
            es = unphi(elem(payload(x) if x.op != "Pos" else coll))
            ok = ok or any(mentions(y, lambda t: t.op == "C" and last(t.a[0]) == "get" and t.a[1].op == "F" and
                                    any(t.a[1].a[-1] == w.a[-1] for w in want)) for y in es)
            if coll.op == "S" and any(f.op == "is" and f.a[1] not in ("POS",) and not empty_map(f) for _, g in coll.a for f in g):
                bad = True
        if ok and not bad:
            E = Engine(F, watch_call=lambda n: last(n) in PARTIAL)
            if not E.run(p).sites:
                return True
    return False


def empty_map(f):
    return f.a[0].op == "C" and last(f.a[0].a[0]) == "is_empty"


def search(c, F, D):
    f = F.fns[D]
    E = Engine(F, watch_call=lambda n: last(n) in {"pop", "push", "insert", "contains", "push_back", "push_front", "pop_front"} | PARTIAL)
    r = E.run(D)
    sites = [s for s in r.sites if s.fn == D or True]
    w = "%s:%s" % tuple(f.span[:2])
    pops = [s for s in sites if last(s.name) in ("pop", "pop_back")]
    c.ob("search/stack", len(pops) == 1 and pops[0].name.endswith("Vec::pop"), w, "units are not taken from the end of one stack")
    for s in sites:
        if last(s.name) in PARTIAL | {"pop_front", "push_front"}:
            c.fail("search/partial", s.where(), "part of the units is left out: %s" % s.name)
    for _, t in f.calls():
        g = t.get("f")
        if g and (g["name"] in ("index", "get") and any("ops::Range" in a for a in g["args"])):
            c.fail("search/partial", w, "only part of a list of units is looked at")
    if len(pops) != 1:
        return
    st = pops[0].recv
    push = [s for s in sites if last(s.name) == "push" and s.recv is st]
    ins = [s for s in sites if last(s.name) == "insert"]
    vis = {s.recv for s in ins}
    c.ob("search/visited", len(ins) == 1, w, "units are marked visited in %d places" % len(ins))
    c.ob("search/pushes", push, w, "no neighbour is pushed")
    for s in push:
        free = [f for f in s.facts if f.op == "is" and f.a[1] is False and f.a[0].op == "C" and last(f.a[0].a[0]) == "contains"]
        els = [x for x, _ in s.args[1].a] if s.args[1].op == "S" else list(s.args[1].a) if s.args[1].op == "Arr" else []
        on = [f for f in free if any(f.a[0].a[2] is e for e in els)]
        c.ob("search/only-new", on, s.where(), "a neighbour is pushed although it may be on the path: a cycle is missed")
        # the path tested is the path extended
        ok = [f for f in on if all(any(x is y for y in els) for x in (
            [y for y, _ in f.a[0].a[1].a] if f.a[0].a[1].op == "S" else [f.a[0].a[1]]))]
        c.ob("search/whole-path", ok, s.where(), "the neighbour is not compared with the whole path")
        others = [f for f in s.conds if f.op == "C" and last(f.a[0]) == "contains" and any(f.a[2] is e for e in els) and
                  not any(f is g.a[0] for g in ok)]
        c.ob("search/every-neighbour", not others, s.where(), "a neighbour is also skipped if %s" % [show(x, 3)[:200] for x in others])
        odd = [x for x in s.conds if not plain(x)]
        c.ob("search/no-other-condition", not odd, s.where(), "a neighbour is only followed if %s" % [show(x, 4)[:200] for x in odd])
    # under 'on the path' only errors are returned
    cfg(c, F, f, D)


def plain(x):
    while x.op in ("Not", "Is"):
        x = x.a[0]
    if x.op in ("Next", "Pop"):
        return True
    return x.op == "C" and last(x.a[0]) in ("contains", "call", "insert", "call_mut", "call_once") or x.op == "Phi" and all(
        y.op in ("Pos", "Neg") for y, _ in x.a)


def succ(t):
    k = t["k"]
    if k == "switch":
        return sorted({x for _, x in t["ts"]} | ({t["o"]} if t.get("o") is not None else set()))
    x = t.get("t")
    return [] if x is None else ([x] if isinstance(x, int) else list(x))


def cfg(c, F, f, D):
    """After finding the neighbour on the path the search cannot go on."""
    pop = [i for i, t in f.calls() if t.get("f") and last(t["f"]["path"]) == "pop"]
    # where the comparison is made elsewhere (in a helper), only the conditions above are decided
    slc = [(i, t) for i, t in f.calls() if t.get("f") and t["f"].get("name") == "contains" and
           "HashSet" not in (t["f"].get("selfty") or "")]
    c.analysed["comparisons with the path"] = len(slc)
    for i, t in slc:
        b = t["t"]
        seen = set()
        while b is not None and b not in seen and f.blocks[b]["t"]["k"] != "switch":
            seen.add(b)
            n = succ(f.blocks[b]["t"])
            b = n[0] if len(n) == 1 else None
        if b is None:
            c.fail("search/decides", "%s:%s" % tuple(f.span[:2]), "the comparison with the path does not decide anything")
            continue
        reach = []
        for x in succ(f.blocks[b]["t"]):
            r_, todo = set(), [x]
            while todo:
                y = todo.pop()
                if y in r_ or not f.blocks[y]:
                    continue
                r_.add(y)
                todo += succ(f.blocks[y]["t"])
            reach.append(bool(r_ & set(pop)))
        c.ob("search/stops", reach.count(False) == 1 and len(reach) == 2, "%s:%s" % tuple(f.span[:2]),
             "the search goes on after finding a unit on its own path")
