"""What becomes of the candidates of a search."""
import terms
from q import *
from sched import PARTIAL
from stores import mentions
from rules.c26 import amount
from table import *

ME = mk("P", 1)
OPAQUE = ("get_initial_candidates", "get_exercise_manifest", "inside_blacklisted", "compute_encompassing_map", "get_success_rate",
          "adjusted_mastery_windows", "dynamic_batch_size", "in_window", "candidate_weight", "group_sort_key", "increment_exercise_frequency")
HAS = ("HashMap::contains_key", "HashSet::contains", "slice::contains", "Vec::contains", "BTreeMap::contains_key", "BTreeSet::contains")
DRAW = ("IteratorRandom::sample", "IndexedRandom::sample", "IndexedRandom::sample_weighted", "SliceRandom::choose_multiple")
UNION = ("extend", "append", "chain", "push", "extend_from_slice", "push_back")
PART = (PARTIAL | {"chunks_exact", "dedup", "dedup_by_key", "pop", "remove"}) - {"chunks", "drain"}
WINDOWS = ("new", "target", "current", "easy", "mastered")


def last(n):
    return n.split("::")[-1]


def unpos(t):
    while t.op in ("Pos", "V"):
        t = t.a[0]
    return t


class Wide(Engine):
    """Does not abbreviate the arguments of calls as early."""

    def flat(self, v):
        return v if v.op != "Clo" and v.depth <= 60 and v.size <= 10 ** 8 else super().flat(v)


    def bound(self, x, c, es):
        if not isinstance(x, terms.T) or x.op == "C" and last(x.a[0]) in ("len", "is_empty") or not x.atoms & es:
            return True
        return x.op in ("is", "B", "Not", "C", "Cast") and all(self.bound(y, c, es) for y in x.a)


class World(Wide):
    """The search finds one exercise: what contains it is decided, and a draw from it may or may not draw it."""
    keys, grows, fresh = (), (), True

    def model(self, f, st, t2, sp, fr, args, sites, span, dt):
        if t2 in HAS and len(args) > 1:
            v, key = self.val(st.env, args[0]), unpos(self.val(st.env, args[1]))
            if not self.fresh and f.path in self.grows and v.op == "S" and all(e in self.keys and not g for e, g in v.a):
                return TRUE
            t = has(v, self.keys) if key in self.keys else None
            if t is not None:
                return t
        r = super().model(f, st, t2, sp, fr, args, sites, span, dt)
        if t2 in DRAW and r is not None:
            coll = self.val(st.env, args[0])
            drawn = fact(mk("C", "drawn", self.flat(coll), *[self.flat(self.val(st.env, a)) for a in args[2:3]]), True)
            inner = payload(r) if r.op == "Pos" else r
            r2 = S([(e, g | {drawn}) for e, g in elems(inner)])
            return mk("Pos", r2) if r.op == "Pos" else r2
        return r


    def it_any(self, f, st, c, A, sites, span, dt, fr):
        m = self.asks(f, st, c, A, span, True)
        return truth(m) if m is not None else super().it_any(f, st, c, A, sites, span, dt, fr)

    def it_all(self, f, st, c, A, sites, span, dt, fr):
        m = self.asks(f, st, c, A, span, False)
        return Not(truth(m)) if m is not None else super().it_all(f, st, c, A, sites, span, dt, fr)

    def asks(self, f, st, c, A, span, yes):
        """The combinations under which the closure answers yes for an element, if its answers are decided."""
        if c.op not in ("S", "Arr") or A[1].op != "Clo":
            return None
        out = []
        for u, g in elems(c):
            r = self.closure_on(f, st, A[1], [u], frozenset(), None, span)
            b = possible(r[0]) if r is not None else ()
            if len(b) != 1:
                return None
            if yes in b:
                out += ways(g)
        return tidy(out)


def opposite(f):
    return mk("is", f.a[0], {True: False, False: True, "POS": "NEG", "NEG": "POS"}[f.a[1]])


def known(f):
    """Whether a fact holds in the world under consideration, if that is decided."""
    if f.op != "is" or f.a[1] not in (True, False, "POS", "NEG"):
        return None
    c = terms.ORACLE[0](f.a[0]) if terms.ORACLE[0] else None
    return None if c is None else f.a[1] in c


def ways(g, room=64):
    """The combinations of undecided facts under which the facts hold."""
    out = [frozenset()]
    for f in g:
        if f.op == "is":
            k = known(f)
            if k is None:
                out = [w | {f} for w in out]
            elif not k:
                return []
        elif f.op == "or":
            opts = [w for b in f.a[0] for w in ways(b)]
            out = [w | o for w in out for o in opts]
        out = [w for w in set(out) if not any(f.a[1] in (True, False, "POS", "NEG") and opposite(f) in w for f in w)]
        if len(out) > room:
            return [frozenset()]
    return tidy(out)


def tidy(out):
    """Without combinations that follow from others."""
    out, go = set(out), True
    while go and len(out) < 80:
        go = False
        for w in list(out):
            for f in w:
                if f.a[1] in (True, False, "POS", "NEG") and w - {f} not in out and (w - {f}) | {opposite(f)} in out:
                    out.add(w - {f})
                    go = True
    return [w for w in out if not any(v < w for v in out)]


def inside(coll, mine, deep=3):
    """The combinations under which a collection, of collections or not, holds what mine recognises, None if that cannot be told."""
    out = []
    for e, g in elems(coll):
        for u, h in alts(e):
            u = unpos(u)
            if u.op in ("S", "Arr") and deep or u.op == "A" and u.a[0] == "tuple" and deep:
                for v in [u] if u.op != "A" else [x[1] for x in u.a[2:] if isinstance(x, tuple) and x[1].op in ("S", "Arr")]:
                    out += [a | b for a in inside(v, mine, deep - 1) or () for b in ways(g | h)]
                continue
            m = mine(u)
            if m is None:
                return None
            if m:
                out += ways(g | h)
    return tidy(out)


def has(coll, keys):
    """Whether a collection holds the exercise, as a term."""
    if coll.op not in ("S", "Arr"):
        return None
    found = inside(coll, lambda u: None if u.op == "W" else u in keys)
    return None if found is None else truth(found)


def truth(found):
    """A term for one of these combinations being the case."""
    if not found:
        return FALSE
    if frozenset() in found:
        return TRUE
    no = [frozenset([opposite(f)]) if len(w) == 1 else frozenset([mk("or", frozenset(frozenset([opposite(f)]) for f in w))])
          for w in found for f in ([next(iter(w))] if len(w) == 1 else [None])]
    return Phi([(TRUE, found[0] if len(found) == 1 else frozenset([mk("or", frozenset(found))])), (FALSE, frozenset().union(*no))])


def decided(wins, w, x, met, fresh=True):
    """The oracle of a world: which windows the exercise fits, how much it is encompassed, its score, and whether it is in the pile."""
    def num(t):
        t = unpos(t)
        if t.op == "Phi":
            vs = {num(u) for u, _ in t.a}
            return vs.pop() if len(vs) == 1 else None
        a = amount(t)
        if a is not None:
            return float(a)
        if t.op == "F" and t.a[1] == "exercise_score":
            return x
        return w if weight(t) else None

    def f(t):
        if t.op == "C":
            n = last(t.a[0])
            if n == "in_window":
                at = [y.a[1] for y, _ in alts(t.a[1]) if y.op == "F"]
                return (at[0] in wins,) if len(at) == 1 else None
            if n == "insert":
                return (fresh or (t.a[-1], t.a[-1]) not in met,)
            if n == "get_exercise_manifest" or weight(t):
                return ("POS",)
        if t.op == "B" and t.a[0] in ("Lt", "Le"):
            a, b = num(t.a[1]), num(t.a[2])
            if a is not None and b is not None:
                return (a < b,) if t.a[0] == "Lt" else (a <= b,)
            if t.a[1].op == "C" and last(t.a[1].a[0]) == "default":      # the score of what comes from the pile, below the threshold
                return (True,)
        if (t.op == "Eq" or t.op == "B" and t.a[0] == "Eq") and t.a[-2:] in met:
            return (True,)
        return None
    return f


def weight(t):
    """What an exercise weighs in the map of weights."""
    return t.op == "C" and last(t.a[0]) == "get" and any(y.op == "C" and last(y.a[0]) == "compute_encompassing_map" for y in
                                                         [z for z, _ in alts(t.a[1])])


def exercise(e):
    """The ids whose manifest is in the batch, with what is known then."""
    e = unpos(e)
    return [(unpos(u), g) for u, g in alts(e.a[-1])] if e.op == "C" and last(e.a[0]) == "get_exercise_manifest" else None


def batch(r):
    return [(e, g) for x, _ in alts(r.ret) if x.op != "Neg" for e, g in elems(payload(x))]


def check(c):
    F = c.F
    c.rule = """Evaluated with the candidates of the search left open, every manifest returned is that of a candidate's exercise or of an
    exercise in the relearn pile; each of the former was kept by its id not having been seen. Then, for an exercise that fits each window
    alone, each pair of windows and all of them, encompassed little, much, or so much that it is left out, and in the relearn pile or not:
    whenever two collections are joined on the way to the batch, the conditions under which it is in one and in the other exclude each
    other; unless it is left out, it is in the batch under conditions that are only about room and the draw. The windows are those of
    the options."""
    root = [p for p in F.impl_of.get("scheduler::ExerciseScheduler::get_exercise_batch", []) if "DepthFirstScheduler" in p]
    if not c.ob("anchor/get_exercise_batch", len(root) == 1, "", "operation not found"):
        return
    root = root[0]
    where = "%s:%s" % tuple(F.fns[root].span[:2])
    have = {last(q) for q in F.fns}
    for n in ("get_initial_candidates", "get_exercise_manifest", "in_window", "compute_encompassing_map"):
        c.ob("anchor/" + n, n in have, "", "%s not found" % n)
    E = Wide(F, opaque=lambda q: last(q) in OPAQUE, vals=True,
             watch_call=lambda n: last(n) in UNION or last(n) in PART or last(n) in (
                 "contains", "insert", "entry", "sort_by_key", "sort_by", "dedup_by_key"))
    r = E.run(root)
    pile = set()
    ids = {}
    for e, g in batch(r):
        ks = exercise(e)
        if c.ob("batch/manifest", ks is not None, where, "a batch holds %s" % show(e, 5)[:200]):
            for k, h in ks:
                ids.setdefault(k, []).append(g | h)
    mine = [k for k in ids if k.op == "F" and k.a[1] == "exercise_id" and unpos(k.a[0]).op == "E" and unpos(k.a[0]).a[0].op == "C" and
            last(unpos(k.a[0]).a[0].a[0]) == "get_initial_candidates"]
    if not c.ob("batch/search", len(mine) == 1, where, "what is in a batch: %s" % [show(k, 5)[:100] for k in ids]):
        return
    X = mine[0]
    for k in ids:
        if k is X:
            continue
        good = k.op == "E" and k.a[0].op == "F" and k.a[0].a[1] == "pile"
        c.ob("batch/source", good, where, "a batch may hold the exercise %s" % show(k, 5)[:200])
        if good:
            pile.add(k)
    c.ob("batch/pile", len(pile) == 1, where, "exercises of the relearn pile are never in a batch" if not pile else "several piles")
    # repeated candidates of the search
    sorts = [s for s in r.sites if last(s.name) in ("sort_by_key", "sort_by")]
    again = any(last(s.name) in ("insert", "entry") and len(s.args) > 2 and s.args[1] is X for s in r.sites) or \
        sorts and any(last(s.name) == "dedup_by_key" for s in r.sites)
    cut(c, F, E, r, X)
    # one exercise
    grows = {s.fn for s in r.sites if s.loop and last(s.name) in ("insert", "push") and s.args[1:2] == (X,)}
    terms.ORACLE[0] = decided([w + "_window_opts" for w in WINDOWS], 0.0, 0.0, {(X, X)}, False)
    try:
        E = World(F, opaque=lambda q: last(q) in OPAQUE, vals=True)
        E.keys, E.grows, E.fresh = {X}, grows, False
        left = [e for e, g in batch(E.run(root)) if any(k in E.keys for k, _ in exercise(e) or ())]
        c.ob("once/found-twice", not left or again, where, "an exercise the search finds by several routes is several times in the batch")
    finally:
        terms.ORACLE[0] = None
    names = [w + "_window_opts" for w in WINDOWS]
    rows = [((w,), 0.0, 0.0, False) for w in names] + [((a, b), 0.0, 0.0, False) for i, a in enumerate(names) for b in names[:i]]
    rows += [((n,), 0.0, x, False) for n in names for x in (2.5, 5.0)]
    rows += [(tuple(names), 0.0, 0.0, False), ((), 0.0, 0.0, True), ((names[2],), 0.0, 0.0, True)]
    rows += [((names[3],), 7.0, 4.2, p) for p in (False, True)] + [((names[4],), 9.9, 5.0, False), ((names[4],), 0.0, 5.0, True)]
    rows += [((names[3],), 30.0, 4.4, False), ((names[1],), 30.0, 2.0, False), ((names[4],), 30.0, 4.8, True)]
    joins = 0
    for wins, w, x, met in rows:
        very = w >= 10 and x >= 4.5
        key = "%s/%s%s" % ("+".join(v.split("_")[0] for v in wins) or "none", "very" if very else "highly" if w >= 5 and x >= 3.75
                           else "little" if w < 5 else "much", "/pile" if met else "")
        pairs = {(X, X)} | ({t for k in pile for t in ((X, k), (k, X))} if met else set())
        terms.ORACLE[0], terms.EITHER[0] = decided(wins, w, x, pairs), True
        try:
            E = World(F, opaque=lambda q: last(q) in OPAQUE, watch_call=lambda n: last(n) in UNION, vals=True)
            E.keys = {X} | (pile if met else set())
            r = E.run(root)
            is_x = lambda u: None if u.op == "W" else u in E.keys or unpos(field(u, "exercise_id")) in E.keys
            for s in r.sites:
                if len(s.args) < 2:
                    continue
                if last(s.name) == "push":
                    was, more = inside(s.args[0], is_x), tidy([v for u, h in alts(s.args[1]) if is_x(unpos(u)) for v in ways(h | s.facts)])
                else:
                    was, more = inside(s.args[0], is_x), inside(s.args[1], is_x)
                if not was or not more or s.loop:
                    continue
                joins += 1
                both = [a | b for a in was for b in more if not any(opposite(f) in b for f in a if f.a[1] in (True, False, "POS", "NEG"))]
                c.ob("once/%s/%d" % (key, s.span[1] if len(s.span) > 1 else 0), not both, s.where(),
                     "an exercise %s is added although it may be there already" % key)
            there = []
            for e, g in batch(r):
                for k, h in exercise(e) or ():
                    if k in E.keys:
                        there += ways(g | h)
            there = tidy(there)
            if not very and wins or met:
                c.ob("kept/%s" % key, there, where, "an exercise can never be in a batch: %s" % key)
                c.ob("kept/%s/drawn" % key, not there or any(not any(drawn(f) is False for f in v) for v in there), where,
                     "an exercise is only in a batch if it was not drawn: %s" % key)
                for f in {f for v in there for f in v}:
                    c.ob("kept/%s/cond" % key, not judged(f.a[0]), where, "an exercise is only returned if %s" % show(f, 6)[:200])
        finally:
            terms.ORACLE[0], terms.EITHER[0] = None, False
    c.floor("joins of collections", joins, 5)
    same_windows(c, F)


def drawn(f):
    """Whether a fact is that the exercise was drawn, or was not."""
    return f.a[1] if f.op == "is" and f.a[0].op == "C" and f.a[0].a[0] == "drawn" else None


def judged(t):
    """Whether what is asked is a quality of the exercise itself."""
    if not isinstance(t, terms.T) or t.op == "C" and (last(t.a[0]) == "drawn" or last(t.a[0]) in ("len", "is_empty") and t.a[1].op != "F"):
        return False
    if t.op == "F" and t.a[1] != "exercise_id":
        u = unpos(t.a[0])
        if u.op == "E" or u.op == "C" and last(u.a[0]) == "get_exercise_manifest":
            return True
    return any(judged(x) for x in t.a)


def cut(c, F, E, r, X):
    """Collections of candidates are not cut."""
    base = unpos(X.a[0])
    for s in r.sites:
        if last(s.name) in PART - {"dedup_by_key"} and s.args and isinstance(s.args[0], terms.T):
            c.ob("cut/" + last(s.name), not any(mentions(e, lambda x: x is base) for e, _ in elems(s.args[0])), s.where(),
                 "only a part of the candidates is used: %s" % last(s.name))
    c.to_the_end("cut/loop", [s for s in r.sites if last(s.name) in UNION])


def same_windows(c, F):
    """The windows in use are those of the options."""
    for q in [p for p in F.fns if last(p) == "adjusted_mastery_windows"]:
        f = F.fns[q]
        w = "%s:%s" % tuple(f.span[:2])
        r = Engine(F).run(q)
        for n in WINDOWS:
            at = [field(field(x, n + "_window_opts"), "range") for x, _ in alts(r.ret)]
            own = {field(field(mk("P", i), n + "_window_opts"), "range") for i in range(1, f.argc + 1)}
            c.ob("windows/" + n, all(u in own for a in at for u, _ in alts(a)), w,
                 "the %s window is %s" % (n, [show(a, 5)[:100] for a in at]))
