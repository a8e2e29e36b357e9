"""Cached scores never outlive the data they were computed from."""
from graph import unphi, path_of, GROW
from q import *
from stores import mentions
import re

import terms
from table import Atom, call, on, oracle

US = "scheduler::unit_scorer::UnitScorer"
ME, ID = mk("P", 1), mk("P", 2)
SHRINK = ("remove", "clear", "retain", "remove_entry", "drain")
# what scores are computed from; the graph and the library do not change once a library is open
PARTIAL = {"skip", "take", "step_by", "skip_while", "take_while", "nth", "truncate", "drain", "split_off", "swap_remove", "dedup",
           "first", "last", "find", "position", "next_back", "last_mut", "map_while"}
SOURCES = ("blacklist::Blacklist", "practice_stats::PracticeStats", "practice_deltas::PracticeDeltas", "practice_rewards::PracticeRewards")


def last(n):
    return n.split("::")[-1].rstrip(">")


def own_recv(s, caches):
    """The cache (field path) a call works on."""
    t, path = s.recv, []
    if t is None:
        return None
    while t.op == "F":
        path.append(t.a[1])
        t = t.a[0]
    path = tuple(reversed(path))
    for p in caches:
        if t is ME and path[:len(p)] == p:
            return p
    return None


def getter(t, *names):
    return t.op == "C" and last(t.a[0]) in names


def split(t):
    """Alternatives of a term, those inside Some and Ok included."""
    if t.op == "Pos":
        return {mk("Pos", x) for x in split(t.a[0])}
    u = unphi(t)
    return u if u == {t} else {y for x in u for y in split(x)}


def gsplit(t, fs=frozenset()):
    """Alternatives of a term, those inside Some and Ok included, with the facts each depends on."""
    if t.op == "Pos":
        for x, g in gsplit(t.a[0], fs):
            yield mk("Pos", x), g
    elif t.op == "Phi":
        for x, g in t.a:
            g = frozenset(fs) | frozenset(g)
            yield from gsplit(x, g)
    else:
        yield t, frozenset(fs)


def agree(fs, gs):
    """Whether both sets of facts can hold at once."""
    for f in gs:
        if f.op == "is" and assume(f.a[0], f.a[1], fs) is None:
            return False
        if f.op == "or" and all(not agree(fs, g) for g in f.a[0]):
            return False
    for f in fs:
        if f.op == "or" and all(not agree(gs, g) for g in f.a[0]):
            return False
    return True


def hits(t):
    """A value read back from a cache: the lookup of the unit it is about."""
    return [x for x in sub(t) if getter(x, "get") and x.a[-1] is ID]


def swap(t, h, v):
    """t with the value v in place of the lookup h."""
    if t is h:
        return v
    if t.op == "F":
        return field(swap(t.a[0], h, v), t.a[1])
    if t.op == "Pos":
        return mk("Pos", swap(t.a[0], h, v))
    return replace(t, h, v)


def sub(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.a:
        if isinstance(a, T):
            yield from sub(a, seen)
        elif isinstance(a, (tuple, list, frozenset)):
            for b in a:
                for d in (b if isinstance(b, (tuple, list)) else (b,)):
                    if isinstance(d, T):
                        yield from sub(d, seen)


def check(c):
    F = c.F
    c.rule = """Every value put into a score cache is what the same function returns when it computes the score of that unit
    afresh. Invalidating a unit, for each type of unit, removes every cached value computed from it: its own, those of the units
    that contain it or are contained in it, and, following the units superseded by any of those until no new one is found, theirs
    and those of their courses. Every operation of the facade that changes scores, deltas, rewards or the blacklist invalidates the
    units it changes, or everything, whenever it succeeds; operations that can run beside a query do so after the change. New
    options and a new clock empty all caches."""
    caches = sub_paths(F, US, lambda ty: ("CachedScore" in ty or "Option<f32>" in ty) and "<" in ty and not ty.startswith("std::option"))
    c.floor("score caches", len(caches), 1)
    if not caches:
        return
    methods = [f for f in own_methods(F, US) if "{" not in f.d["name"]]
    names = {f.path for f in methods}
    kind, own = fills(c, F, caches, methods, names)
    inval = roles(c, F, caches, methods, names)
    for p in inval["unit"]:
        unit(c, F, caches, kind, own, p)
    for p in inval["prefix"]:
        prefix(c, F, caches, p)
    facade(c, F, caches, inval, names)
    c.include("c03", lambda k: "/cache/" in k)
    clock(c, F, caches)


def fills(c, F, caches, methods, names):
    """Values enter the caches only as what would be computed again."""
    kind, filled, own = {}, set(), set()
    readers = []
    opq = fronted(F, caches, methods, names)
    for f in methods:
        E = Engine(F, opaque=lambda q, p=f.path: q in opq and q != p,
                   watch_call=lambda n: last(n) in GROW | {"get", "entry", "get_mut", "iter_mut", "values_mut"})
        r = E.run(f.path)
        ins = [(own_recv(s, caches), s) for s in r.sites if s.kind == "call" and last(s.name) in GROW and own_recv(s, caches)]
        odd = [s for s in r.sites if s.kind == "call" and last(s.name) in ("entry", "get_mut", "iter_mut", "values_mut") and own_recv(s, caches)]
        for s in odd:
            c.fail("fill/in-place", s.where(), "a cached value is changed in place")
        fresh, back = [], []
        rets = [] if r.ret is None else alts(r.ret)
        for x, fs in rets:
            if x.op == "Neg" and f.locals[0].startswith("std::result"):
                continue
            h = [y for y in hits(x)]
            if h:
                back.append((x, h[0], fs))
            elif any(g.op == "is" and getter(g.a[0], "get") and g.a[0].a[-1] is ID and g.a[1] == "NEG" for g in fs) or ins:
                fresh.append(list(gsplit(x, fs)))
        for cache, s in ins:
            filled.add(cache)
            key, v = s.args[1], s.args[-1]
            nm = "%s/%s" % (f.d["name"], cache[0])
            c.ob("fill/key/" + nm, same(key, ID), s.where(), "a value computed for the unit asked about is stored under %s" % show(key, 4))
            # whether the value depends on the unit being superseded
            if any(y.op == "C" and y.a[-1] is not ID and ID in y.a and y.a[0] in names or getter(y, "get_superseded_by") and y.a[-1] is ID
                   for g in list(s.facts) + [v] for y in sub(g)):
                own.add(cache)
            for x in ("get_course_lessons", "get_lesson_exercises", "get_scores"):
                if mentions(v, lambda t: getter(t, x)):
                    k = {"get_course_lessons": "course", "get_lesson_exercises": "lesson", "get_scores": "exercise"}[x]
                    kind[cache] = k if kind.get(cache) in (None, k, "exercise") or k == "course" else kind[cache]
                    break
            # reading the value back gives what was returned when it was computed
            mine = [b for b in back if at(ME, cache) in list(sub(b[1]))]
            c.ob("fill/used/" + nm, mine, s.where(), "the function never answers from the cache it fills")
            for x, h, fs in mine:
                for y, g in gsplit(swap(x, h, v) if h is not x else swap(x, h, v), s.facts):
                    # the same value would be returned wherever this one is stored
                    there = [z for zs in fresh for z, k in zs if z is y]
                    wrong = [z for zs in fresh if any(z is y for z, _ in zs) for z, k in zs if z is not y and agree(g, k)]
                    c.ob("fill/value/" + nm, there and not wrong, s.where(), "%s is stored where %s is computed" % (
                        show(y, 5)[:160], ", ".join(sorted(show(z, 5)[:160] for z in wrong)) or "something else"))
            for y in split(v):
                if y.op == "A":
                    parts(c, F, y, mine, s, nm)
        if back and not ins:
            readers.append((f, r, back, rets))
    for cache in caches:
        c.ob("fill/some/" + cache[0], cache in filled, "", "nothing is ever stored in %s" % cache[0])
    for f, r, back, rets in readers:
        if not takes_unit(F, f.path):
            continue
        # when the value is computed, the same part of the record is the answer
        whole = [q for n, q in F.fns.items() if n == f.path or n.startswith(f.path + "::{")]
        rec = {}
        for q in whole:
            for pl in refs(q):
                for e in pl[1:]:
                    if isinstance(e, list) and e[0] == "f" and any("HashMap<ustr::Ustr, %s," % e[2] in x for x in f.locals):
                        rec.setdefault(e[2], set()).add(e[1])
        for t, ns in rec.items():
            c.ob("read/one-part/%s" % f.d["name"], len(ns) == 1, "%s:%s" % tuple(f.span[:2]),
                 "answers with one part of the cached record or another: %s" % ", ".join(sorted(ns)))
        for x, fs in rets:
            if x.op == "Neg" or hits(x):
                continue
            ok = any(g.op == "is" and g.a[1] == "POS" and g.a[0].op == "C" and g.a[0].a[0] in names and g.a[0].a[-1] is ID for g in fs) or \
                mentions(x, lambda t: t.op == "C" and t.a[0] in names)
            c.ob("read/%s" % f.d["name"], ok, "%s:%s" % tuple(f.span[:2]), "without a cached value the answer is %s although nothing was computed" % show(x, 4))
    c.floor("caches of each kind", len(set(kind.values())), 3)
    return kind, own


def fronted(F, caches, methods, names):
    """The functions that answer from a cache or compute a score, and those that call each other to do so."""
    leaf = {p[-1] for p in caches}
    out = set()
    for f in methods:
        rc = F.reachable([f.path])
        scores = any(n.endswith("ExerciseScorer::score") for q in rc if q in F.fns for n, _ in site_calls(F, F.fns[q])) or \
            any(q.endswith("ExerciseScorer>::score") or q.endswith("ExerciseScorer::score") for q in rc)
        if not scores or not takes_unit(F, f.path):
            continue
        own = any(isinstance(e, list) and e[0] == "f" and e[1] in leaf for pl in refs(f) for e in pl[1:])
        cyclic = any(f.path in F.reachable([q]) for q, _ in site_calls(F, f) if q in names)
        if own or cyclic:
            out.add(f.path)
    return out


def refs(f):
    for pl in places(f):
        yield pl
    for b in f.blocks:
        for st in (b or {}).get("s", ()):
            if st[0] == "=" and st[2][0] in ("ref", "addr"):
                yield from (x for x in st[2][1:] if isinstance(x, list))


def parts(c, F, v, mine, s, nm):
    """The parts of a cached record come from one computation, each its own."""
    scorer = [t for t in sub(v) if getter(t, "score") and "xercise" in show(t.a[1], 2)]
    adt = next((a for n, a in F.adts.items() if n.split("::")[-1] == v.a[0].split("::")[-1] and a["kind"] == "Struct"), None)
    flds = [f["name"] for f in adt["variants"][0]["fields"]] if adt else []
    for n in flds:
        x = field(v, n)
        src = {y.a[1] for t, _ in alts(x) for y in sub(t) if y.op == "F" and getter(y.a[0], "score")}
        for z in src:
            c.ob("fill/part/%s/%s" % (nm, n), z == n or n == "score" and z == "value", s.where(), "%s is stored as %s" % (z, n))
    c.ob("fill/one-computation/" + nm, len(set(scorer)) <= 1, s.where(), "parts of one record come from different computations")


def takes_unit(F, p):
    f = F.fns[p]
    return f.argc >= 2 and "Ustr" in f.locals[2] and "Vec" not in f.locals[2] and "Set" not in f.locals[2]


def roles(c, F, caches, methods, names):
    """Invalidation operations: those called by other components that remove from the caches."""
    used = set()
    for f in list(F.fns.values()):
        if not F.in_scope(f) or f.path.startswith(US + "::"):
            continue
        for n, t in site_calls(F, f):
            if n in names:
                used.add(n)
    out = {"unit": [], "prefix": [], "all": []}
    for p in sorted(used):
        f = F.fns[p]
        if f.locals[0] != "()":
            continue
        r = Engine(F, watch_call=lambda n: last(n) in SHRINK, popsym=True).run(p)
        hit = [s for s in r.sites if own_recv(s, caches)]
        if not hit:
            continue
        if f.argc == 2 and f.locals[2].endswith("Ustr"):
            out["unit"].append(p)
        elif f.argc == 2 and f.locals[2].startswith("&") and "str" in f.locals[2]:
            out["prefix"].append(p)
        elif f.argc == 1:
            out["all"].append(p)
            for cache in caches:
                ok = any(own_recv(s, [cache]) and last(s.name) == "clear" and not s.conds for s in hit)
                c.ob("all/%s/%s" % (last(p), cache[0]), ok, "%s:%s" % tuple(f.span[:2]), "%s is not emptied" % cache[0])
    c.floor("operations invalidating one unit", len(out["unit"]), 1)
    return out


def unit(c, F, caches, kind, own, p):
    f = F.fns[p]
    w0 = "%s:%s" % tuple(f.span[:2])
    G = lambda n, x: (n, x)
    isparent = lambda t, of: getter(t, "get_lesson_course") and of(t.a[-1])
    islesson = lambda t, of: getter(t, "get_exercise_lesson") and of(t.a[-1])
    within = lambda n, of: lambda t: t.op == "E" and getter(t.a[0], n) and of(t.a[0].a[-1])
    me = lambda t: t is ID
    LES = lambda t: islesson(t, me)
    need = {
        "Exercise": {"exercise": me, "lesson": LES, "course": lambda t: isparent(t, LES)},
        "Lesson": {"exercise": within("get_lesson_exercises", me), "lesson": me, "course": lambda t: isparent(t, me)},
        "Course": {"exercise": within("get_lesson_exercises", within("get_course_lessons", me)), "lesson": within("get_course_lessons", me), "course": me},
    }
    first = {"Exercise": LES, "Lesson": me, "Course": me}
    for ty in ("Exercise", "Lesson", "Course"):
        terms.ORACLE[0] = oracle([Atom("type", lambda t: getter(t, "get_unit_type", "get_unit_type_strict") and t.a[-1] is ID, None)], [("POS", ty)])
        try:
            E = Engine(F, popsym=True, watch_call=lambda n: last(n) in SHRINK or last(n) in GROW or last(n) in PARTIAL)
            r = E.run(p)
        finally:
            terms.ORACLE[0] = None
        rem, push = [], []
        for s in r.sites:
            if s.kind != "call":
                continue
            cache = own_recv(s, caches)
            if cache and last(s.name) in SHRINK:
                rem.append((cache, s))
            elif not cache and last(s.name) in ("push", "push_back", "push_front", "insert", "extend", "append") and len(s.args) >= 2:
                v = s.args[1]
                keys = unphi(elem(v)) if last(s.name) in ("extend", "append") else unphi(v)
                push.append((keys, s))
        for s in r.sites:
            if s.kind == "call" and last(s.name) in PARTIAL and not own_recv(s, caches):
                c.fail("unit/%s/every" % ty, s.where(), "%s: only some of %s are looked at" % (last(p), show(s.args[0], 4)))
        popped = {x for s in r.sites for a in s.args for x in sub(a) if x.op == "C" and x.a[0] == "popped"}
        c.to_the_end("unit/" + ty, [s for _, s in rem] + [s for _, s in push])
        # what a unit taken up is compared with does not contain units that were only noted
        noted = {k for keys, s in push for k in keys if not any(x in popped for x in sub(s.recv if s.recv is not None else k) if x is k)}
        for s in {s for _, s in rem + push}:
            for x in s.conds:
                b = x.a[0] if x.op == "Not" else x
                if b.op == "C" and last(b.a[0]) in ("insert", "contains") and b.a[-1] in popped and b.a[1].op == "S":
                    lost = [k for e in elems(b.a[1]) for k in unphi(e[0]) if k in noted and k not in popped]
                    c.ob("unit/%s/supersedes/marked" % ty, not lost, s.where(), "%s is left out when its turn comes: it was marked as seen when it was "
                         "noted" % ", ".join(show(k, 4)[:100] for k in lost))

        def removed(names_, want, label, why):
            for cache in caches:
                if kind.get(cache) not in names_ or why == "superseded" and cache not in own:
                    continue
                ok, why_not = False, "nothing removes %s" % label
                for ch, s in rem:
                    if ch != cache:
                        continue
                    if last(s.name) == "clear" and not s.conds:
                        ok = True
                        break
                    if last(s.name) not in ("remove", "remove_entry"):
                        continue
                    if any(want(k) for k in keysof(s.args[1])):
                        x = extra(s, r, popped, cache)
                        if not x:
                            ok = True
                            break
                        why_not = "it is only removed if %s" % ", ".join(show(y, 5)[:120] for y in x)
                c.ob("unit/%s/%s/%s" % (ty, cache[0], why), ok, w0, "%s: when the data of a %s changes, %s stays in %s: %s" % (
                    last(p), ty.lower(), label, cache[0], why_not))
        for k, want in need[ty].items():
            removed((k,), want, {"exercise": "the score of its exercises" if ty != "Exercise" else "its own score",
                                 "lesson": "the score of its lessons" if ty == "Course" else "its own score" if ty == "Lesson" else "the score of its lesson",
                                 "course": "its own score" if ty == "Course" else "the score of its course"}[k], "own")
        # units superseded by any unit whose score may change
        starts = set()
        grow = set()
        for keys, s in push:
            for k in keys:
                if any(x in popped for x in sub(k)):
                    if not extra(s, r, popped, None):
                        grow.add(k)
                elif not extra(s, r, popped, None):
                    starts.add(k)
        starts |= {k for st in E.taken.values() for x in st for k in unphi(x) if not any(y in popped for y in sub(k))}
        W = lambda t: t in popped
        sup = within("get_supersedes", W)
        has = lambda pred, st: any(pred(k) for k in st)
        # every popped element is looked at, so elements may be followed directly
        c.ob("unit/%s/supersedes/start" % ty, has(first[ty], starts) and (ty != "Course" or has(within("get_course_lessons", me), starts)), w0,
             "%s: units superseded by the %s are never looked for" % (last(p), {"Exercise": "lesson of the exercise", "Lesson": "lesson", "Course": "course or its lessons"}[ty]))
        par = has(lambda t: isparent(t, W), grow)
        par2 = has(lambda t: isparent(t, sup), grow)
        par0 = ty == "Course" or has(lambda t: isparent(t, first[ty]), starts)
        c.ob("unit/%s/supersedes/courses" % ty, par or par2 and par0, w0,
             "%s: units superseded by the course of a unit whose score changes are never looked for" % last(p))
        c.ob("unit/%s/supersedes/further" % ty, has(sup, grow), w0, "%s: units superseded by a superseded unit are never looked for" % last(p))
        either = lambda t: sup(t) or W(t)
        removed(("lesson",), either, "the score of a superseded lesson", "superseded")
        removed(("course",), lambda t: isparent(t, either) or W(t) and (par or par2), "the score of the course of a superseded lesson", "superseded-course")
        score_course = [x for x in caches if kind.get(x) == "course"]
        if score_course:
            ok = any(ch in score_course and (last(s.name) == "clear" and not s.conds or last(s.name) in ("remove", "remove_entry") and
                     any(either(k) for k in keysof(s.args[1])) and not extra(s, r, popped, ch)) for ch, s in rem)
            c.ob("unit/%s/superseded-own-course" % ty, ok, w0, "%s: the score of a superseded course stays cached" % last(p))
    c.analysed["removals in %s" % last(p)] = len(rem)


def keysof(t):
    return unphi(t)


def extra(s, r, popped, cache):
    """Conditions of a removal that are not about the units it follows."""
    out = []
    keys = {x for a in s.args[1:] for x in sub(a)}
    for c in s.conds:
        b = c
        while b.op in ("Not", "Is"):
            b = b.a[0]
        if b.op == "Next" or b in popped:
            continue
        if b.op == "C" and (b in keys or last(b.a[0]) in ("get_unit_type", "get_unit_type_strict")):
            continue
        if b.op == "C" and last(b.a[0]) in ("insert", "contains", "contains_key", "get", "is_empty", "is_some", "is_none", "replace") and (
                any(x in keys for x in b.a[1:]) or any(x in popped for x in b.a[1:]) or
                last(b.a[0]) == "is_empty" and path_of(b.a[1]) is None):
            continue
        if b.op == "C" and any(x in keys for x in b.a[1:]) and last(b.a[0]).startswith("get_") and any(mentions(k, lambda t: t is b) for k in keys):
            continue
        if settled(c):
            continue
        out.append(c)
    return out


def settled(c):
    """Alternatives that are all of one class, under the type assumed."""
    return c.op == "Phi" and len({x.op for x, _ in c.a}) == 1 and c.a[0][0].op in ("Pos", "Neg")


def prefix(c, F, caches, p):
    f = F.fns[p]
    r = Engine(F, event=lambda n: last(n) == "clear").run(p)
    cleared = {a[0] for n, a in evs(r.facts) if a}
    for cache in caches:
        ok = any(show(x).startswith(show(at(ME, cache))) for x in cleared)
        for x in r.facts:
            if x.op == "all" and show(x.a[0]).startswith(show(at(ME, cache))):
                g = x.a[1]
                if g.op == "is" and g.a[1] is False and getter(g.a[0], "starts_with") and g.a[0].a[-1] is ID:
                    ok = True
        c.ob("prefix/%s" % cache[0], ok, "%s:%s" % tuple(f.span[:2]), "%s may leave a unit with the prefix in %s" % (last(p), cache[0]))


def facade(c, F, caches, inval, names):
    mut = set()
    for f in F.fns.values():
        ti = f.d.get("trait_item")
        if ti and any(ti.startswith(t + "::") for t in SOURCES) and f.argc and re.match(r"&('\w+ )?mut ", f.locals[1]):
            mut.add(ti)
    c.floor("operations changing what scores are computed from", len(mut), 8)
    allinv = inval["unit"] + inval["prefix"] + inval["all"]
    ops = {}
    for im in F.impls:
        if im["self"] in ("Trane",):
            for m in im["methods"]:
                if m["is_fn"] and m["path"] in F.fns:
                    ops[m["path"]] = m["trait_item"]
    reach = {}
    n = 0
    seen = set()
    for p, item in sorted(ops.items()):
        f = F.fns[p]
        rc = F.reachable([f.path], cut=lambda q: q in names)
        callees = set()
        for q in rc:
            if q in F.fns:
                callees |= {x for x, _ in site_calls(F, F.fns[q])}
        if not callees & mut:
            continue
        n += 1
        E = Engine(F, opaque=lambda q: q in names, event=lambda x: x in mut, watch_call=lambda x: x in mut or x in allinv or last(x) in PARTIAL)
        r = E.run(p)
        part = [s for s in r.sites if s.kind == "call" and last(s.name) in PARTIAL and s.args]
        shared = not re.match(r"&('\w+ )?mut ", f.locals[1])
        succ = [fs for x, fs in alts(r.ret) if x.op != "Neg"] if r.ret is not None else [frozenset()]
        muts = [s for s in r.sites if s.name in mut]
        invs = [s for s in r.sites if s.name in allinv]
        c.ob("facade/anchor/" + item, muts, "%s:%s" % tuple(f.span[:2]), "the change made by %s was not found" % item)
        for m in muts:
            seen.add(m.name)
            res = mk("C", m.name, *m.args)
            msgs = []
            ok = False
            unitarg = m.args[1] if len(m.args) > 1 else None
            for i in invs:
                if not covers(F, m, i, inval, unitarg):
                    continue
                cut = [s for s in part if unitarg is not None and any(x is unitarg or x.op == "C" and x.a[0] == m.name for x in sub(s.args[0]))
                       and i.name not in inval["prefix"] + inval["all"]]
                if cut:
                    msgs.append("only for some of them (%s)" % last(cut[0].name))
                    continue
                bad = [x for x in i.conds if not fine(x, m, i, succ)] + narrower(i, m, succ)
                if bad:
                    msgs.append("only if %s" % ", ".join(show(x, 4)[:100] for x in bad))
                    continue
                if shared and not any(e.op == "ev" and e.a[0] == m.name for e in i.facts) and not any(
                        mentions(x, lambda t: t.op == "C" and t.a[0] == m.name) for x in i.conds):
                    msgs.append("before the change is made, so that a query running beside it may store the old score again")
                    continue
                ok = True
            c.ob("facade/%s/%s" % (item, last(m.name)), ok, m.where(), "%s changes data without removing the scores computed from it%s" % (
                item, ": " + "; ".join(msgs) if msgs else ""))
    c.floor("facade operations changing what scores are computed from", n, 8)
    for t in sorted(mut - seen):
        c.ob("facade/unused/" + t, True, "", "never called")
    # nothing else changes the stores
    for f in F.fns.values():
        if not F.in_scope(f) or f.path in ops:
            continue
        for q, t in site_calls(F, f):
            if q in mut and f.d.get("impl_trait") not in SOURCES:
                roots = [p for p in ops if f.path in F.reachable([p], cut=lambda q: q in names) or any(f.path.startswith(x + "::") for x in F.reachable([p], cut=lambda q: q in names))]
                c.ob("facade/reach/%s/%s" % (short(f.path), last(q)), roots, "%s:%s" % tuple(f.span[:2]),
                     "%s changes the store outside the operations of the facade" % short(f.path))


def covers(F, m, i, inval, unitarg):
    if i.name in inval["all"]:
        return True
    k = i.args[1]
    if i.name in inval["prefix"]:
        return k.op == "K" and k.a[-1] == ""
    if unitarg is None:
        return False
    for x in unphi(k):
        if x is unitarg:
            return True
        # an element of the records handed over
        if x.op == "F" and x.a[0].op == "E" and x.a[0].a[0] is unitarg and x.a[1] in ("exercise_id", "unit_id"):
            return True
        if unitarg.op in ("Arr",) and len(unitarg.a) == 1 and x is field(unitarg.a[0], "exercise_id"):
            return True
        if x is field(elem(unitarg), "exercise_id") or x is field(elem(unitarg), "unit_id"):
            return True
        # the units the store says it changed
        if x.op == "E" and x.a[0].op == "C" and x.a[0].a[0] == m.name:
            return True
    return False


def narrower(i, m, succ):
    """What is known where the scores are removed, although it need not hold when the change is made."""
    each = {x for a in i.args[1:] for x in sub(a) if x.op == "E"}
    return [f.a[0] for f in i.facts if f.op == "is" and not holds(m.facts, f) and
            (any(x in each for x in sub(f.a[0])) or not (succ and all(holds(g, f) for g in succ))) and
            not (f.a[0].op == "C" and f.a[0].a[0] == m.name)]


def fine(x, m, i, succ):
    from graph import determined
    b = x
    while b.op in ("Not", "Is"):
        b = b.a[0]
    if b.op == "Next":
        return True
    if b.op == "C" and b.a[0] == m.name:
        return True
    if any(y is x for y in m.conds):
        return True
    fs = frozenset(m.facts)
    return determined(x, fs) or bool(succ) and all(determined(x, g) for g in succ)


def clock(c, F, caches):
    for p in [f.path for f in own_methods(F, US) if f.d["name"] == "set_override_timestamp"]:
        r = Engine(F, event=lambda n: last(n) == "clear").run(p)
        cleared = {show(a[0], 6) for n, a in evs(r.facts) if a}
        cell = next((v for k, v in r.cells.items() if k[1] == "r1"), None)
        for cache in caches:
            old = show(at(ME, cache))
            v = at(cell, cache) if cell is not None else None
            ok = any(x.startswith(old) for x in cleared) or v is not None and v.op == "S" and not v.a
            c.ob("clock/" + cache[0], ok, "%s:%s" % tuple(F.fns[p].span[:2]), "%s keeps scores computed for another time" % cache[0])
