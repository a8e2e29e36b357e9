"""What opening a library takes in and refuses."""
from opening import *
from results import Flow, has_result

REG = {"COURSE": "Course", "LESSON": "Lesson", "EXERCISE": "Exercise"}


def decided(w, t):
    while t.op == "Not":
        t = t.a[0]
    if t.op == "Next" or w(t) is not None:
        return True
    terms.ORACLE[0] = w
    try:
        return any(len([x for x in cl if assume(t, x) is not None]) == 1 for cl in ((True, False), ("POS", "NEG")))
    except Exception:
        return False
    finally:
        terms.ORACLE[0] = None


def open_conds(w, s, but=lambda t: False):
    return [x for x in s.conds if not decided(w, x) and not but(x)]


def choosy(w, t):
    """The undecided facts on the alternatives of a value."""
    def atoms(f):
        if f.op == "is":
            return [f.a[0]]
        if f.op == "or":
            return [y for g in f.a[0] for x in g for y in atoms(x)]
        if f.op == "all":
            return atoms(f.a[1])
        return [y for x in f.a[1] for y in atoms(x)] if f.op == "ex" else []
    return [y for x, fs in alts(t) for f in fs for y in atoms(f) if not decided(w, y)]


def where_from(t):
    """The kind of manifest a term is (a field of): COURSE, LESSON, EXERCISE, or the same made by a generator."""
    while t.op == "F" or t.op == "Upd":
        if t.op == "F" and t.a[0].op == "E":
            if t.a[0].a[0].op == "F" and t.a[0].a[0].a[0] is MADE and t.a[1] == "0":
                return "LESSON*"
        t = t.a[0]
    for k, v in SYM.items():
        if t is v:
            return k
    if t.op == "E" and mentions(t, lambda x: x is MADE):
        return "EXERCISE*"
    return None


def manifest(t):
    """(kind, manifest) if t is a whole manifest."""
    for k, v in SYM.items():
        if t is v or t.op == "U" and t.a[0] is v:
            return k
    if t.op == "F" and t.a[1] == "0" and t.a[0].op == "E" and t.a[0].a[0] is mk("F", MADE, "lessons"):
        return "LESSON*"
    if t.op == "E" and t.a[0].op == "F" and t.a[0].a[1] == "1" and t.a[0].a[0].op == "E" and t.a[0].a[0].a[0] is mk("F", MADE, "lessons"):
        return "EXERCISE*"
    return None


def fields_of(t):
    """{(kind, field)} of the alternatives of a term; None for anything else."""
    out = set()
    for x, _ in alts(t):
        k = manifest(x.a[0]) if x.op == "F" else None
        out.add((k, x.a[1]) if k else None)
    return out


def taken(t):
    """The manifests, and what is made of GENERATED, in a value that is kept."""
    for x, _ in alts(t):
        yield x
        if x.op == "A":
            for _, y in x.a[2:]:
                yield from taken(y)
        if x.op == "F" and x.a[0] is MADE:
            yield MADE
        if x.op == "S":
            for y, _ in x.a:
                yield from taken(y)


def whole(t):
    return {manifest(x) for x, _ in alts(t)}


WANT = {
    "COURSE": [("add_course", ("id",)), ("add_dependencies", ("id", "@Course", "dependencies")),
               ("add_encompassed", ("id", "dependencies", "encompassed")), ("add_superseded", ("id", "superseded"))],
    "LESSON": [("add_lesson", ("id", "course_id")), ("add_dependencies", ("id", "@Lesson", "dependencies")),
               ("add_encompassed", ("id", "dependencies", "encompassed")), ("add_superseded", ("id", "superseded"))],
    "EXERCISE": [("add_exercise", ("id", "lesson_id"))],
}


def fits(s, kinds, want):
    """The call's arguments are the wanted fields of manifests of these kinds; the kinds covered."""
    if len(s.args) != len(want) + 1:
        return None
    got = None
    for a, f in zip(s.args[1:], want):
        if f[0] == "@":
            if not (a.op == "A" and show(a).split("{")[0].endswith("::" + f[1:])):
                return None
            continue
        fs = fields_of(a)
        up = {"course_id": {("COURSE", "id")}, "lesson_id": {("LESSON", "id"), ("LESSON*", "id")}}.get(f)
        if up and fs <= up:      # the unit above, which it agrees with
            continue
        if None in fs or any(g != f or k not in kinds for k, g in fs):
            return None
        ks = {k for k, _ in fs}
        got = ks if got is None else got & ks
    return got


def check(c):
    F = c.F
    c.rule = """Opening a library, evaluated with a symbol for each manifest read. If everything read is in order, each course, lesson and exercise
    manifest found, and each lesson and exercise a generator makes, is entered with its own id, relations and kind in the graph and, whole,
    under its id in the library, whatever else it contains; the starting lessons are computed afterwards, cycles looked for, and the library
    returned. If an id is empty or disagrees with the manifest above, nothing is entered for it. No failure on the way is lost. What a
    unit encompasses is only replaced by what it depends on if nothing encompasses anything explicitly."""
    n = 0
    for gen in (True, False):
        w = World(generator=gen)
        p, r, E = opening(c, w)
        if not p:
            return
        n += good(c, "generated" if gen else "plain", w, p, r, gen)
        if gen:
            n += failures(c, E)
    # inconsistent manifests
    for wrong in (("COURSE", "id"), ("LESSON", "id"), ("LESSON", "course_id"), ("EXERCISE", "id"), ("EXERCISE", "lesson_id"), ("EXERCISE", "course_id")):
        w = World(wrong=wrong)
        p, r, E = opening(c, w)
        for s in r.sites:
            if s.kind != "call" or not s.name.split("::")[-1].startswith("add_") and s.name.split("::")[-1] != "insert":
                continue
            n += 1
            bad = [x for a in s.args[1:] for x, _ in alts(a) if where_from(x) == wrong[0]]
            c.ob("refused/%s.%s/%s" % (wrong + (s.name.split("::")[-1],)), not bad, s.where(),
                 "%s is taken in although its %s is %s" % (TYPES[wrong[0]], wrong[1], "empty" if wrong[1] == "id" else "not that of the manifest above"))
    # cycles
    w = World(fails=("check_cycles",))
    p, r, E = opening(c, w)
    for x, _ in alts(r.ret):
        c.ob("cycles/refused", x.op != "Pos" and not any(y.op == "Pos" for y, _ in alts(x)), "%s:%s" % tuple(F.fns[p].span[:2]),
             "a library with cycles is opened")
    # explicit encompassing
    for k in ("COURSE", "LESSON", "LESSON*"):
        e = {"COURSE": False, "LESSON": False, "LESSON*": False}
        e[k] = e[k.rstrip("*")] = True
        w = World(generator=k == "LESSON*", encompassed=e)
        p, r, E = opening(c, w)
        for s in r.sites:
            if s.kind == "call" and s.name.split("::")[-1] == "set_encompasing_equals_dependency":
                n += 1
                flag = [x for x in s.conds if x.op == "Phi" and any(y is FALSE for y, _ in x.a) or last(x) in ("all", "any") or x.op == "Not" and last(x.a[0]) in ("all", "any")]
                sure = [x for x in flag if x.op != "Phi" or any(y is FALSE and not choosy(w, mk("Phi", (y, fs))) for y, fs in x.a)]
                c.ob("encompassing/explicit/" + k, sure, s.where(), "what %s manifests encompass is thrown away" % k.lower())
    falling(c, E)
    c.floor("steps of opening", n, 60)


def good(c, g, w, p, r, gen):
    F = c.F
    at = "%s:%s" % tuple(F.fns[p].span[:2])
    n = 0
    # what is read
    for k in KINDS:
        ss = [s for s in r.sites if s.kind == "call" and s.name.split("::")[-1] == "normalize_paths" and TYPES[k] in s.name]
        c.ob("%s/%s/found" % (g, k), ss, at, "no %s is read" % FILES[k])
        for s in ss:
            n += 1
            e = entry(s.args[1])
            c.ob("%s/%s/place" % (g, k), e is not None and walk_kind(e) == k and last(s.args[1]) == "parent", s.where(),
                 "relative to %s" % show(s.args[1], 6)[:200])
            src = []
            mentions(s.args[0], lambda x: src.append(x.a[1]) if last(x) in ("open", "read", "read_to_string") else None)
            c.ob("%s/%s/file" % (g, k), src and all(entry(x) is e and last(x) in ("path", "into_path") for x in src), s.where(),
                 "read from %s" % [show(x, 6)[:150] for x in src])
            if e is not None and walked(e):
                opts = walked(e)[1]
                odd = [o for o in opts if o[0] not in WALK]
                lo = [o[1] for o in opts if o[0] == "min_depth"] or [0]
                hi = [o[1] for o in opts if o[0] == "max_depth"]
                ok = not odd and int(lo[0]) <= 2 and (not hi if k == "COURSE" else all(int(x) >= 2 for x in hi))
                c.ob("%s/%s/depth" % (g, k), ok, s.where(), "looked for with %s" % opts)
            odd = open_conds(w, s)
            c.ob("%s/%s/all-found" % (g, k), not odd, s.where(), "only read if %s" % [show(x, 6)[:150] for x in odd])
    for s in r.sites:
        if s.kind == "call" and s.name.split("::")[-1] == "generate_manifests":
            n += 1
            a = s.args
            ok = a[0] is mk("F", SYM["COURSE"], "generator_config") and last(a[1]) == "parent" and walk_kind(entry(a[1])) == "COURSE" and \
                manifest(a[2]) == "COURSE" and a[3] is PREFS
            c.ob("%s/generator" % g, ok, s.where(), "a course is generated from %s" % [show(x, 4)[:100] for x in a])
    # what is entered
    regs = {}
    for k in KINDS:
        kinds = {k} | ({k + "*"} if gen and k != "COURSE" else set())
        for m, want in WANT[k]:
            done = set()
            for s in r.sites:
                if s.kind == "call" and s.name.split("::")[-1] == m and "UnitGraph" in s.name:
                    got = fits(s, kinds, want)
                    if got is None:
                        continue
                    n += 1
                    odd = open_conds(w, s, lambda t: m == "add_superseded" and names_none(t))
                    if c.ob("%s/%s/%s/always" % (g, k, m), not odd, s.where(), "only entered if %s" % [show(x, 6)[:150] for x in odd]):
                        done |= got
                    regs[s] = True
            c.ob("%s/%s/%s" % (g, k, m), done == kinds, at, "not done for %s" % sorted(kinds - done))
    for s in r.sites:
        if s.kind == "call" and s.name.split("::")[-1].startswith("add_") and "UnitGraph" in s.name:
            c.ob("%s/%s/arguments" % (g, s.name.split("::")[-1]), s in regs, s.where(), "called with %s" % [show(x, 4)[:80] for x in s.args[1:]])
    for s in r.sites:
        if s.kind != "call" or s.name.split("::")[-1] not in ADD and s not in regs or len(s.args) < 2:
            continue
        if s in regs:
            odd = [x for a in s.args[1:] for x in choosy(w, a)]
        elif any(x is MADE or manifest(x) for a in s.args[1:] for z in [a] for x in taken(z)):
            odd = [x for a in s.args[1:] for x in choosy(w, a)] + open_conds(w, s)
        else:
            continue
        n += 1
        c.ob("%s/%s/whatever-it-contains" % (g, s.name.split("::")[-1]), not odd, s.where(), "only taken in if %s" % [show(x, 6)[:150] for x in odd])
    for s in partial(r):
        n += 1
        some = [a for a in s.args for x in taken(a) if x is MADE or manifest(x) or walked(x)] + [a for a in s.args if walked(mk("E", a))]
        c.ob("%s/partial" % g, not some, s.where(), "%s only lets some through" % s.name)
    c.to_the_end(g, list(regs) + [s for s in r.sites if s.kind == "call" and s.name.split("::")[-1] in ADD + ("normalize_paths", "generate_manifests")])
    # the steps after all units are in
    for m in ("update_starting_lessons", "check_cycles"):
        ss = [s for s in r.sites if s.kind == "call" and s.name.split("::")[-1] == m]
        c.ob("%s/%s" % (g, m), ss, at, "never done")
        for s in ss:
            n += 1
            odd = open_conds(w, s)
            c.ob("%s/%s/always" % (g, m), not odd, s.where(), "only done if %s" % [show(x, 6)[:150] for x in odd])
            late = all(later(F, x, s) for x in regs)
            c.ob("%s/%s/afterwards" % (g, m), late, s.where(), "done before all units are in the graph")
    # the library returned
    lib = []
    for x, _ in alts(r.ret):
        if x.op == "Pos":
            lib += [y for y, _ in alts(x.a[0])]
        else:
            c.fail("%s/opened" % g, at, "a library in order is refused")
    c.ob("%s/opened" % g, len(lib) >= 1, at, "no library is returned")
    for l in lib:
        for k, f in (("COURSE", "course_map"), ("LESSON", "lesson_map"), ("EXERCISE", "exercise_map")):
            kinds = {k} | ({k + "*"} if gen and k != "COURSE" else set())
            got = set()
            for e, fs in elems(field(l, f)):
                n += 1
                ids, man = fields_of(field(e, "0")), whole(field(e, "1"))
                ok = None not in ids and None not in man and ids == {(x, "id") for x in man} and man <= kinds
                c.ob("%s/%s/under-its-id" % (g, f), ok, at, "it contains %s" % show(e, 5)[:300])
                got |= man
                for x, _ in alts(field(e, "1")):
                    changed(c, g, f, x, at)
            c.ob("%s/%s/complete" % (g, f), got == kinds, at, "without %s" % sorted(kinds - got))
        c.ob("%s/preferences" % g, field(l, "user_preferences") is PREFS, at, "the preferences are %s" % show(field(l, "user_preferences"), 4)[:100])
    return n


def names_none(t):
    """Whether a manifest supersedes nothing."""
    t = t.a[0] if t.op == "Not" else t
    return last(t) == "is_empty" and t.a[1].op == "F" and t.a[1].a[1] == "superseded" and manifest(t.a[1].a[0]) is not None


def changed(c, g, f, x, at):
    """A manifest is kept as it was read, but for what a generator updates."""
    if x.op != "U":
        return
    for nm, v in x.a[1:]:
        up = {"metadata": "updated_metadata", "course_instructions": "updated_instructions"}.get(nm)
        for y, fs in alts(v):
            new = mk("F", MADE, up) if up else None
            ok = y is mk("F", x.a[0], nm) or up and (y is new and holds(fs, fact(new, "POS")) or
                                                     y is not new and mentions(y, lambda z: z is new))
            c.ob("%s/%s/%s-kept" % (g, f, nm), ok, at, "replaced by %s" % show(y, 5)[:150])


def failures(c, E):
    """No Result is lost in the functions opening goes through."""
    F = c.F
    n = 0
    for p in sorted(E.visited):
        f = F.fns.get(p)
        if not f or "course_library" not in p:
            continue
        fl = None
        for b, t in f.calls():
            fr, dt = t.get("f"), t.get("dt") or ""
            if not fr or not has_result(dt) or fr.get("trait") in ("std::ops::Try", "std::ops::FromResidual") or "walkdir" in dt or "fmt::Error" in dt:
                continue
            fl = fl or Flow(F, f)
            why = fl.lost(b, t["d"][0]) if t["t"] is not None else None
            n += 1
            c.ob("failure/%s/%s" % (p, fr["path"].split("::")[-1]), why is None, "%s:%s" % tuple((t.get("sp") or f.span)[:2]),
                 "the failure of %s is lost: %s" % (fr["path"], why))
    return n


def falling(c, E):
    """A flag deciding whether explicit encompassing is kept never comes back once it is lowered."""
    F = c.F
    for p in sorted(E.visited):
        f = F.fns.get(p)
        calls = [b for b, t in f.calls() if (t.get("f") or {}).get("path", "").endswith("::set_encompasing_equals_dependency")] if f else []
        if not calls:
            continue
        cd = E.control(f)
        by = {}          # flag -> blocks switching on it
        for b, blk in enumerate(f.blocks):
            if blk and blk["t"]["k"] == "switch" and blk["t"].get("ty") == "bool":
                l = origin(f, blk["t"]["d"])
                if l is not None:
                    by.setdefault(l, set()).add(b)
        for l in {l for b in calls for l, bs in by.items() if bs & set(cd.get(b, ()))}:
            for b, rv in assigned(f, l):
                if b not in cd[None]:
                    continue
                low = rv[0] == "use" and rv[1][0] == "K" and "false" in str(rv[1][1:]).lower()
                both = rv[0] == "bin" and rv[1] == "BitAnd" and any(origin(f, o) == l for o in rv[2:])
                held = set(cd.get(b, ())) & by[l]
                c.ob("encompassing/kept/" + p, low or both or held, "%s:%s in %s" % (f.span[0], f.span[1], p),
                     "a flag lowered for one unit is raised again by another")


def origin(f, o):
    """The variable an operand copies."""
    for _ in range(6):
        if o[0] not in ("C", "M") or len(o[1]) != 1:
            return None
        l = o[1][0]
        a = assigned(f, l)
        if len(a) == 1 and a[0][1][0] == "use" and a[0][1][1][0] in ("C", "M"):
            o = a[0][1][1]
        else:
            return l
    return None


def assigned(f, l):
    out = [(i, s[2]) for i, s in f.stmts() if s[0] == "=" and s[1] == [l]]
    return out + [(b, ("call",)) for b, t in f.calls() if t.get("d") == [l]]
