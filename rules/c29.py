"""Courses under the paths a user ignores."""
from opening import *


def right(t, e):
    """t asks whether what entry e is lies under one of the ignored paths, taken from the root that is searched."""
    if last(t) != "starts_with" or "Path" not in t.a[0] or len(t.a) != 3:
        return False
    x, y = t.a[1:]
    up = 0
    while last(x) in ("parent", "path", "into_path") and len(x.a) == 2:
        up += last(x) == "parent"
        x = x.a[1]
    return up < 2 and x is e and ignored(y, walked(e)[0])


def ignored(y, root):
    while last(y) in ("as_path", "to_path_buf", "into"):
        y = y.a[1]
    if last(y) not in ("join", "push") or len(y.a) != 3 or y.a[1] is not root:
        return False
    y = y.a[2]
    return y.op == "E" and y.a[0] is mk("F", PREFS, "ignored_paths")


def whole(coll, root):
    """The collection holds every ignored path."""
    if coll.op == "S":
        return all(not fs and ignored(x, root) for x, fs in coll.a)
    return coll is mk("F", PREFS, "ignored_paths")


def check(c):
    F = c.F
    c.rule = """Wherever a course manifest found in the walk is read, it is established for every path the user ignores that the manifest does
    not lie under it, as paths compare and counted from the root that is searched; nothing else about the ignored paths decides it."""
    n = 0
    for gen in (True, False):
        p, r, E = opening(c, World(generator=gen))
        if not p:
            return
        for s in r.sites:
            if s.kind != "call" or s.name.split("::")[-1] != "normalize_paths" or "CourseManifest" not in s.name:
                continue
            n += 1
            e = entry(s.args[1])
            ok = e is not None and walk_kind(e) == "COURSE"
            good = ok and [f for f in s.facts if f.op == "all" and f.a[1].op == "is" and f.a[1].a[1] is False and right(f.a[1].a[0], e)
                           and whole(f.a[0], walked(e)[0])]
            c.ob("ignored/%s" % gen, good, s.where(), "a course is read without knowing that it is under none of the ignored paths")
            odd = []
            for t in s.conds:
                mentions(t, lambda x: odd.append(x) if x.op == "C" and last(x) not in ("join", "push", "absolute", "canonicalize", "path", "parent")
                         and any(mentions(y, lambda z: z.op == "F" and z.a[1] == "ignored_paths") for y in x.a[1:] if isinstance(y, T))
                         and not right(x, e) else None)
            for f in s.facts:
                g = f.a[1] if f.op == "all" else f
                if g.op == "is" and mentions(g.a[0], lambda z: z.op == "F" and z.a[1] == "ignored_paths") and not right(g.a[0], e):
                    odd.append(g.a[0])
            c.ob("not-ignored/%s" % gen, not odd, s.where(), "courses are also left out by %s" % [show(x, 6)[:150] for x in odd])
        for s in partial(r):
            c.ob("partial/%s" % gen, not any(mentions(a, lambda z: z.op == "F" and z.a[1] == "ignored_paths") for a in s.args), s.where(),
                 "only some of the ignored paths are looked at")
    c.floor("places where courses are read", n, 2)
