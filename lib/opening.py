"""Opening a library: the interpreter's view of LocalCourseLibrary::new, with symbols for the manifests it reads."""
from q import *
import terms
from sched import PARTIAL
from stores import mentions
from table import *

KINDS = ("COURSE", "LESSON", "EXERCISE")
SYM = {k: mk("C", k) for k in KINDS}
FILES = {"COURSE": "course_manifest.json", "LESSON": "lesson_manifest.json", "EXERCISE": "exercise_manifest.json"}
TYPES = {"COURSE": "CourseManifest", "LESSON": "LessonManifest", "EXERCISE": "ExerciseManifest"}
MADE = mk("C", "GENERATED")
MADE_LESSON = mk("F", mk("E", mk("F", MADE, "lessons")), "0")
ROOT, PREFS = mk("P", 1), mk("P", 2)
WALK = {"min_depth", "max_depth", "new", "sort_by", "sort_by_key", "sort_by_file_name", "contents_first", "max_open", "into_iter"}
ADD = ("insert", "push", "extend")


def last(t):
    return t.a[0].split("::")[-1] if t.op == "C" and isinstance(t.a[0], str) else None


def walked(e):
    """(what is walked, the walk's settings) of an element of a walk through directories, or None."""
    if e.op != "E":
        return None
    t, opts = e.a[0], []
    while t.op == "C":
        n = last(t)
        if n == "new" and len(t.a) == 2:
            return t.a[1], opts
        opts.append((n,) + tuple(x.a[1] if x.op == "K" else None for x in t.a[2:]))
        t = t.a[1] if len(t.a) > 1 else mk("W", "?")
    return None


def entry(t):
    """The directory entry a term is about: the innermost one that the rest is computed from."""
    if t.op == "C" and last(t) in ("parent", "path", "into_path") and len(t.a) == 2:
        return entry(t.a[1])
    return t if walked(t) else None


def walk_kind(e):
    """Which manifests are looked for in the walk an entry comes from."""
    w = walked(e)
    if not w:
        return None
    r = w[0]
    if r is ROOT or last(r) == "absolute" and r.a[1] is ROOT or last(r) == "canonicalize" and r.a[1] is ROOT:
        return "COURSE"
    if last(r) == "parent" and last(r.a[1]) in ("path", "into_path"):
        k = walk_kind(r.a[1].a[1])
        if k in ("COURSE", "LESSON"):
            return KINDS[KINDS.index(k) + 1]
    return None


def about_entry(t):
    """The entry a condition is about (the deepest walk mentioned)."""
    got = []

    def f(x):
        if x.op == "E" and walked(x):
            got.append(x)
        return False
    mentions(t, f)
    ks = [(KINDS.index(k), e) for e in got for k in [walk_kind(e)] if k]
    return max(ks, key=lambda x: x[0])[1] if ks else None


def is_id(t, k, name):
    return t is mk("F", SYM[k], name)


def same_ids(t):
    """'LESSON'/'EXERCISE'... of an equality of ids that the manifests must satisfy: (kind, field)."""
    x, y = t.a[-2:]
    for a, b in ((x, y), (y, x)):
        if is_id(a, "LESSON", "course_id") and base_id(b, "COURSE"):
            return "LESSON", "course_id"
        if is_id(a, "EXERCISE", "lesson_id") and is_id(b, "LESSON", "id"):
            return "EXERCISE", "lesson_id"
        if is_id(a, "EXERCISE", "course_id") and (is_id(b, "LESSON", "course_id") or base_id(b, "COURSE")):
            return "EXERCISE", "course_id"
    return None


def base_id(t, k):
    return is_id(t, k, "id")


class World:
    def __init__(self, wrong=None, generator=True, ignored=False, fails=(), encompassed=None):
        self.wrong, self.generator, self.ignored, self.fails, self.encompassed = wrong, generator, ignored, fails, encompassed or {}

    def __call__(self, t):
        if t.op == "C":
            if t in SYM.values() or t is MADE:
                return ("NEG",) if t.a[0] in self.fails else ("POS",)
            n = last(t)
            if isinstance(t.a[0], str) and t.a[0].startswith("ok:"):
                return ("NEG",) if t.a[0][3:] in self.fails else ("POS",)
            if n == "is_empty" and len(t.a) == 2 and t.a[1].op == "Phi":
                got = {self(mk("C", t.a[0], x)) for x, _ in t.a[1].a}
                return got.pop() if len(got) == 1 else None
            if n == "is_empty" and len(t.a) == 2:
                for k in KINDS:
                    if is_id(t.a[1], k, "id"):
                        return (self.wrong == (k, "id"),)
                    if is_id(t.a[1], k, "encompassed") and k in self.encompassed:
                        return (not self.encompassed[k],)
                if t.a[1] is mk("F", MADE_LESSON, "encompassed") and "LESSON*" in self.encompassed:
                    return (not self.encompassed["LESSON*"],)
                return None
            if n in ("starts_with", "any", "contains") and about_entry(t) is not None and mentions(t, lambda x: x.op == "F" and x.a[1] == "ignored_paths"):
                return (self.ignored,) if walk_kind(about_entry(t)) == "COURSE" else None
            if n == "absolute":
                return ("POS",)
            if n in ("is_dir", "is_symlink") and about_entry(t) is not None:
                return (False,)
            if n in ("is_file", "exists") and about_entry(t) is not None:
                return (True,)
            if n in ("open", "from_reader", "from_str", "from_slice", "read_to_string", "read", "file_name", "to_str", "parent", "metadata",
                     "to_string_lossy", "path") and about_entry(t) is not None:
                return ("POS",)
        if t.op == "E" and walked(t):
            return ("POS",)
        if t.op == "F" and t.a[0] is SYM["COURSE"] and t.a[1] == "generator_config":
            return ("POS",) if self.generator else ("NEG",)
        if t.op == "Eq" or t.op == "B" and t.a[0] == "Eq":
            s = same_ids(t)
            if s:
                return (self.wrong != s,)
            x, y = t.a[-2:]
            for a, b in ((x, y), (y, x)):
                if a.op == "K" and a.a[0] == "str":
                    e = about_entry(b)
                    if e is not None and mentions(b, lambda z: last(z) == "file_name"):
                        return (a.a[1] == FILES[walk_kind(e)],)
        return None


def partial(r):
    """The calls that only let part of a collection through."""
    return [s for s in r.sites if s.kind == "call" and s.name.split("::")[-1] in PARTIAL and not any(x in s.name for x in ("Option::", "mem::", "path::", "cell::"))]


def sym(n, a):
    m = n.split("::")[-1]
    if m == "normalize_paths":
        for k, ty in TYPES.items():
            if ty in n:
                return SYM[k]
    if m == "generate_manifests":
        return MADE
    if "UnitGraph" in n:
        return mk("C", "ok:" + m)
    return None


def opening(c, world, root="LocalCourseLibrary::new"):
    F = c.F
    p = c.fn(root)
    if not p:
        return None, None, None
    graph = {m for t, ms in F.impl_of.items() for m in ms if "graph::UnitGraph::" in t}
    terms.ORACLE[0] = world
    try:
        E = Engine(F, sym=sym, opaque=lambda q: q.split("::")[-1] in ("normalize_paths", "generate_manifests") or "UnitGraph" in q and (
            q in graph or " as graph::UnitGraph>" in q),
                   watch_call=lambda q: q.split("::")[-1] in PARTIAL or q.split("::")[-1] in ADD + ("normalize_paths", "generate_manifests") or "UnitGraph" in q)
        return p, E.run(p), E
    finally:
        terms.ORACLE[0] = None
