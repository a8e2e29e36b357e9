"""Courses made by a generator: ids, ties between units, and nothing lost on the way."""
import itertools

from q import *
import terms
from sched import PARTIAL
from stores import mentions

SELF, ROOT, COURSE, PREFS = mk("P", 1), mk("P", 2), mk("P", 3), mk("P", 4)
CID = mk("F", COURSE, "id")
READ = {"open", "from_reader", "from_str", "from_slice", "read_to_string", "read", "file_name", "to_str", "parent", "metadata", "read_to_end",
        "to_string_lossy", "path", "file_type", "read_dir", "extension", "into_string", "open_serialized", "open_md", "open_md_list", "open_yml_list"}
SAME = {"to_str", "to_string_lossy", "into_string", "to_string", "as_os_str", "new", "new_display", "into_owned", "as_ref", "trim", "from_utf8"}


def last(t):
    return t.a[0].split("::")[-1] if t.op == "C" and isinstance(t.a[0], str) else None


# ---------------------------------------------------------------- strings

def template(b):
    """The parts of a compiled format string: literals and None for each argument; None if it has settings."""
    out, i = [], 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out if i == len(b) else None
        if n < 128:
            out.append(bytes(b[i:i + n]).decode("utf8", "replace"))
            i += n
        elif n == 128:
            n = b[i] + 256 * b[i + 1]
            out.append(bytes(b[i + 2:i + 2 + n]).decode("utf8", "replace"))
            i += 2 + n
        elif n == 192:
            out.append(None)
        else:
            return None
    return None


def lists(kids):
    out = [()]
    for ks in kids:
        out = [a + b for a in out for b in ks]
        if len(out) > 64:
            return [("?",)]
    return out


def text(t):
    """The texts a term may be, as tuples of literals and terms."""
    if t.op == "Phi":
        return [x for u, _ in t.a for x in text(u)]
    if t.op == "K" and t.a[0] == "str":
        return [(t.a[1],)] if t.a[1] else [()]
    if t.op == "K" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
        return [(str(t.a[1]),)]
    n = last(t)
    if n == "format" and len(t.a) == 2 and last(t.a[1]) in ("new", "new_v1", "from_str", "new_const"):
        x = t.a[1].a[1:]
        if len(x) == 1:
            return text(x[0])
        if len(x) == 2 and x[0].op == "K" and x[1].op == "Arr":
            try:
                b = eval(x[0].a[1]) if isinstance(x[0].a[1], str) else list(x[0].a[1])
            except Exception:
                return [(t,)]
            p = template(list(b))
            if p is None or p.count(None) != len(x[1].a):
                return [(t,)]
            it = iter(x[1].a)
            return [join(y) for y in lists([[(q,)] if q is not None else text(next(it)) for q in p])]
    if n in SAME and len(t.a) == 2:
        return text(t.a[1])
    if n in ("concat", "join") and len(t.a) in (2, 3) and t.a[1].op == "Arr" and (n == "concat" or t.a[2].op == "K"):
        ks, sep = [], t.a[2].a[1] if n == "join" else ""
        for i, x in enumerate(t.a[1].a):
            ks += ([[(sep,)]] if i and sep else []) + [text(x)]
        return [join(y) for y in lists(ks)]
    if n in ("add", "push_str") and len(t.a) == 3:
        return [join(y) for y in lists([text(t.a[1]), text(t.a[2])])]
    return [(t,)]


def join(p):
    out = []
    for x in p:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return tuple(out)


def says(p):
    return "".join(x if isinstance(x, str) else "{%s}" % show(x, 6)[-90:] for x in p)


# ---------------------------------------------------------------- worlds

DROPS = ("remove", "remove_entry", "swap_remove")


class World:
    """What is there: facts told by the name of a field or of a call."""

    mixed = False       # material from several places at once: one exercise may stand for more
    card = False        # the material is a card with a front

    def __init__(self, fields=(), names=None, calls=(), want=None):
        self.fields, self.names, self.calls, self.memo = dict(fields), names, dict(calls), {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.ask(t)
        return self.memo[t]

    def ask(self, t):
        n = last(t)
        if t.op in ("Eq", "B") and t.a[-2] is t.a[-1] and (t.op == "Eq" or t.a[0] == "Eq"):
            return (True,)
        if t.op in ("F", "V") and t.a[1] in self.fields:
            return self.fields[t.a[1]]
        if n == "is_empty" and t.a[1].op == "F" and "empty:" + t.a[1].a[1] in self.fields:
            return self.fields["empty:" + t.a[1].a[1]]
        if n == "is_empty" and mentions(t.a[1], lambda x: last(x) in ("strip_suffix", "trim_end_matches", "file_name", "file_stem", "trim", "lines")):
            return (False,)
        if n in self.calls:
            v = self.calls[n]
            return v(t) if callable(v) else v
        if n in ("is_file", "exists", "is_dir", "is_symlink"):
            d = depth(t)        # the directories of lessons are listed first, then their files
            return (n == "exists" or n == "is_dir" and d < 2 or n == "is_file" and d != 1,)
        if n in READ and mentions(t, lambda x: last(x) in ("read_dir", "read_to_string", "join", "new") or x.op == "E" and walks(x)):
            return ("POS",)
        if n == "eq_ignore_ascii_case":
            return (True,)
        if t.op == "E" and walks(t):
            return ("POS",)
        if self.names:
            e = None
            if t.op in ("Eq", "B") and t.a[-3:][0] in ("Eq",) or t.op == "Eq":
                x, y = t.a[-2:]
                for a, b in ((x, y), (y, x)):
                    if a.op == "K" and a.a[0] == "str" and is_name(b):
                        return (a.a[1] in self.names,)
            if n in ("ends_with", "strip_suffix", "starts_with", "strip_prefix") and is_name(t.a[1]) and t.a[2].op == "K":
                w = t.a[2].a[1]
                hit = {(x.endswith(w) if n[-6:] == "suffix" or n[:4] == "ends" else x.startswith(w)) for x in self.here(t.a[1])}
                if len(hit) == 1:
                    h = hit.pop()
                    return (h,) if n in ("ends_with", "starts_with") else ("POS" if h else "NEG",)
        return None

    def here(self, t):
        """The names the file or directory a term is the name of may have."""
        return self.names if depth(t) > 1 else {"x.lesson"}


def walks(e):
    return e.op == "E" and last(e.a[0]) in ("read_dir", "into_iter", "lines")


def depth(t):
    """How many directories were listed to get to the entry."""
    n = 0
    got = []
    mentions(t, lambda x: got.append(x) if last(x) == "read_dir" else False)
    return len(set(got))


def is_name(t):
    while last(t) in SAME or t.op == "Phi" and len(t.a) == 1:
        t = t.a[1] if t.op == "C" else t.a[0][0]
    return last(t) == "file_name"


def run(F, p, w, args=None):
    terms.ORACLE[0] = w
    return Engine(F, watch_call=lambda q: q.split("::")[-1] in PARTIAL).run(p, args)


def undecided(w, fs):
    """The conditions of an alternative that the world does not settle."""
    out = []

    def atoms(f):
        if f.op == "is":
            return [f.a[0]]
        if f.op == "or":
            return [y for g in f.a[0] for x in g for y in atoms(x)]
        if f.op == "all":
            return atoms(f.a[1])
        return [y for x in f.a[1] for y in atoms(x)] if f.op == "ex" else []
    for f in fs:
        for t in atoms(f):
            while t.op == "Not":
                t = t.a[0]
            if t.op == "Next" or w(t) is not None:
                continue
            ok = [k for k in (True, False, "POS", "NEG") if assume(t, k) is not None]
            if len([k for k in ok if k in (True, False)]) == 1 or len([k for k in ok if k in ("POS", "NEG")]) == 1:
                continue
            out.append(t)
    return out


def units(c, key, w, r, at):
    """(lesson, [(exercise, facts)], facts) of what is made."""
    outs = [(x, fs) for x, fs in alts(r.ret) if x.op != "Neg"]
    got = []
    for x, fs in outs:
        g = x.a[0] if x.op == "Pos" else None
        for g, gs in alts(g) if g is not None else ():
            if g.op != "A":
                g = None
            if g is None:
                break
            for l, ls in elems(field(g, "lessons")):
                got.append((field(l, "0"), field(l, "1"), fs | gs | ls))
    return got


def empty(ret):
    """The course made is known to hold no lesson."""
    gs = [g for x, _ in alts(ret) if x.op == "Pos" for g, _ in alts(x.a[0])]
    return bool(gs) and all(g.op == "A" and field(g, "lessons").op == "S" for g in gs)


# ---------------------------------------------------------------- what is expected

def strings(t):
    """The distinct texts a term may be."""
    return set(text(t))


def entry_of(t):
    """The name, without the suffix, of the directory that a lesson's id is made from."""
    return last(t) in ("strip_suffix", "trim_end_matches") and is_name(t.a[1]) and t.a[2].op == "K" and depth(t) == 1


def short_of(t, suffix):
    return last(t) == "strip_suffix" and is_name(t.a[1]) and t.a[2].op == "K" and t.a[2].a[1] == suffix and depth(t) == 2


def has(t, f):
    return mentions(t, f)


def reads(t, name, short=None):
    """The value comes from the file of that name (or of that suffix) in the lesson's directory."""
    def f(x):
        if last(x) not in ("open", "read_to_string", "read"):
            return False
        for y in x.a[1:]:
            got = []
            mentions(y, lambda z: got.extend(text(z)) if z.op == "K" and z.a[0] == "str" or last(z) == "format" else False)
            if any(g and isinstance(g[-1], str) and g[-1] == name and (short is None or len(g) == 2 and short(g[0])) for g in got):
                return depth(y) >= 1
        return False
    return mentions(t, f)


class Judge:
    def __init__(self, c, key, w, r, at):
        self.c, self.key, self.w, self.at, self.units = c, key, w, at, units(c, key, w, r, at)
        self.known = not any(has(l, lambda x: x.op == "W") for l, _, _ in self.units) if self.units else empty(r.ret)
        self.n = 0
        for s in r.sites:
            if s.kind == "call" and s.name.split("::")[-1] in DROPS:
                if w.card and not all(x.op == "K" for x in s.args[1:]):
                    c.fail(key + "/dropped", s.where(), "a card with a front is dropped")
            elif s.kind == "call" and not any(x in s.name for x in ("Option::", "mem::", "path::", "cell::")):
                c.fail(key + "/part", s.where(), "%s only lets a part of the material through" % s.name)

    def ob(self, k, ok, why):
        self.n += 1
        return self.c.ob(self.key + "/" + k, ok, self.at, why)

    def ties(self):
        """Every lesson is the course's, every exercise its lesson's and the course's."""
        self.ob("something", bool(self.units), "no lesson is made at all")
        for l, es, fs in self.units:
            i = text(field(l, "id"))
            n = " or ".join(map(says, i))
            self.ob("lesson/id", len(i) == 1 and i[0][0] is CID, "a lesson gets the id %s" % n)
            self.ob("lesson/course", strings(field(l, "course_id")) == {(CID,)}, "the lesson %s is given the course %s" % (n, show(field(l, "course_id"), 5)[:100]))
            for e, ef in elems(es):
                x = text(field(e, "id"))
                m = " or ".join(map(says, x))
                self.ob("exercise/id", (len(x) == 1 or self.w.mixed) and len(i) == 1 and all(extends(y, i[0]) for y in x), "an exercise of %s gets the id %s" % (n, m))
                self.ob("exercise/lesson", strings(field(e, "lesson_id")) == set(i), "the exercise %s of %s is given the lesson %s" % (m, n, [says(y) for y in text(field(e, "lesson_id"))]))
                self.ob("exercise/course", strings(field(e, "course_id")) == {(CID,)}, "the exercise %s is given the course %s" % (m, show(field(e, "course_id"), 5)[:100]))
                u = undecided(self.w, ef)
                self.ob("exercise/always", not u, "the exercise %s is only made depending on %s" % (m, [show(y, 5)[:120] for y in u]))
            u = [y for y in undecided(self.w, fs) if last(y) not in ("any", "all")]      # which files there are only decides what is read
            self.ob("lesson/always", not u, "the lesson %s is only made depending on %s" % (n, [show(y, 5)[:120] for y in u]))

    def lessons(self):
        return {text(field(l, "id"))[0]: (l, es) for l, es, _ in self.units}

    def exactly(self, k, t, want):
        """The elements of a list are these texts, unconditionally."""
        got = {y for x, fs in elems(t) for y in text(x)}
        self.ob(k, got == set(want), "%s are %s, not %s" % (k, sorted(map(says, got)), sorted(map(says, want))))
        u = [y for x, fs in elems(t) for y in undecided(self.w, fs)]
        self.ob(k + "/always", not u, "%s depend on %s" % (k, [show(y, 5)[:120] for y in u]))


def extends(x, i):
    """The id begins with the lesson's and adds something after a separator."""
    if len(x) < len(i) or x[:len(i) - 1] != i[:-1]:
        return False
    a, b = x[len(i) - 1], i[-1]
    if isinstance(b, str):
        return isinstance(a, str) and a.startswith(b + "::") and (len(a) > len(b) + 2 or len(x) > len(i))
    return a is b and len(x) > len(i) and isinstance(x[len(i)], str) and x[len(i)].startswith("::")


def transcription(c, p, at):
    n = 0
    adt = "data::course_generator::transcription::TranscriptionConfig"
    me = mk("A", adt, "TranscriptionConfig", *[(x["name"], EMPTY_S if x["name"] == "inlined_passages" else mk("F", SELF, x["name"])) for x in c.F.adts[adt]["variants"][0]["fields"]])
    deps = mk("E", mk("F", SELF, "transcription_dependencies"))
    for singing, advanced, prefs, parts, src in itertools.product((True, False), (True, False), (True, False), (True, False), ("file", "inlined", "both")):
        w = World({"transcription": ("POS",) if prefs else ("NEG",), "generator_config": ("POS", "Transcription"), "skip_singing_lessons": (not singing,),
                   "skip_advanced_lessons": (not advanced,), "empty:passage_directory": (src == "inlined",), "empty:intervals": (not parts,), "metadata": ("POS",)},
                  calls={"contains": (False,), "insert": (True,), "is_file": (True,), "is_dir": (False,)})
        w.mixed = src == "both"
        r = run(c.F, p, w, [me, None, None, None] if src == "file" else None)
        key = "transcription/%s+%s%s%s%s" % (src, "singing" if singing else "silent", "+advanced" if advanced else "", "+instruments" if prefs else "",
                                          "+parts" if parts else "")
        j = Judge(c, key, w, r, at)
        if not j.known:
            c.assumptions.append("what %s makes could not be followed (%s)" % (p, key))
            continue
        j.ties()
        ls = j.lessons()
        ins = {x for i in ls for x in i if not isinstance(x, str) and x is not CID}
        j.ob("instruments", len(ins) == (1 if prefs else 0) and all(x.op == "F" and x.a[1] == "id" and x.a[0].op == "E" and has(x, lambda y: y.op == "F" and y.a[1] == "instruments")
                                                                  for x in ins), "lessons are made for %s" % [show(x, 5) for x in ins])
        I = next(iter(ins), None)
        s, a = (CID, "::singing"), (CID, "::advanced_singing")
        t, u = (CID, "::transcription::", I), (CID, "::advanced_transcription::", I)
        want = {s: ([(deps, "::singing")], [])}
        if advanced:
            want[a] = ([s], [s])
        if I is not None:
            want[t] = ([(deps, "::transcription::", I), s], [])
            if advanced:
                want[u] = ([t, a], [t])
        j.ob("lessons", set(ls) == set(want), "the lessons made are %s, not %s" % (sorted(map(says, ls)), sorted(map(says, want))))
        for i, (d, sup) in want.items():
            if i not in ls:
                continue
            l, es = ls[i]
            k = i[1].strip(":").split("::")[0]
            j.exactly(k + "/dependencies", field(l, "dependencies"), d)
            j.exactly(k + "/superseded", field(l, "superseded"), sup)
            j.exactly(k + "/encompassed", field(l, "encompassed"), [])
            passages(j, src, k, i, es, parts, singing or I in i, I if I in i else None)
        kept(j, r)
        n += j.n
    return n


def passages(j, want, k, lesson, es, parts, some, ins):
    """One exercise for each passage of each file and of each passage written in the configuration."""
    if not some:
        j.ob(k + "/exercises", not elems(es), "exercises are made for a lesson that is to be left out")
        return
    seen = set()
    for x, e in [(x, e) for e, _ in elems(es) for x in text(field(e, "id"))]:
        rest = [y for y in x[len(lesson):]] if not isinstance(lesson[-1], str) else [x[len(lesson) - 1][len(lesson[-1]):]] + list(x[len(lesson):])
        sid = rest[1] if len(rest) > 1 else None
        if not (sid is not None and not isinstance(sid, str) and sid.op == "F" and sid.a[1] == "short_id" and rest[0] == "::"):
            j.ob(k + "/exercises", False, "an exercise gets the id %s" % says(x))
            continue
        ps = sid.a[0]
        while ps.op == "V" or ps.op == "F" and ps.a[1] == "asset":
            ps = ps.a[0]
        src = "inlined" if ps is mk("E", mk("F", SELF, "inlined_passages")) else \
            "file" if has(ps, lambda y: y.op == "E" and last(y.a[0]) == "read_dir" and has(y, lambda z: z is mk("F", SELF, "passage_directory")) and has(y, lambda z: z is ROOT)) else None
        if want == "both":
            seen |= {src}
            continue
        iv = mk("E", mk("F", ps, "intervals"))
        ok = rest[2:] == (["::", mk("F", iv, "0")] if parts else [])
        j.ob(k + "/exercises", ok, "an exercise gets the id %s" % says(x))
        if src:
            seen.add(src)
        shown = [field(iv, "1")] if parts else []
        about = [mk("F", field(iv, "1"), "0"), mk("F", field(iv, "1"), "1")] if parts else []
        a = field(e, "exercise_asset")
        miss = [show(y, 5)[-60:] for y in about if not has(a, lambda z: z is y)]
        j.ob(k + "/asset", not miss and has(a, lambda z: z.op == "F" and z.a[1] == "track_name" and has(z, lambda y: y is ps)), "the exercise %s does not tell %s" % (says(x), miss or "the track"))
        if ins is not None:
            who = mk("F", ins.a[0], "name")
            j.ob(k + "/instrument", has(a, lambda z: z is who), "the exercise %s does not tell the instrument" % says(x))
    j.ob(k + "/material", seen == ({"file", "inlined"} if want == "both" else {want}), "exercises are only made of the passages from %s" % sorted(map(str, seen)))


def kept(j, r):
    """The course's own metadata stays in what replaces it."""
    for x, fs in alts(r.ret):
        for g, gs in alts(x.a[0]) if x.op == "Pos" else ():
            for m, ms in alts(field(g, "updated_metadata")) if g.op == "A" else ():
                if m.op == "Neg":
                    continue
                j.ob("metadata", has(m, lambda y: y.op == "F" and y.a[0] is COURSE and y.a[1] == "metadata"), "the course's own metadata is replaced, not added to: %s" % show(m, 6)[:200])


PLAIN = {"dependencies", "encompassed", "superseded"}


class Flat(Engine):
    """Lists of related units assigned in place are reported as stores, and left as they were."""

    def write_path(self, t, path, v):
        if len(path) > 1 and isinstance(path[0], tuple) and path[0][0] == "[]" and path[-1] in PLAIN:
            return t
        return Engine.write_path(self, t, path, v)

    def read_path(self, t, path):
        # what a map already holds for a key: the map itself does not matter
        if path and isinstance(path[0], tuple) and path[0][0] == "[]" and path[0][1] is not None and t.op == "S":
            return Engine.read_path(self, mk("C", "get", EMPTY_S, path[0][1]), path[1:])
        return Engine.read_path(self, t, path)


def run_flat(F, p, w):
    terms.ORACLE[0] = w
    return Flat(F, watch_call=lambda q: q.split("::")[-1] in PARTIAL or q.split("::")[-1] in DROPS, watch_store=lambda t: t.op == "F" and t.a[1] in PLAIN).run(p)


def raw(t, name):
    """An element of the list of that name as it was read."""
    return t.op == "E" and (t.a[0].op == "F" and t.a[0].a[1] == name or reads(t.a[0], "lesson.%s.json" % name))


def whom(x, name):
    return x[1] if name == "encompassed" and isinstance(x, tuple) else x


def resolved(j, k, name, t, inside, suffix, conds=(), drop=False):
    """Short ids of lessons of the course are replaced by full ids, everything else in the list is kept as it is."""
    bad, weights, n = [], [], 0
    for x, fs in elems(t):
        if name == "encompassed":
            if x.op == "A" and x.a[0] == "tuple":
                x, wt = field(x, "0"), field(x, "1")
            else:
                x, wt = field(x, "0"), field(x, "1")
            if not (wt.op == "F" and wt.a[1] == "1" and raw(wt.a[0], name) and has(x, lambda y: y is wt.a[0])):
                weights.append(show(wt, 5)[:100])
        for y in text(x):
            if inside and len(y) >= 3 and y[0] is CID and y[1] == "::" and "".join(z for z in y[3:] if isinstance(z, str)) == suffix and len(y) <= 4:
                y = y[2]
            elif not inside and len(y) == 1:
                y = y[0]
            else:
                bad.append(says(y))
                continue
            if name == "encompassed" and not isinstance(y, str) and y.op == "F" and y.a[1] == "0":
                y = y.a[0]
            n += 1
            if isinstance(y, str) or not raw(y, name):
                bad.append(show(y, 6)[:120])
        u = [y for y in undecided(j.w, fs) if not (y.op in ("Eq", "B"))]
        if u:
            bad.append("only depending on %s" % [show(y, 5)[:100] for y in u])
    j.ob(k, not bad, "%s, if they are%s lessons of the course, become %s" % (name, "" if inside else " not", bad))
    if name == "encompassed":
        j.ob(k + "/weights", not weights, "the weights become %s" % weights)
    return n


def member(inside, asked):
    def f(t):
        asked.append(t)
        return (inside,)
    return f


RELATED = (("dependencies", "lesson.dependencies.json"), ("encompassed", "lesson.encompassed.json"), ("superseded", "lesson.superseded.json"))


def literacy(c, p, at):
    n = 0
    F = c.F
    for dictate in (True, False):
        for inside in (True, False):
            for name, file in RELATED:
                asked = []
                # the lesson's own short id is always one of the course's
                w = World({"generator_config": ("POS", "Literacy"), "generate_dictation": (dictate,), "metadata": ("POS",)}, names={file},
                          calls={"contains": lambda t: (inside if has(t, lambda x: raw(x, name) or last(x) == "from_reader") and not entry_of(t.a[-1]) else True,)})
                r = run(F, p, w)
                key = "literacy/%s%s/%s" % ("dictation+" if dictate else "", "inside" if inside else "outside", name)
                j = Judge(c, key, w, r, at)
                if not j.known:
                    c.assumptions.append("what %s makes could not be followed (%s)" % (p, key))
                    continue
                j.ties()
                got = 0
                shape = {}
                for l, es, _ in j.units:
                    i = text(field(l, "id"))[0]
                    if len(i) == 4 and i[1] == "::" and not isinstance(i[2], str) and entry_of(i[2]) and i[3] in ("::reading", "::dictation"):
                        shape[i[3]] = (l, es, i)
                j.ob("lessons", set(shape) == {"::reading"} | ({"::dictation"} if dictate else set()) and len(j.units) == len(shape), "the lessons made are %s" % [
                    says(y) for l, _, _ in j.units for y in text(field(l, "id"))])
                for suf, (l, es, i) in shape.items():
                    for k, _ in RELATED:
                        t = field(l, k)
                        if suf == "::dictation" and k == "dependencies":
                            me = shape.get("::reading", (0, 0, 0))[2]
                            rest = [(x, fs) for x, fs in elems(t) if set(text(x)) != {me}]
                            own = [fs for x, fs in elems(t) if set(text(x)) == {me}]
                            j.ob("dictation/reading", any(not undecided(w, fs) for fs in own), "the dictation lesson does not always depend on the reading lesson")
                            t = S(rest)
                            if not inside:
                                j.ob("dictation/outside", not rest, "the dictation lesson depends on what is outside the course")
                                continue
                        m = resolved(j, suf[2:] + "/" + k, k, t, inside, suf)
                        if k == name:
                            j.ob(suf[2:] + "/" + k + "/kept", m > 0, "what %s says is lost" % file)
                            got += m
                    exs = [text(field(e, "id"))[0] for e, _ in elems(es)]
                    j.ob(suf[2:] + "/exercises", exs == [i[:-1] + (i[-1] + "::exercise",)], "the exercises of %s are %s" % (says(i), list(map(says, exs))))
                kept(j, r)
                n += j.n
    for file, part, suffix in (("x.example.md", "examples", ".example.md"), ("x.exception.md", "exceptions", ".exception.md"), ("simple_examples.md", "examples", None),
                               ("simple_exceptions.md", "exceptions", None), ("simple_examples_with_answers.yaml", "examples", None),
                               ("simple_exceptions_with_answers.yaml", "exceptions", None)):
        w = World({"generator_config": ("POS", "Literacy"), "generate_dictation": (True,)}, names={file}, calls={"contains": (True,)})
        r = run(F, p, w)
        j = Judge(c, "literacy/" + file, w, r, at)
        if not j.known:
            c.assumptions.append("what %s makes could not be followed (%s)" % (p, file))
            continue
        for l, es, _ in j.units:
            for e, _ in elems(es):
                a = field(e, "exercise_asset")
                for k in ("examples", "exceptions"):
                    got = elems(field(a, k)) if a.op == "A" else ()
                    ok = [x for x, fs in got if reads(field(x, "0"), suffix or file, (lambda y: short_of(y, suffix)) if suffix else None)]
                    j.ob(k, len(ok) == len(got) and bool(got) == (k == part), "%s holds %s" % (k, [show(x, 8)[:200] for x, _ in got]))
                    u = [y for x, fs in got for y in undecided(w, fs) if not has(y, lambda z: last(z) in ("trim", "lines"))]
                    j.ob(k + "/always", not u, "%s depend on %s" % (k, [show(y, 5)[:120] for y in u]))
        n += j.n
    for file, fld in (("lesson.name.json", "name"), ("lesson.description.json", "description"), ("lesson.instructions.md", "lesson_instructions")):
        w = World({"generator_config": ("POS", "Literacy"), "generate_dictation": (True,)}, names={file}, calls={"contains": (True,)})
        r = run(F, p, w)
        j = Judge(c, "literacy/" + file, w, r, at)
        if not j.known:
            c.assumptions.append("what %s makes could not be followed (%s)" % (p, file))
            continue
        for l, es, _ in j.units:
            for k in ("name", "description", "lesson_instructions"):
                j.ob(k, reads(field(l, k), file) == (k == fld), "with %s, %s is %s" % (file, k, show(field(l, k), 7)[:200]))
        n += j.n
    return n


def music(c, p, at):
    w = World()
    F = c.F
    r = run(F, p, w)
    j = Judge(c, "music", w, r, at)
    own = [(l, es, fs) for l, es, fs in j.units if l.op == "A"]
    deep = [(l, es, fs) for l, es, fs in j.units if l.op != "A"]
    # the lessons of the passages within are made by the same function: what it is told decides what they are
    rec = {x for l, _, _ in deep for x in [l.a[0].a[0] if l.op == "F" and l.a[0].op == "E" else l] if x.op == "C"}
    if not own or len(rec) > 1 or len(deep) and not rec or has(own[0][0], lambda x: x.op == "W"):
        c.assumptions.append("what %s makes could not be followed" % p)
        return 0
    j.units = own
    j.ties()
    subs = mk("E", mk("F", mk("F", SELF, "passages"), "sub_passages"))
    j.ob("inner", len(rec) == 1 and any(x is mk("F", subs, "1") for x in next(iter(rec)).a[1:]) and any(x is COURSE for x in next(iter(rec)).a[1:]),
         "the lessons of the passages within are %s" % [show(x, 5)[:200] for x in rec])
    for l, es, fs in own:
        path = [x for x in (next(iter(rec)).a[1:] if rec else ()) if x.op in ("S", "Arr")]
        d = field(l, "dependencies")
        ids = [y for x, _ in elems(d) for y in text(x)]
        i = text(field(l, "id"))[0]

        def numbers(t):
            """The numbers of a path that an id is joined from."""
            if last(t) != "join" or len(t.a) != 3 or t.a[2].op != "K" or t.a[2].a[1] != "::":
                return None
            got = [y for x, _ in elems(t.a[1]) for y in text(x)]
            return {y[0] for y in got} if all(len(y) == 1 for y in got) else None
        steps = {x if x.op != "K" else str(x.a[1]) for x, _ in elems(path[0])} if path else set()
        me = numbers(i[2]) if len(i) == 3 and not isinstance(i[2], str) else ({i[1][2:]} if len(i) == 2 and isinstance(i[1], str) else None)
        j.ob("id", i[0] is CID and me == {"0"}, "the outermost lesson gets the id %s" % says(i))
        ok = len(ids) == 1 and len(ids[0]) == 3 and ids[0][0] is CID and ids[0][1] == "::" and not isinstance(ids[0][2], str) and numbers(ids[0][2]) == {"0", mk("F", subs, "0")}
        j.ob("dependencies", ok, "a passage depends on %s, not on the passages within it" % list(map(says, ids)))
        j.ob("path", steps == {"0", mk("F", subs, "0")}, "the passages within are numbered %s" % sorted(map(str, steps)))
        exs = elems(es)
        j.ob("exercises", len(exs) == 1, "a passage gets %d exercises" % len(exs))
        for e, _ in exs:
            a = field(e, "exercise_asset")
            miss = [k for k in ("start", "end") for x, _ in alts(a) if not has(x, lambda z: z is mk("F", mk("F", SELF, "passages"), k))]
            j.ob("asset", not miss, "the exercise does not tell the %s of the passage" % miss)
            j.ob("asset/music", all(has(x, lambda z: has(z, lambda y: y is mk("F", SELF, "music_asset")) and z.op == "F") for x, _ in alts(a)), "the exercise does not tell the piece")
    return j.n


FILES = {"name": "lesson.name.json", "description": "lesson.description.json", "metadata": "lesson.metadata.json", "lesson_instructions": "lesson.instructions.md",
         "lesson_material": "lesson.material.md"}


def knowledge(c, p, at):
    n = 0
    F = c.F
    for inside in (True, False):
        for name, file in RELATED:
            asked = []
            w = World({"inlined": (False,)}, names={file}, calls={"contains": member(inside, asked)})
            r = run_flat(F, p, w)
            key = "knowledge/%s/%s" % ("inside" if inside else "outside", name)
            calls = [s for s in r.sites if s.kind == "call"]
            stores = [s for s in r.sites if s.kind == "store"]
            r.sites = calls
            j = Judge(c, key, w, r, at)
            if not j.known:
                c.assumptions.append("what %s makes could not be followed (%s)" % (p, key))
                continue
            j.ties()
            for l, es, _ in j.units:
                i = text(field(l, "id"))[0]
                j.ob("id", len(i) == 3 and i[1] == "::" and not isinstance(i[2], str) and entry_of(i[2]), "a lesson gets the id %s" % says(i))
                for k, f in RELATED:
                    t = field(l, k)
                    mine = [s for s in stores if s.args[0].a[1] == k]
                    if mine:
                        ok = all(x.op == "E" and reads(x.a[0], f) or k == "encompassed" and has(x, lambda y: reads(y, f)) for x, _ in elems(t))
                        j.ob(k + "/read", ok and bool(elems(t)) == (k == name), "with %s, %s is %s" % (file, k, show(t, 7)[:200]))
                        for s in mine:
                            m = resolved(j, k, k, s.args[1], inside, "")
                            j.ob(k + "/kept", m > 0, "all %s are dropped" % k)
                            u = [x for x in s.conds if x.op not in ("Next", "Maybe") and undecided(w, [mk("is", x, "POS")])]
                            j.ob(k + "/all", not u, "%s are only completed depending on %s" % (k, [show(x, 5)[:120] for x in u]))
                    else:
                        m = resolved(j, k, k, t, inside, "")
                        j.ob(k + "/kept", (m > 0) == (k == name), "with %s, %s is %s" % (file, k, show(t, 7)[:200]))
            n += j.n
    for fld, file in FILES.items():
        w = World({"inlined": (False,)}, names={file}, calls={"contains": (True,)})
        r = run_flat(F, p, w)
        r.sites = [s for s in r.sites if s.kind == "call"]
        j = Judge(c, "knowledge/" + file, w, r, at)
        if not j.known:
            c.assumptions.append("what %s makes could not be followed (%s)" % (p, file))
            continue
        for l, es, _ in j.units:
            for k in FILES:
                t = field(l, k)
                here = any(reads(x, file) or has(x, lambda y: y.op == "K" and y.a[1] == file) and x.op == "Pos" for x, _ in alts(t))
                j.ob(k, here == (k == fld), "with %s, %s is %s" % (file, k, show(t, 7)[:200]))
        n += j.n
    return n + cards(c, p, at) + kinds(c)


def kinds(c):
    """Which kind of file a name stands for."""
    n = 0
    enum = "data::course_generator::knowledge_base::KnowledgeBaseFile"
    for q, f in sorted(c.F.fns.items()):
        if f.argc != 1 or enum not in f.locals[0] or not f.locals[0].startswith("std::result::Result<") and not f.locals[0].startswith("std::option::Option<") \
                or "str" not in f.locals[1].lower() or "::test" in q:
            continue
        for var, suffix in list(CARD.values()) + [(v, None) for v in LESSON]:
            name = "a" + suffix if suffix else LESSON[var]
            w = Named(name)
            r = run(c.F, q, w)
            got = [(x.a[0] if x.op == "Pos" else x) for x, _ in alts(r.ret)]
            if any(has(x, lambda y: y.op == "W") for x in got):
                c.assumptions.append("what %s makes of %s could not be followed" % (q, name))
                continue
            ok = all(x.op == "A" and x.a[1] == var and (suffix is None or stem(field(x, "0"), suffix)) for x in got)
            n += 1
            c.ob("knowledge/kind/" + name, ok and bool(got), "%s:%s" % tuple(f.span[:2]), "a file named %s is taken for %s" % (name, [show(x, 4)[:100] for x in got]))
    return n


def stem(t, suffix):
    """The name without the suffix."""
    t = core(t)
    return last(t) in ("strip_suffix", "trim_end_matches") and core(t.a[1]) is SELF and t.a[2].op == "K" and t.a[2].a[1] == suffix


class Named(World):
    """A name that is known."""

    def __init__(self, name):
        World.__init__(self, names={name})

    def ask(self, t):
        n = last(t)
        if t.op in ("Eq", "B") and (t.op == "Eq" or t.a[0] == "Eq"):
            for a, b in (t.a[-2:], t.a[:-3:-1]):
                if a.op == "K" and a.a[0] == "str" and core(b) is SELF:
                    return (a.a[1] in self.names,)
        if n in ("ends_with", "strip_suffix", "starts_with", "strip_prefix") and core(t.a[1]) is SELF and t.a[2].op == "K":
            x, wd = next(iter(self.names)), t.a[2].a[1]
            h = x.endswith(wd) if n in ("ends_with", "strip_suffix") else x.startswith(wd)
            return (h,) if n in ("ends_with", "starts_with") else ("POS" if h else "NEG",)
        return World.ask(self, t)


def core(t):
    while last(t) in SAME and len(t.a) == 2:
        t = t.a[1]
    return t


LESSON = {"LessonDependencies": "lesson.dependencies.json", "LessonEncompassed": "lesson.encompassed.json", "LessonSuperseded": "lesson.superseded.json",
          "LessonName": "lesson.name.json", "LessonDescription": "lesson.description.json", "LessonMetadata": "lesson.metadata.json",
          "LessonDefaultExerciseType": "lesson.default_exercise_type.json", "LessonInstructions": "lesson.instructions.md", "LessonMaterial": "lesson.material.md"}
CARD = {"back": ("ExerciseBack", ".back.md"), "name": ("ExerciseName", ".name.json"), "description": ("ExerciseDescription", ".description.json"),
        "exercise_type": ("ExerciseType", ".type.json"), None: ("ExerciseFront", ".front.md")}


def cards(c, p, at):
    n = 0
    F = c.F
    front = lambda y: short_of(y, ".front.md")
    for inlined in (True, False):
        for other, (var, suffix) in CARD.items():
            w = World({"inlined": (inlined,)}, names={"a.front.md"}, calls={"contains": (True,)})
            ask = w.ask

            def told(t, ask=ask, var=var, other=other):
                if last(t) in ("any", "all") and has(t, lambda x: last(x) == "get" or front(x)):
                    return (last(t) == "any",)      # asked if some of what is there satisfies it, or does not
                if t.op == "E" and last(t.a[0]) == "get" and has(t, front):
                    return (var,)
                if t.op in ("Eq", "B") and t.a[-3:][0] in ("Eq",) or t.op == "Eq":
                    if any(x.op == "F" and x.a[0].op == "V" and x.a[0].a[0].op == "E" and last(x.a[0].a[0].a[0]) == "get" for x in t.a[-2:]):
                        return (True,)
                return ask(t)
            w.ask, w.card = told, other is None
            r = run_flat(F, p, w)
            r.sites = [s for s in r.sites if s.kind == "call"]
            key = "knowledge/card%s/%s" % ("+inlined" if inlined else "", other or "front")
            j = Judge(c, key, w, r, at)
            if not j.known:
                c.assumptions.append("what %s makes could not be followed (%s)" % (p, key))
                continue
            j.ties()
            for l, es, _ in j.units:
                i = text(field(l, "id"))[0]
                exs = elems(es)
                j.ob("some", bool(exs), "a card with a front makes no exercise")
                for e, fs in exs:
                    x = text(field(e, "id"))[0]
                    j.ob("id", len(x) == 5 and x[:3] == i[:3] and x[3] == "::" and not isinstance(x[4], str) and front(x[4]), "an exercise gets the id %s" % says(x))
                    a = field(e, "exercise_asset")
                    fld = ("front_content", "back_content") if inlined else ("front_path", "back_path")
                    made = [y for y, _ in alts(a)]
                    j.ob("asset", all(y.op == "A" and y.a[1] == ("InlineFlashcardAsset" if inlined else "FlashcardAsset") for y in made), "the asset is %s" % [show(y, 3)[:100] for y in made])
                    for y in made:
                        if y.op == "A":
                            j.ob("front", names(field(y, fld[0]), ".front.md", front), "the front is %s" % show(field(y, fld[0]), 8)[:200])
                            b = [z for z, _ in alts(field(y, fld[1])) if z.op != "Neg"]
                            j.ob("back", bool(b) == (other == "back") and all(names(z, ".back.md", front) for z in b), "the back is %s" % show(field(y, fld[1]), 8)[:200])
                    for k in ("name", "description", "exercise_type"):
                        b = [z for z, _ in alts(field(e, k)) if reads(z, CARD[k][1], front)]
                        j.ob(k, bool(b) == (other == k), "with a file %s, %s is %s" % (suffix, k, show(field(e, k), 7)[:200]))
            n += j.n
    return n


def names(t, suffix, short):
    """The path of, or what is read from, the file of that suffix."""
    got = []
    mentions(t, lambda z: got.extend(text(z)) if last(z) == "format" else False)
    return any(len(g) == 2 and g[1] == suffix and short(g[0]) for g in got if not isinstance(g[0], str))


def whole(c, p):
    """Loops of the generators that collect something are only left early with an error."""
    F = c.F
    n = 0
    mod = {q for q, f in F.fns.items() if "course_generator" in f.span[0] and "::test" not in q}
    for q in sorted(mod):
        f = F.fns[q]
        for body, b, where_ in early_exits(f):
            adds = [t for i, t in f.calls() if i in body and (t.get("f") or {}).get("name") in ("push", "insert", "extend", "append", "push_back")]
            if adds:
                c.fail("whole/" + q, "%s:%s" % tuple(where_[:2]), "%s stops collecting before everything was seen" % q)
        n += len(loops(f))
    return n


def check(c):
    F = c.F
    c.rule = """Each generator, evaluated once for each configuration and kind of file with everything read as a symbol: every lesson made belongs to
    the course and every exercise to the lesson it is returned with and to the course; ids are the course's id, the documented parts and the
    identifiers of the material, nothing else; exactly the documented lessons are made, with one exercise for each piece of material,
    under no further condition; relations hold the resolved ids of exactly the units named; each file's content ends up in the field it
    is named for and in no other; the course's own metadata is kept."""
    n = 0
    for p in sorted(q for t, ps in F.impl_of.items() if t.endswith("::generate_manifests") for q in ps):
        at = "%s:%s" % tuple(F.fns[p].span[:2])
        k = p.split(" as ")[0].split("::")[-1]
        if k == "TranscriptionConfig":
            n += transcription(c, p, at)
        elif k == "LiteracyConfig":
            n += literacy(c, p, at)
        elif k == "MusicPieceConfig":
            n += music(c, p, at)
        elif k == "KnowledgeBaseConfig":
            n += knowledge(c, p, at)
    terms.ORACLE[0] = None
    c.analysed["loops"] = whole(c, None)
    c.floor("facts about generated courses", n, 60)
