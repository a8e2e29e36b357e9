"""No operation panics."""
from q import *
from ranges import *
from stores import mentions
import terms

PANICS = {"panic", "panic_fmt", "panic_display", "unreachable_display", "unreachable_default_msg", "assert_failed", "assert_matches_failed",
          "panic_str", "unwrap_failed", "expect_failed", "begin_panic", "panic_explicit", "panic_str_literal", "panic_str_2015",
          "panic_cold_explicit", "panic_cold_display", "assert_failed_inner", "begin_panic_fmt", "panic_any", "resume_unwind", "panic_2015"}
UNWRAPS = {"unwrap", "expect"}
NONZERO = {"chunks", "windows", "chunks_exact", "step_by", "rchunks", "chunks_mut"}
PLACES = {"index", "index_mut"}
VEC = {"remove", "swap_remove", "insert", "split_at", "drain", "split_off", "swap", "rotate_left", "rotate_right", "copy_from_slice",
       "split_at_mut", "clone_from_slice", "replace_range", "insert_str", "truncate_front"}
SIZES = {"with_capacity", "reserve", "reserve_exact", "resize", "repeat", "with_capacity_and_hasher"}
ORDER = {"sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "max_by", "min_by", "binary_search_by"}
TIME = {"days", "hours", "minutes", "seconds", "weeks", "milliseconds", "from_secs_f32", "from_secs_f64"}
WATCH = PANICS | UNWRAPS | {"unwrap_err", "expect_err"} | NONZERO | PLACES | VEC | SIZES | ORDER | {"random_range", "clamp", "sample_weighted"}
OUTSIDE = ("SchedulerOptions", "SchedulerPreferences", "MasteryWindow", "PassingScoreOptions", "UserPreferences", "ExerciseTrial", "ExerciseDelta",
           "UnitReward", "UnitFilter", "SessionPart", "StudySession", "StudySessionData")


def name_of(fr):
    return (fr or {}).get("path", "").split("::")[-1]


def vec(fr):
    """The function is of a vector, a slice or a string, not of a map or a set."""
    p = (fr or {}).get("path", "")
    return not any(x in p for x in ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "::Option", "hash_map", "hash_set", "indexmap")) and (
        p.startswith("std::") or p.startswith("core::") or p.startswith("alloc::"))


def text(fr):
    return name_of(fr) in PLACES and (fr.get("selfty") or "").lstrip("&").replace("mut ", "") in ("str", "std::string::String", "ustr::Ustr")


def hazard(fr):
    n, p = name_of(fr), (fr or {}).get("path", "")
    if n in VEC:
        return vec(fr) and ("Vec" in p or "slice" in p or "str" in p.lower())
    if n in ("unwrap", "expect", "unwrap_err", "expect_err"):
        return "Option" in p or "Result" in p
    if n in PANICS or p.startswith("core::panicking::"):
        return p.startswith(("core::panicking", "std::")) and "unwind" not in n and "cleanup" not in n
    if n in TIME:
        return "chrono" in p or "TimeDelta" in p or "Duration" in p
    return n in WATCH


def check(c):
    F = c.F
    c.rule = """Every construct of the crate that may panic (unwrap and expect, indexing, division, arithmetic on integers that could overflow,
    calls into the standard library that panic on some arguments, explicit panics, allocations of a size given from outside) is
    shown not to: what is known where it stands, of its own function's arguments or else of what all its callers pass, implies that the
    value is there, the index below the length, the divisor not zero, the result within its type. The contents of options, stored
    records and manifests are arbitrary."""
    n = 0
    want = {}
    for f in F.fns.values():
        if not F.in_scope(f) or f.d.get("derived"):
            continue
        for b in f.blocks:
            t = b and b["t"]
            if not t:
                continue
            sp = (t.get("fsp") if t["k"] == "call" else None) or t.get("sp") or f.span
            if t["k"] == "assert" and "Pointer" not in t["m"]:
                want[f.path, tuple(sp), t["m"].split(" ")[0]] = 1
            elif t["k"] == "call" and hazard(t.get("f")):
                want[f.path, tuple(sp), name_of(t["f"]) + (" of text" if text(t["f"]) else "")] = 1
    J = Judge(c, F)
    for p, sp, what in sorted(want):
        n += 1
        why = J.safe(p, sp, what)
        c.ob("%s/%s" % (p, what), why is None, "%s:%s in %s" % (sp[0], sp[1], p), "may panic: %s" % why)
    c.floor("constructs that may panic", n, 60)
    c.assumptions += ["a file found by walking a directory has a parent and a name", "no collection has more than 2^48 elements",
                      "counters that start at 0 and grow by a constant do not overflow"]


class Judge:
    def __init__(self, c, F):
        self.c, self.F = c, F
        self.runs = {}
        self.callers = {}
        for f in F.fns.values():
            if F.in_scope(f):
                for n, _ in site_calls(F, f):
                    self.callers.setdefault(n, set()).add(f.path)
        out, inn = set(), set()
        for n, a in F.adts.items():
            for v in a["variants"]:
                for x in v["fields"]:
                    (out if n.split("::")[-1] in OUTSIDE else inn).add(x["name"])
        self.outside = {x for x in out - inn if not x.isdigit()}
        self.types = {}
        for n, a in F.adts.items():
            for v in a["variants"]:
                for x in v["fields"]:
                    self.types.setdefault(x["name"], set()).add(x["ty"])

    def root(self, p):
        f = self.F.fns[p]
        while f.parent_fn and f.parent_fn in self.F.fns:
            f = self.F.fns[f.parent_fn]
        return f.path

    def run(self, p, inline):
        """inline: 'own' judges the function alone; else the set of functions called to look into."""
        k = (p, inline)
        if k not in self.runs:
            F = self.F
            opq = lambda q: q in F.fns and not F.fns[q].parent_fn and (inline == "own" or q not in inline)
            E = Engine(F, opaque=lambda q: q != p and opq(q), watch_call=lambda q: q.split("::")[-1] in WATCH | TIME or "panicking::" in q, asserts=True,
                       sym=self.sym, max_evals=20000)
            try:
                terms.EITHER[0] = True
                r = E.run(p)
                by = {}
                for s in r.sites:
                    if s.kind in ("call", "assert", "arith"):
                        by.setdefault((s.fn, tuple(s.span)), []).append(s)
                self.runs[k] = by
            finally:
                terms.EITHER[0] = False
        return self.runs[k]

    def sym(self, n, a):
        if n.split("::")[-1] == "windows":
            return mk("C", "windows", *a)
        return None

    def safe(self, p, sp, what):
        """None, or why the construct may panic."""
        r = self.root(p)
        why = self.among(self.run(r, "own"), r, p, (sp, what))
        if why is None:
            return None
        near = self.near(r)
        if near and self.among(self.run(r, near), r, p, (sp, what)) is None:
            return None
        # what all callers pass
        chain, seen = {r}, {r}
        f = self.F.fns[r]
        if not self.api(f):
            for _ in range(3):
                ups = {self.root(x) for y in chain for x in self.callers.get(y, ())} - seen
                if not ups:
                    break
                seen |= ups
                if all(any(self.among(self.run(u, frozenset(seen) | more), u, p, (sp, what), True) is None for more in (frozenset(), self.near(u)))
                       for u in ups):
                    return None
                if any(self.api(self.F.fns[u]) for u in ups):
                    break
                chain = ups
        return why

    def near(self, p):
        return frozenset(n for n, _ in site_calls(self.F, self.F.fns[p]) if n in self.F.fns) - {p}

    def api(self, f):
        return f.d.get("pub") or f.d.get("impl_trait") or not self.callers.get(f.path)

    def among(self, sites, root, p, sp, absent=False):
        sp, what = sp
        ss = [s for s in sites.get((p, tuple(sp)), ()) if (s.name.split("::")[-1] == what.split(" ")[0] if s.kind == "call" else True)
              and (s.kind == "call") == what[0].islower()]
        if not ss:
            return "not analysed" if not absent else "not reached"
        for s in ss:
            why = self.judge(s, self.F.fns[root], what)
            if why:
                return why
        return None

    # ------------------------------------------------------------ one construct
    def ranges(self, root):
        def typed(ty):
            ty = ty.lstrip("&").replace("mut ", "").strip()
            if ty in INT:
                return INT[ty] + (False,)
            return None

        def leaf(t):
            if t.op == "P" and isinstance(t.a[0], int) and t.a[0] < len(root.locals):
                ty = root.locals[t.a[0]]
                return typed(ty if isinstance(ty, str) else ty.get("ty", ""))
            if t.op == "F" and isinstance(t.a[1], str) and not t.a[1].isdigit():
                tys = {typed(x) for x in self.types.get(t.a[1], ())} - {None}
                if len(tys) == 1:
                    return tys.pop()
            if t.op == "K" and t.a[0] == "bool":
                return None
            return None
        return Ranges(leaf, integer=lambda t: leaf(t) is not None)

    def judge(self, s, root, what):
        R = self.ranges(root)
        n = s.name.split("::")[-1]
        fs = s.facts
        if s.kind == "assert":
            return self.asserted(s, R)
        if s.kind == "arith":
            return self.fits(s, R, root)
        if n in UNWRAPS:
            bad = [x for x, g in alts(s.args[0]) if not self.there(x, fs | g, R)]
            return "%s may be missing" % show(bad[0], 5)[:200] if bad else None
        if n in PLACES:
            coll, i = s.args[0], s.args[1]
            if i.op == "A" and "Range" in i.a[0]:
                ln = mk("C", "len", coll)
                lo, hi = field(i, "start"), field(i, "end")
                full = i.a[0].endswith("Full")
                some = "To" not in i.a[0]
                ok = full or (i.a[0].endswith("RangeFrom") and at_most(lo, ln, fs, R)) or \
                    (i.a[0].endswith("RangeTo") and at_most(hi, ln, fs, R)) or \
                    (i.a[0].endswith("::Range") and at_most(lo, hi, fs, R) and at_most(hi, ln, fs, R))
                if "text" in what:
                    ok = full or all(x is None or num(x) == 0 or any(last(z) in ("find", "rfind", "len") for z in subterms(x)) for x in
                                     (None if "To" in i.a[0] else lo, None if "From" in i.a[0] else hi))
                return None if ok else "%s has perhaps no %s" % (show(coll, 4)[:100], show(i, 4)[:100])
            if below(i, mk("C", "len", coll), fs, R):
                return None
            if any(f.op == "is" and f.a[0].op == "C" and last(f.a[0]) in ("contains_key", "get") and f.a[0].a[1] is coll and f.a[0].a[-1] is i and
                   f.a[1] in (True, "POS") for f in fs):
                return None
            return "%s has perhaps no %s" % (show(coll, 4)[:100], show(i, 4)[:100])
        if n in NONZERO:
            lo = R.of(s.args[1], fs)[0]
            return None if lo >= 1 else "the size may be 0"
        if n in VEC:
            ln = mk("C", "len", s.args[0])
            ok = below if n in ("remove", "swap_remove") else at_most
            return None if len(s.args) > 1 and ok(s.args[1], ln, fs, R) else "%s at %s, which may not exist" % (n, show(s.args[1], 4)[:100] if len(s.args) > 1 else "?")
        if n in SIZES:
            i = 1 if n in ("reserve", "reserve_exact", "resize", "repeat") else 0
            hi = R.of(s.args[i], fs)[1] if i < len(s.args) else 0
            return None if hi <= LEN * 1024 or not self.fromoutside(s.args[i], root) else "room for %s elements" % show(s.args[i], 4)[:100]
        if n == "random_range":
            x = s.args[-1]
            a, b = R.of(field(x, "start"), fs), R.of(field(x, "end"), fs)
            return None if a[1] < b[0] and not a[2] and not b[2] else "an empty range"
        if n == "clamp" and len(s.args) == 3:
            a, b = R.of(s.args[1], fs), R.of(s.args[2], fs)
            return None if a[1] <= b[0] and not a[2] and not b[2] else "the bounds may be the wrong way round"
        if n == "clamp":
            return None
        if n in ORDER:
            return self.ordered(s, R)
        if n == "sample_weighted":
            return self.weighed(s, R)
        if n in TIME:
            v = R.of(s.args[0], fs)
            return None if abs(v[0]) < 1e9 and abs(v[1]) < 1e9 else "a span of %s" % show(s.args[0], 4)[:80]
        if any(contradicts(fs, f) for f in fs):
            return None
        return "reached"

    def there(self, x, fs, R):
        """The value is there."""
        if x.op == "Pos":
            return True
        if fact(x, "POS") in fs or any(contradicts(fs, f) for f in fs):
            return True
        if assume(x, "NEG", fs) is None:
            return True
        n = last(x)
        if x.op == "Maybe" and (x.a[0].op == "E") and R.least(x.a[0].a[0], fs) >= 1 or x.op == "Maybe" and x.a[0].op == "E" and \
                self.many(x.a[0].a[0], fs, R) >= 1:
            return True
        if n in ("first", "last", "pop", "next", "max", "min", "pop_front", "pop_back") and len(x.a) == 2 and self.many(x.a[1], fs, R) >= 1:
            return True
        if n == "get" and below(x.a[-1], mk("C", "len", x.a[1]), fs, R):
            return True
        if n == "get" and any(f.op == "is" and f.a[1] is True and last(f.a[0]) == "contains_key" and f.a[0].a[1] is x.a[1] and f.a[0].a[-1] is x.a[-1] for f in fs):
            return True
        if n in ("strip_suffix", "strip_prefix"):
            g = {"strip_suffix": "ends_with", "strip_prefix": "starts_with"}[n]
            return fact(mk("C", self.like(x, g, fs), *x.a[1:]), True) in fs or any(
                f.op == "is" and f.a[1] is True and last(f.a[0]) == g and f.a[0].a[1:] == x.a[1:] for f in fs)
        if n in ("parent", "file_name"):
            y = x.a[1]
            if mentions(y, lambda z: last(z) in ("path", "into_path") and z.a[-1].op == "E" or last(z) == "canonicalize"):
                return True
            # a name joined to a directory that is there
            if last(y) == "join" and any(f.op == "is" and f.a[1] == "POS" and last(f.a[0]) in ("create_dir_all", "create_dir", "read_dir", "canonicalize") and
                                         f.a[0].a[1] is y.a[1] for f in fs):
                return True
        if n == "to_str":
            y = x.a[1]
            while last(y) == "join" and y.a[-1].op == "K":
                y = y.a[1]
            if last(y) == "new" and y.a[-1].op == "K" or y.op == "K":
                return True
            return any(f.op == "is" and f.a[1] == "POS" and last(f.a[0]) == "to_str" and f.a[0].a[1] is y for f in fs)
        if x.op == "C" and x.a[0] in self.F.fns:
            return self.always(x.a[0])
        if n == "sample_weighted" or x.op == "C" and n == "choose_weighted":
            return True     # judged where it is called
        return False

    def like(self, x, g, fs):
        return g

    def many(self, coll, fs, R):
        """The least number of elements of a collection that may have been filtered or mapped."""
        k = R.least(coll, fs)
        c = R.of(mk("C", "len", coll), fs)
        return max(k, c[0])

    def always(self, p):
        """The function never fails."""
        k = ("always", p)
        if k not in self.runs:
            self.runs[k] = True
            r = self.runs.get(k + (0,)) or Engine(self.F).run(p)
            self.runs[k] = all(x.op == "Pos" for x, _ in alts(r.ret))
        return self.runs[k]

    def asserted(self, s, R):
        cond, want = s.args
        if cond is want:
            return None
        fs = s.facts
        if s.name.startswith("Bounds") and cond.op == "B" and cond.a[0] == "Lt":
            return None if below(cond.a[1], cond.a[2], fs, R) else "%s may not be below %s" % (show(cond.a[1], 4)[:100], show(cond.a[2], 4)[:100])
        if cond.op == "Eq" or cond.op == "B" and cond.a[0] == "Eq":
            x, y = cond.a[-2:]
            v = R.of(x if num(y) == 0 else y, fs)
            return None if v[0] > 0 or v[1] < 0 else "the divisor may be 0"
        if assume(cond, not want.a[1], fs) is None:
            return None
        return "%s" % show(cond, 5)[:150]

    def fromoutside(self, t, root):
        """The number comes from options, stored records or the arguments of a public operation."""
        if t.op == "Phi":
            return any(self.fromoutside(x, root) for x, _ in t.a)
        if t.op == "P" and self.api(root):
            ty = root.locals[t.a[0]] if isinstance(t.a[0], int) and t.a[0] < len(root.locals) else ""
            return (ty if isinstance(ty, str) else "").lstrip("&") in INT
        if t.op == "F":
            return t.a[1] in self.outside
        if t.op in ("B", "C"):
            return any(self.fromoutside(x, root) for x in t.a if isinstance(x, terms.T))
        return False

    def fits(self, s, R, root):
        a, b, ty = s.args
        ty = ty.a[1]
        fs = s.facts
        if s.name == "Sub" and ty.startswith("u"):
            if at_most(b, a, fs, R):
                return None
            if num(b) is not None and (R.of(a, fs)[0] >= num(b) or below(mk("K", "int", int(num(b)) - 1), a, fs, R)):
                return None
            if any(f.op == "is" and f.a[0].op == "Eq" and f.a[1] is False and num(b) == 1 and a in f.a[0].a and 0.0 in map(num, f.a[0].a) for f in fs):
                return None
            return "%s - %s may be below 0" % (show(a, 4)[:100], show(b, 4)[:100])
        lo, hi, _ = R.arith(s.name, a, b, fs)
        if ty in INT and INT[ty][0] <= lo and hi < INT[ty][1] + (ty in ("i32", "u32", "u8", "u16")):
            return None
        # counters
        k = num(a) if num(a) is not None else num(b)
        if s.name == "Add" and ty in ("usize", "u64", "i64", "u32", "i32") and not self.fromoutside(a, root) and not self.fromoutside(b, root):
            if k is not None and 0 <= k <= 2 ** 16 or ty == "usize":
                return None
        return "%s %s %s may not fit %s" % (show(a, 4)[:100], s.name, show(b, 4)[:100], ty)

    def ordered(self, s, R):
        """What sorts by comparing floats never meets something that is no number."""
        clo = s.args[-1]
        if clo.op != "Clo" or clo.a[0] not in self.F.fns:
            return None
        f = self.F.fns[clo.a[0]]
        names = {name_of(t.get("f")) for _, t in f.calls()}
        if "partial_cmp" not in names:
            return None
        keys = [(x, g) for x, g in elems(s.args[0])]
        if not keys:
            return None
        r = Engine(self.F).run(clo.a[0]).ret
        for e, g in keys:
            for q in subterms(r):
                if last(q) == "partial_cmp":
                    for y in q.a[1:]:
                        v = R.of(put(y, (mk("P", 2), mk("P", 3)), e), s.facts | g)
                        if v[2]:
                            return "sorts by %s, which may not be a number" % show(y, 4)[:100]
        return None

    def weighed(self, s, R):
        """As many are drawn as there are at most, and each weight is a number above 0."""
        coll, k = s.args[0], s.args[2]
        if not at_most(k, mk("C", "len", coll), s.facts, R):
            return "more may be drawn than there are"
        w = s.args[-1]
        p = w.a[0] if w.op in ("Clo",) else next((x for x in self.F.fns if w.op in ("Fn", "K") and isinstance(w.a[-1], str) and x == w.a[-1].split("|")[0]), None)
        if p is None:
            for x in w.a:
                if isinstance(x, str) and x.split("|")[0] in self.F.fns:
                    p = x.split("|")[0]
        if p is None:
            return "the weights are not known: %s %s" % (w.op, show(w, 3)[:100])
        r = Engine(self.F).run(p).ret
        for x, g in alts(r):
            v = self.ranges(self.F.fns[p]).of(x, g)
            if v[2] or v[0] <= 0:
                return "a weight is between %s and %s%s" % (v[0], v[1], ", or no number" if v[2] else "")
        return None


def subterms(t):
    yield t
    for k in t.a:
        if isinstance(k, terms.T):
            yield from subterms(k)


def put(t, ps, e):
    """t with the element e in place of the parameters."""
    if t in ps:
        return e
    if t.op == "F":
        return field(put(t.a[0], ps, e), t.a[1])
    if t.op == "C":
        return mk("C", t.a[0], *[put(x, ps, e) for x in t.a[1:]])
    return t
