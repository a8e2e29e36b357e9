"""Paths of assets: absolute in an opened library, verified by the builders."""
from q import *
from shapes import Shapes
from stores import mentions
from table import *

P1, P2 = mk("P", 1), mk("P", 2)
STR = {"to_str", "to_string_lossy", "into_string", "to_string", "display", "into_os_string", "as_os_str", "as_path", "as_ref", "into_owned", "to_owned"}
EXISTS = {"exists", "is_file", "try_exists"}


def last(t):
    return t.a[0].split("::")[-1] if t.op == "C" and isinstance(t.a[0], str) else None


def under(t, leaf):
    return last(t) == "join" and len(t.a) == 3 and t.a[1] is P2 and t.a[2] is leaf


def made_absolute(t, leaf):
    while last(t) in STR and len(t.a) == 2:
        t = t.a[1]
    return last(t) == "canonicalize" and under(t.a[1], leaf)


def world(told, leaves, relative, there):
    def f(t):
        r = told.get(t)
        if r:
            return r
        n = last(t)
        if n in ("is_absolute", "is_relative", "has_root") and len(t.a) == 2 and t.a[1] in leaves:
            return ((n != "is_relative") != relative,)
        if n in STR and len(t.a) == 2:
            return ("POS",)
        if n in EXISTS:
            j = t.a[1]
            if last(j) == "join" and len(j.a) == 3 and j.a[1] is P2 and all(x in leaves for x, _ in alts(j.a[2])):
                v = {there(x) for x, _ in alts(j.a[2])}
                return ("POS",) + tuple(v) if len(v) == 1 else None
        if n in ("canonicalize", "metadata", "symlink_metadata"):
            for x in leaves:
                if under(t.a[1], x):
                    return ("POS",) if there(x) else ("NEG",)
        return None
    return f


def run_in(c, p, w):
    terms.ORACLE[0] = w
    return Engine(c.F, watch_call=lambda q: q.split("::")[-1] in EXISTS).run(p)


def open_at(s, told):
    """The undecided conditions a call depends on, but for those about files being there."""
    return [t for t in s.conds if t.op != "Next" and not all(x in told for x, _ in alts(t)) and not mentions(t, lambda x: last(x) in EXISTS) and
            all(assume(t, k) is not None for k in ((True, False) if assume(t, True) is not None and assume(t, False) is not None else ("POS", "NEG")))]


def asked(t, told):
    """The undecided questions an answer depends on, but for those about files being there."""
    out = [t] if t.op in ("C", "B", "Is") and terms.ORACLE[0](t) is None else []
    mentions(t, lambda x: out.append(x.a[0]) if x.op == "is" else out.extend(open_terms(x)))
    return [x for x in out if x.op != "Next" and x not in told and terms.ORACLE[0](x) is None and
            not mentions(x, lambda y: y.op in ("Next", "E") or last(y) in EXISTS and mentions(y, lambda z: z is P2) or last(y) in ("is_empty", "len"))]


def open_terms(t):
    """The alternatives of a term that are questions themselves."""
    return [x for x in t.a if isinstance(x, T) and x.op in ("C", "B", "Is", "Not")] if t.op in ("Pos", "Not") else [x for x, _ in t.a if x.op in ("C", "B", "Is", "Not")] if t.op == "Phi" else []


def check(c):
    F = c.F
    sh = Shapes(F)
    c.rule = """For every shape of every manifest and asset: normalising it replaces each relative path in it by the canonical form of that same
    path joined to the given directory, keeps absolute paths, and changes nothing else; if a file is missing it fails. Verifying it is true
    exactly if every path in it exists under the given directory. A builder does not succeed if what it wrote does not verify, and an
    asset that exists is not written over."""
    n = 0
    for m, todo in (("normalize_paths", normalised), ("verify_paths", verified)):
        impls = [p for t, ps in F.impl_of.items() if t.endswith("::" + m) for p in ps]
        c.ob("implementations/" + m, len(impls) >= 3, "src/data.rs", "only %d types implement %s" % (len(impls), m))
        have = set()
        for p in sorted(impls):
            f = F.fns[p]
            ty = f.locals[1].lstrip("&") if isinstance(f.locals[1], str) else f.locals[1]["ty"].lstrip("&")
            ty = ty.split(" ")[-1]
            have.add(ty.split("::")[-1])
            n += todo(c, sh, p, ty)
        for k in ("CourseManifest", "LessonManifest", "ExerciseManifest"):
            c.ob("implementations/%s/%s" % (m, k), k in have, "src/data.rs", "%s has no %s" % (k, m))
    n += builders(c)
    terms.ORACLE[0] = None
    c.floor("shapes", n, 60)


def normalised(c, sh, p, ty):
    n = 0
    at = "%s:%s" % tuple(c.F.fns[p].span[:2])
    k = ty.split("::")[-1]
    for lab, told, leaves in sh.of(P1, ty):
        for rel in (True, False) if leaves else (True,):
            n += 1
            r = run_in(c, p, world(told, leaves, rel, lambda x: True))
            outs = [x for x, _ in alts(r.ret)]
            key = "normalised/%s/%s/%s" % (k, lab, "relative" if rel else "absolute")
            ok = outs and all(x.op == "Pos" for x in outs)
            if not c.ob(key + "/succeeds", ok, at, "normalising %s(%s) fails or gives %s" % (k, lab, [show(x, 4)[:80] for x in outs if x.op != "Pos"])):
                continue
            path = made_absolute if rel else (lambda o, l: o is l)
            d = [sh.differs(x.a[0], P1, ty, told, path) for x in outs]
            c.ob(key, not any(d), at, "normalising %s(%s) with %s paths: %s" % (k, lab, "relative" if rel else "absolute", [x for x in d if x]))
        for gone in leaves:
            n += 1
            r = run_in(c, p, world(told, leaves, True, lambda x: x is not gone))
            bad = [x for x, _ in alts(r.ret) if x.op != "Neg"]
            c.ob("normalised/%s/%s/missing/%s" % (k, lab, show(gone, 4)), not bad, at, "a missing file is not reported: %s" % [show(x, 5)[:120] for x in bad])
    return n


def verified(c, sh, p, ty):
    n = 0
    at = "%s:%s" % tuple(c.F.fns[p].span[:2])
    k = ty.split("::")[-1]
    for lab, told, leaves in sh.of(P1, ty):
        for gone in [None] + leaves:
            n += 1
            r = run_in(c, p, world(told, leaves, True, lambda x: x is not gone))
            got = set()
            for x, fs in alts(r.ret):
                got |= {b for b in (True, False) if assume(payload(x), b) is not None} if x.op == "Pos" else {"an error"}
            # both answers only if the files are looked for in a loop that nothing else cuts short
            loose = got == {True, False} and gone and not any(open_at(s, told) for s in r.sites) and not asked(r.ret, told)
            c.ob("verified/%s/%s/%s" % (k, lab, show(gone, 4) if gone else "all"), got == {gone is None} or loose, at,
                 "%s(%s) with %s verifies as %s" % (k, lab, "%s missing" % show(gone, 4) if gone else "every file there", sorted(map(str, got))))
    return n


def builders(c):
    F = c.F
    n = 0
    found = {p.split("::")[-2] for p in F.fns if p.endswith("Builder::build") and F.fns[p].span[0].split("/")[-1] == "course_builder.rs"}
    for k in ("AssetBuilder", "ExerciseBuilder", "LessonBuilder", "CourseBuilder"):
        c.ob("builder/" + k, k in found, "src/course_builder.rs", "%s::build not found" % k)
    for p in sorted(F.fns):
        if not p.endswith("Builder::build") or F.fns[p].span[0].split("/")[-1] != "course_builder.rs":
            continue
        f = F.fns[p]
        at = "%s:%s" % tuple(f.span[:2])
        opaque = lambda q: q.endswith("::verify_paths") or q.endswith("::build") and q != p
        watch = lambda q: q.endswith("::verify_paths") or q.split("::")[-1] in ("create", "to_string_pretty", "to_string", "write", "open")
        terms.ORACLE[0] = None
        r = Engine(F, opaque=opaque, watch_call=watch).run(p)
        checks = [s for s in r.sites if s.name.endswith("::verify_paths")]
        creates = [s for s in r.sites if s.name.split("::")[-1] in ("create", "write", "open") and "fs" in s.name]
        c.ob("builder/%s/writes" % p, creates, at, "writes nothing")
        if "Asset" in p:
            terms.ORACLE[0] = lambda t: ("POS", True) if last(t) in EXISTS else None
            r2 = Engine(F, opaque=opaque, watch_call=watch).run(p)
            bad = [s for s in r2.sites if s.name.split("::")[-1] in ("create", "write", "open") and "create_new" not in show(s.args[0], 6)]
            n += 1
            c.ob("builder/%s/overwrites" % p, not bad and all(x.op == "Neg" for x, _ in alts(r2.ret)), bad[0].where() if bad else at,
                 "a file that exists is written over, or its being there is not reported")
            continue
        for s in checks:
            n += 1
            wrote = [x for x in creates if any(last(a) == "join" and a.a[1] is s.args[1] for a in x.args)]
            c.ob("builder/%s/directory" % p, wrote, s.where(), "verified relative to %s, where nothing is written" % show(s.args[1], 5)[:100])
            same = [x for x in r.sites if x.name.split("::")[-1].startswith("to_string") and x.args and x.args[0] is s.args[0]]
            c.ob("builder/%s/manifest" % p, same, s.where(), "the manifest verified is not the one written")
        for v in (("POS", False), ("NEG",)):
            terms.ORACLE[0] = lambda t: v if last(t) == "verify_paths" else None
            r2 = Engine(F, opaque=opaque, watch_call=watch).run(p)
            n += 1
            bad = [x for x, _ in alts(r2.ret) if x.op != "Neg"]
            c.ob("builder/%s/verified/%s" % (p, v[-1]), checks and not bad, at, "succeeds although files named in the manifest are missing")
    terms.ORACLE[0] = None
    return n
