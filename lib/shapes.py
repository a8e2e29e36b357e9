"""All shapes a manifest can have that matter for the paths in it, and what becomes of each part of it."""
import itertools
import re

from q import *
import terms
from terms import *

PATHS = re.compile(r"(^|_)path$|^backup$|^file_name$")


def inside(ty):
    m = re.match(r"std::option::Option<(.*)>$", ty)
    return m.group(1) if m else None


class Shapes:
    def __init__(self, F):
        self.F = F
        self.memo = {}

    def adt(self, ty):
        return self.F.adts.get(ty)

    def matters(self, ty, name="", seen=()):
        """Whether there may be paths in a type."""
        if inside(ty):
            return self.matters(inside(ty), name, seen)
        if ty in ("std::string::String", "ustr::Ustr", "std::path::PathBuf"):
            return bool(PATHS.search(name))
        a = self.adt(ty)
        if not a or ty in seen:
            return False
        return any(self.matters(f["ty"], f["name"], seen + (ty,)) for v in a["variants"] for f in v["fields"])

    def parts(self, t, ty, variant=None):
        a = self.adt(ty)
        for v in a["variants"]:
            if a["kind"] != "Enum" or v["name"] == variant:
                for f in v["fields"]:
                    yield f["name"], mk("F", mk("V", t, v["name"]) if a["kind"] == "Enum" else t, f["name"]), f["ty"]

    def of(self, t, ty, name=""):
        """(label, {term: classes}, paths) of each shape of t."""
        if not self.matters(ty, name):
            return [("", {}, [])]
        if inside(ty):
            return [("none", {t: ("NEG",)}, [])] + [(l, add(d, t, "POS"), p) for l, d, p in self.of(t, inside(ty), name)]
        a = self.adt(ty)
        if not a:
            return [(name, {}, [t])]
        out = []
        for v in a["variants"] if a["kind"] == "Enum" else [None]:
            vn = v["name"] if v else None
            ps = [(n, self.of(x, y, n)) for n, x, y in self.parts(t, ty, vn)]
            ps = [(n, s) for n, s in ps if len(s) > 1 or s[0][2]]
            if len(ps) > 3:        # one at a time, the others at their first shape
                combos = [[s[0] for _, s in ps[:i]] + [x] + [s[0] for _, s in ps[i + 1:]] for i in range(len(ps)) for x in ps[i][1]]
            else:
                combos = itertools.product(*[s for _, s in ps])
            for k in combos:
                d, p = {}, []
                for l, e, q in k:
                    d.update(e)
                    p += q
                if v:
                    d = add(d, t, vn)
                lab = ",".join("%s=%s" % (n, l) for (n, _), (l, _, _) in zip(ps, k) if l)
                out.append(((vn or "") + ("(%s)" % lab if lab else ""), d, p))
        return out

    def differs(self, out, t, ty, told, path, name=""):
        """How a value differs from t with each path in it replaced as path(out, leaf) accepts; None if it does not."""
        if out.op == "Phi":
            for x, fs in out.a:
                if not any(contradicts(frozenset(), f) for f in fs):
                    r = self.differs(x, t, ty, told, path, name)
                    if r:
                        return r
            return None
        if not self.matters(ty, name):
            return None if out is t else "%s is %s" % (name or "it", show(out, 5)[:120])
        if inside(ty):
            if "NEG" in told.get(t, ()):
                return None if class_of(out) == "NEG" or out is t else "%s is %s instead of nothing" % (name, show(out, 5)[:120])
            if class_of(out) == "NEG":
                return "%s is dropped" % name
            return self.differs(payload(out), t, inside(ty), told, path, name)
        a = self.adt(ty)
        if not a:
            return None if path(out, t) else "%s becomes %s" % (name, show(out, 6)[:160])
        if a["kind"] == "Enum":
            v = [x for x in told.get(t, ()) if x not in ("POS", "NEG")]
            if out is not t and not (out.op == "A" and out.a[1] in v):
                return "%s is %s" % (name or "it", show(out, 5)[:120])
            v = v[0]
            for n, x, y in self.parts(t, ty, v):
                r = self.differs(x if out is t else field(out, n), x, y, told, path, n)
                if r:
                    return r
            return None
        for n, x, y in self.parts(t, ty):
            r = self.differs(field(out, n), x, y, told, path, n)
            if r:
                return r
        return None


def add(d, t, c):
    return dict(d, **{}) | {t: d.get(t, ()) + (c,)}
