"""Loads the program facts (MIR, types, impls) dumped by the rustc driver and indexes them."""
import json
import re


class Fn:
    __slots__ = ("d", "path", "kind", "name", "argc", "locals", "blocks", "names", "span", "impl_trait",
                 "impl_self", "trait_item", "pub", "derived", "parent_fn", "module", "promoted")

    def __init__(self, d):
        self.d = d
        for k in ("path", "kind", "name", "argc", "locals", "blocks", "names", "span", "impl_trait",
                  "impl_self", "trait_item", "pub", "derived", "parent_fn", "module", "promoted"):
            setattr(self, k, d[k])

    def __repr__(self):
        return "<Fn %s>" % self.path

    @property
    def file(self):
        return self.span[0]

    def calls(self):
        """(block index, terminator) for each call."""
        for i, b in enumerate(self.blocks):
            if b and b["t"]["k"] == "call":
                yield i, b["t"]

    def stmts(self):
        for i, b in enumerate(self.blocks):
            if b:
                for s in b["s"]:
                    yield i, s

    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        if k == "switch":
            out = [x[1] for x in t["ts"]] + [t["o"]]
            return list(dict.fromkeys(out))
        return []

    def local_name(self, l):
        for n, p, _ in self.names:
            if p == [l]:
                return n
        return None


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.raw = d
        self.fns = {}
        self.proms = {}
        for x in d["fns"]:
            f = Fn(x)
            if f.promoted is None:
                self.fns[f.path] = f
            else:
                self.proms[(f.path, f.promoted)] = f
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.traits = {t["path"]: t for t in d["traits"]}
        self.unsafes = d["unsafes"]
        self.consts = {c["path"]: c for c in d["consts"]}
        self.files = d["files"]
        # trait method path -> list of implementing functions
        self.impl_of = {}
        for im in self.impls:
            for m in im["methods"]:
                if m["is_fn"] and m["trait_item"]:
                    self.impl_of.setdefault(m["trait_item"], []).append(m["path"])
        self.closures_of = {}
        for f in self.fns.values():
            if f.parent_fn:
                self.closures_of.setdefault(f.parent_fn, []).append(f.path)

    def in_scope(self, f):
        """Product code: not test helpers or benchmarks."""
        return not (f.file.endswith("test_utils.rs") or f.file.endswith("benchmark.rs") or "/bin/" in f.file)

    def resolve(self, fref):
        """Local functions a call may reach directly (CHA for virtual and unresolved trait calls)."""
        if fref is None:
            return []
        if fref.get("rk") == "item" and fref.get("rlocal"):
            p = fref["res"]
            return [p] if p in self.fns else []
        p = fref["path"]
        if fref.get("trait") and (fref.get("rk") in ("virtual", "none") or fref.get("rk") is None):
            out = [q for q in self.impl_of.get(p, []) if q in self.fns]
            # default body
            if p in self.fns:
                out.append(p)
            return out
        if fref.get("local") and p in self.fns:
            return [p]
        return []

    def callees(self, f, cha=True):
        """All local functions f may call, including closures it creates and functions it passes as values."""
        out = set()
        for _, t in f.calls():
            fr = t.get("f")
            if fr:
                out.update(self.resolve(fr))
                for c in fr.get("cb", []):
                    if c in self.fns:
                        out.add(c)
            for a in t["a"]:
                if a[0] == "K" and "fn" in a[1]:
                    out.update(self.resolve(a[1]["fn"]))
        for _, s in f.stmts():
            if s[0] == "=":
                r = s[2]
                if r[0] == "agg" and r[1][0] == "closure" and r[1][1] in self.fns:
                    out.add(r[1][1])
                for o in operands(r):
                    if o[0] == "K" and "fn" in o[1]:
                        out.update(self.resolve(o[1]["fn"]))
        return out

    def reachable(self, roots, cut=lambda p: False):
        seen = set()
        st = list(roots)
        while st:
            p = st.pop()
            if p in seen or p not in self.fns:
                continue
            seen.add(p)
            if cut(p):
                continue
            st.extend(self.callees(self.fns[p]))
        return seen


def operands(r):
    k = r[0]
    if k in ("use", "repeat", "cast"):
        return [r[1]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[2]
    return []


_gen = re.compile(r"::<[^<>]*(?:<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>[^<>]*)*>")


def short(path):
    """Strip generic arguments from a def path: std::vec::Vec::<T, A>::push -> std::vec::Vec::push."""
    p = path
    while True:
        q = _gen.sub("", p)
        if q == p:
            return p
        p = q


def where(sp):
    return "%s:%s" % (sp[0], sp[1])
