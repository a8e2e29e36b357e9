"""What the operations of the unit graph write into and read from its maps."""
from q import *
from stores import mentions, pos_rets

GROW = {"insert", "extend", "push", "push_back", "append", "or_insert", "or_insert_with", "insert_entry", "replace"}
SHRINK = {"remove", "clear", "retain", "drain", "pop", "truncate", "remove_entry", "take", "split_off", "swap_remove",
          "extract_if", "difference"}
ME = mk("P", 1)
UNIT_ID = mk("P", 2)


class Edge:
    """One entry written: map field path, key, value (an element when a whole collection is added)."""

    def __init__(self, m, key, val, site, every=None):
        self.map, self.key, self.val, self.site, self.every = m, key, val, site, every

    def __repr__(self):
        return "%s[%s] += %s" % (".".join(self.map), show(self.key, 4), show(self.val, 4))


def path_of(t):
    """Field path of a place inside self."""
    out = []
    while t.op == "F":
        out.append(t.a[1])
        t = t.a[0]
    if t is ME:
        return tuple(reversed(out))
    return None


class GOp:
    def __init__(self, F, path, item):
        self.F, self.path = F, path
        self.name = item.split("::")[-1]
        self.f = F.fns[path]
        self.E = Engine(F, watch_call=lambda n: n.split("::")[-1] in GROW | SHRINK, vals=True)
        self.r = self.E.run(path)
        self.edges, self.shrinks, self.odd = [], [], []
        for s in self.r.sites:
            if s.kind != "call" or s.recv is None:
                continue
            last = s.name.split("::")[-1]
            rv = s.recv
            at_ = rv.op == "At"
            m = path_of(rv.a[0] if at_ else rv)
            if m is None:
                if mentions(rv, lambda t: t is ME) and last in SHRINK:
                    self.odd.append(s)
                continue
            if last in SHRINK:
                self.shrinks.append((m, rv.a[1] if at_ else None, s))
            elif at_ and last in ("insert", "push", "push_back"):
                self.edges.append(Edge(m, rv.a[1], s.args[1], s))
            elif at_ and last in ("extend", "append"):
                self.edges.append(Edge(m, rv.a[1], elem(s.args[1]), s, s.args[1]))
            elif last == "insert" and len(s.args) == 3:
                v = s.args[2]
                if v.op == "S" and v.a:
                    self.edges.append(Edge(m, s.args[1], elem(v), s, v))
                else:
                    self.edges.append(Edge(m, s.args[1], v, s))
            elif last == "insert" and len(s.args) == 2:
                self.edges.append(Edge(m, None, s.args[1], s))
            elif last == "extend":
                self.edges.append(Edge(m, None, elem(s.args[1]), s, s.args[1]))

    def where(self):
        return "%s:%s" % tuple(self.f.span[:2])

    def success(self):
        return [fs for _, fs in pos_rets(self.r)]

    def needed(self, e):
        """Conditions the edge depends on although the operation can succeed without them."""
        out = []
        for c in e.site.conds:
            if c.op == "Next":
                continue
            if empties(c):
                continue
            b = c
            while b.op in ("Not", "Is"):
                b = b.a[0]
            if b.op == "C" and b.a[0].split("::")[-1] in ("get", "get_mut", "contains", "contains_key") and \
                    same_map(b.a[1], e.map) and (b.a[2] is e.key or b is not c):
                continue
            if not all(determined(c, fs) for fs in self.success()):
                out.append(c)
        return out


def same_map(t, m):
    """The term is the map, possibly with entries added earlier in the operation."""
    return path_of(t) == m or t.op == "S" and any(x.op == "E" and path_of(x.a[0]) == m for x, _ in t.a)


def variant(t, name):
    return show(t).split("{")[0].endswith("::" + name)


def empties(c):
    """Whether a parameter's list is empty."""
    while c.op in ("Not", "Is"):
        c = c.a[0]
    return c.op == "C" and c.a[0].split("::")[-1] == "is_empty" and c.a[1].op == "P"


def determined(c, fs):
    """The facts fix the outcome of the condition (for each element it may be about)."""
    fs = fs | frozenset(f.a[1] for f in fs if f.op == "all" and f.a[1].op == "is")
    if c.op == "Phi" and all(x.op in ("Pos", "Neg") for x, _ in c.a):
        pos = [g for x, g in c.a if x.op == "Pos"]
        return len(pos) > 0 and all(any(holds(fs, y) for y in g) or not g for g in pos) or assume(c, "NEG", fs) is None
    if c.op == "Phi" and all(class_of(x) in (True, False) or x.op in ("C", "B", "Not", "Is") for x, _ in c.a):
        return assume(c, True, fs) is None or assume(c, False, fs) is None
    return any(assume(c, a, fs) is None for a in (True, False, "POS", "NEG"))


def ops(F):
    if not hasattr(F, "_graph"):
        F._graph = {}
        for im in F.impls:
            if im["trait"] == "graph::UnitGraph" and im["self_adt"] and im["self_adt"].startswith("graph::"):
                for m in im["methods"]:
                    if m["is_fn"] and m["path"] in F.fns:
                        o = GOp(F, m["path"], m["trait_item"])
                        F._graph[o.name] = o
    return F._graph


def unphi(t):
    """Alternatives of a term, the alternatives of its immediate parts included, as a set."""
    if t.op == "Phi":
        return {y for x, _ in t.a for y in unphi(x)}
    if t.op == "E" and t.a[0].op == "S":
        return {y for x, _ in t.a[0].a for y in unphi(x)}
    if t.op == "F" and t.a[0].op in ("Phi", "E", "A"):
        return {y for x in unphi(t.a[0]) for y in unphi(field(x, t.a[1]))} if unphi(t.a[0]) != {t.a[0]} else {t}
    return {t}
