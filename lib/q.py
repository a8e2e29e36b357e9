"""Queries shared by the rules."""
from absint import *
from terms import *
from facts import operands, where


def sub_paths(F, adt, hit, depth=4):
    """Field paths inside a local struct (by value, not through Arc or locks) whose type satisfies hit."""
    out = []
    a = F.adts.get(adt)
    if not a or depth == 0 or a["kind"] != "Struct":
        return out
    for f in a["variants"][0]["fields"]:
        if hit(f["ty"]):
            out.append((f["name"],))
        for p in sub_paths(F, f["ty"], hit, depth - 1):
            out.append((f["name"],) + p)
    return out


def at(t, path):
    for p in path:
        t = field(t, p)
    return t


def same(t, u):
    """t is u in every alternative."""
    return all(x is u for x, _ in alts(t))


def same_result(t, call):
    """t returns the result of the (fallible or not) call unchanged; the error may be converted on the way."""
    for x, fs in alts(t):
        if x is call:
            continue
        if x.op == "Pos" and x.a[0] is payload(call):
            continue
        if x.op == "Pos" and x.a[0].op == "K" and x.a[0].a[0] in ("unit",) or x is mk("Pos", UNIT):
            if holds(fs, fact(call, "POS")):
                continue
        if x.op == "Neg" and holds(fs, fact(call, "NEG")):
            continue
        return False
    return True


def evs(facts, pred=lambda n: True):
    """Event facts as (name, args)."""
    out = []
    for x in facts:
        if x.op == "ev" and pred(x.a[0]):
            out.append((x.a[0], x.a[1:]))
    return out


def own_methods(F, self_ty, trait=None):
    return [f for f in F.fns.values() if f.d.get("impl_self") == self_ty and f.d.get("name")
            and f.d.get("kind") != "closure" and (trait is None or f.d.get("impl_trait") == trait)]


def site_calls(F, f):
    """(callee path, call terminator) of one body."""
    for _, t in f.calls():
        if t.get("f"):
            yield t["f"]["path"], t


def places(f):
    """All places read in a body (statement right-hand sides and call arguments)."""
    def op(o):
        if o and o[0] in ("C", "M"):
            yield o[1]
    for b in f.blocks:
        if not b:
            continue
        for s in b["s"]:
            if s[0] == "=":
                r = s[2]
                for o in operands(r):
                    yield from op(o)
                if r[0] in ("ref", "discr", "len", "copyref", "addr"):
                    for x in r[1:]:
                        if isinstance(x, list) and x and isinstance(x[0], int):
                            yield x
        t = b["t"]
        if t["k"] == "call":
            for a in t["a"]:
                yield from op(a)
        elif t["k"] == "switch":
            o = t.get("d") or t.get("c")
            if isinstance(o, list):
                yield from op(o)


def frames(s):
    """The places, outermost first, through which a site is reached."""
    return [(f, tuple(sp)) for f, sp in s.chain] + [(s.fn, tuple(s.span))]


def later(F, s1, s2):
    """Whether s2 only happens after s1: at the point where their ways part, s2's can follow s1's but not the other way round."""
    for (f1, p1), (f2, p2) in zip(frames(s1), frames(s2)):
        if f1 != f2:
            return False
        if p1 != p2:
            f = F.fns[f1]
            b1, b2 = ([i for i, b in enumerate(f.blocks) if b and tuple((b["t"].get("sp") or ())) == p] for p in (p1, p2))
            return bool(b1 and b2) and reaches(f, b1, b2) and not reaches(f, b2, b1)
    return False


def reaches(f, a, b):
    seen, st = set(), [s for x in a for s in f.succ(x)]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += f.succ(x)
    return any(x in seen for x in b)


NEXT = {"next", "next_back", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "recv", "try_recv"}


_loops = {}


def loops(f):
    """The natural loops of a body: (header, blocks)."""
    if f in _loops:
        return _loops[f]
    order, seen, st = [], {0}, [(0, iter(f.succ(0)))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.succ(s))))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    pred = {}
    for b in order:
        for s in f.succ(b):
            pred.setdefault(s, []).append(b)
    dom = {b: set(order) for b in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            n = set.intersection(*[dom[p] for p in pred[b]]) | {b}
            if n != dom[b]:
                dom[b], ch = n, True
    out = {}
    for b in order:
        for s in f.succ(b):
            if s in dom[b]:
                body, w = out.setdefault(s, {s}), [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w += pred.get(x, [])
    _loops[f] = list(out.items())
    return _loops[f]


def early_exits(f):
    """(blocks of the loop, exit block, place) for each way of leaving a loop before it has seen everything, errors and panics apart."""
    out = []
    ret = {b for b, x in enumerate(f.blocks) if x and x["t"]["k"] == "return"}
    err = set()
    for b, x in enumerate(f.blocks):
        if not x:
            continue
        t = x["t"]
        if t["k"] == "call" and (t.get("f") or {}).get("name") == "from_residual":
            err.add(b)
        if any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][2] == "Err" for s in x["s"]):
            err.add(b)

    def returns(b, but):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen or x in but:
                continue
            seen.add(x)
            st += f.succ(x)
        return bool(seen & ret)

    for h, body in loops(f):
        ex = []
        for b in sorted(body):
            t = f.blocks[b]["t"]
            if t["k"] == "switch":
                away = [s for s in f.succ(b) if s not in body and returns(s, set())]
                if away and any(returns(s, err) for s in away):
                    ex.append(b)
        if len(ex) > 1:
            out += [(body, b, f.blocks[b]["t"].get("sp") or f.span) for b in ex if not asks_next(f, b)]
    return out


def asks_next(f, b):
    """The switch asks whether there is another element."""
    o = f.blocks[b]["t"]["d"]
    l = o[1][0] if o[0] in ("C", "M") else None
    for _ in range(8):
        d = [s[2] for _, s in f.stmts() if s[0] == "=" and s[1] == [l]]
        c = [t for _, t in f.calls() if t.get("d") == [l]]
        if c:
            n = (c[0].get("f") or {}).get("name")
            if n in NEXT:
                return True
            if n in ("branch", "is_some", "is_none", "copied", "cloned", "as_ref") and c[0]["a"] and c[0]["a"][0][0] in ("C", "M"):
                l = c[0]["a"][0][1][0]
                continue
            return n == "is_empty"
        if len(d) == 1 and d[0][0] in ("discr", "ref"):
            l = d[0][1][0]
        elif len(d) == 1 and d[0][0] == "use" and d[0][1][0] in ("C", "M"):
            l = d[0][1][1][0]
        elif len(d) == 1 and d[0][0] == "un" and d[0][2][0] in ("C", "M"):
            l = d[0][2][1][0]
        else:
            return False
    return False


def cut_short(F, s):
    """Places where a loop around the site is left early."""
    out = []
    for p, sp in frames(s):
        f = F.fns.get(p)
        if not f:
            continue
        at_ = [i for i, b in enumerate(f.blocks) if b and (tuple((b["t"].get("sp") or ())) == sp or any(
            st[0] == "=" and len(st) > 3 and tuple(st[3] or ()) == sp for st in b["s"]))]
        for body, b, where_ in early_exits(f):
            if any(x in body for x in at_):
                out.append("%s:%s in %s" % (where_[0], where_[1], p))
    return out
