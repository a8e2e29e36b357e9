"""Saved filters, study sessions and preferences are kept as written."""
from q import *
from rules.c44 import SORTS, SORTS_BY, base
from sched import PARTIAL
from stores import mentions
import layout
import terms
from table import *

P1, P2 = mk("P", 1), mk("P", 2)
STORES = [("FilterManager", "SavedFilter"), ("StudySessionManager", "StudySession")]
READS = {"from_reader", "from_str", "from_slice"}
SHOWS = {"to_string", "to_string_pretty", "to_vec", "to_vec_pretty"}
CONTENT = {"open", "read", "read_to_string", "File::open"}
HAS = {"contains_key", "contains", "get", "insert"}
MOVES = {"rename", "persist"}
WRITES = {"write", "write_all", "create", "create_new", "rename", "copy", "write_str", "to_writer", "to_writer_pretty", "set_len", "write_fmt"}
DESTROYS = {"create", "rename", "copy", "write", "remove_file", "remove_dir", "remove_dir_all", "truncate", "hard_link"}
EXISTS = {"exists", "is_file", "try_exists"}


def last(n):
    return n.split("::")[-1] if isinstance(n, str) else ""


def nm(t):
    return last(t.a[0]) if t.op == "C" else ""


def check(c):
    F = c.F
    c.rule = """Saved filters and study sessions: for the local implementations of the two managers, the collection a new manager holds is
    exactly one entry per file of the directory, read and parsed, under the id it carries; no entry is left out, an id already there and
    every failure make the construction fail; looking up consults that collection with the id asked for; the list holds the id and
    description of every entry, sorted by id. Preferences: read from the manager's path, written there only by renaming a file that was
    completely written before, and opening a library replaces no file that exists. All are
    looked for under the names they have always had."""
    n = 0
    for tr, ty in STORES:
        n += store(c, F, tr, ty)
    n += preferences(c, F)
    n += opening(c, F)
    layout.check(c, F, layout.SAVED)
    c.floor("operations on saved files", n, 9)


def store(c, F, tr, ty):
    n = 0
    for f in [x for x in F.fns.values() if F.in_scope(x) and not x.parent_fn and not x.d.get("impl_trait")]:
        ret = f.locals[0]
        adt = next((a for a in F.adts if ret.startswith("std::result::Result<" + a) and "Manager" in a), None)
        if not adt or not adt.split("::")[-1].endswith(tr) or not f.d.get("pub"):
            continue
        n += 1
        made(c, F, f, adt, ty)
        for m in own_impl(F, adt, tr):
            n += 1
            looked(c, F, m, adt, ty)
    c.ob("%s/found" % tr, n >= 3, "src/", "no manager of %s is found" % ty)
    return n


def own_impl(F, adt, tr):
    pre = "<%s as " % adt
    return [f for p, f in sorted(F.fns.items()) if p.startswith(pre) and not f.parent_fn and tr + ">::" in p and F.in_scope(f)]


def made(c, F, f, adt, ty):
    name = adt.split("::")[-1]
    E = Engine(F, watch_call=lambda q: last(q) in HAS | PARTIAL | {"entry", "insert_entry"})
    r = E.run(f.path)
    c.analysed["functions"] = c.analysed.get("functions", 0) + len(E.visited)
    w = "%s:%s" % tuple(f.span[:2])
    fields = [x["name"] for v in F.adts[adt]["variants"] for x in v["fields"] if ty in x["ty"] and "Map" in x["ty"]]
    c.ob(name + "/holds", len(fields) == 1, w, "%s holds no collection by id" % adt)
    some = False
    for x, g in alts(r.ret):
        if x.op == "Neg":
            continue
        some = True
        v = field(x.a[0], fields[0]) if x.op == "Pos" and fields else None
        es = list(elems(v)) if v is not None else []
        c.ob(name + "/entries", es, w, "the manager is made without what the files hold: %s" % show(x, 6)[:150])
        dirs = set()
        for e, fs in es:
            k, y = field(e, "0"), field(e, "1")
            y = base(y)
            d = source(y)
            ok = nm(y) in READS and d is not None and content(y)
            c.ob(name + "/content", ok, w, "an entry is %s, not what a file of the directory holds" % show(y, 6)[:150])
            c.ob(name + "/id", k.op == "F" and k.a[1] == "id" and base(k.a[0]) is y, w, "an entry is kept as %s" % show(k, 6)[:150])
            for h in fs:
                good = h.op == "is" and (h.a[1] == "POS" and any(z.op == "all" and z.a[0] is d and h in tuple(z.a[1:]) for z in g) or
                                         h.a[1] == "Vacant" or h.a[1] in ("NEG", False) and nm(h.a[0]) in HAS)
                c.ob(name + "/every", good, w, "a file is left out unless %s" % show(h, 5)[:150])
            if d is not None:
                dirs.add(d)
        c.ob(name + "/directory", any(mentions(d, lambda z: z.op == "P" and z.a[0] == 1) for d in dirs), w, "the directory given is not read")
    c.ob(name + "/made", some, w, "no manager is ever made")
    for s in r.sites:
        if last(s.name) in PARTIAL:
            c.fail(name + "/part", s.where(), "only some of the files are read")
        if last(s.name) == "insert" and "Map" in s.name and len(s.args) == 3:
            k = s.args[1]
            ok = any(h.op == "is" and nm(h.a[0]) in HAS and h.a[1] in (False, "NEG") and k in h.a[0].a[1:] for h in s.facts)
            c.ob(name + "/twice", ok or strict(F, f, fields), s.where(), "an id that was read before is accepted again")
        elif last(s.name) == "insert" and "VacantEntry" not in s.name or last(s.name) in ("or_insert", "or_insert_with", "and_modify"):
            c.fail(name + "/twice", s.where(), "an id that was read before is accepted again")
    ins = [s for s in r.sites if last(s.name) in ("insert", "insert_entry") or last(s.name) == "entry"]
    c.ob(name + "/inserts", ins, w, "nothing is known about ids that occur twice")
    c.to_the_end(name + "/loop", [s for s in ins if s.loop or last(s.name) == "insert"])


def strict(F, f, fields):
    """No manager is made when an id is there already as it is put in."""
    terms.ORACLE[0] = lambda t: ("POS", True, "Occupied") if nm(t) == "insert" or t.op == "Entry" else None
    try:
        r = Engine(F).run(f.path)
    finally:
        terms.ORACLE[0] = None
    return all(x.op == "Neg" or x.op == "Pos" and not elems(field(x.a[0], fields[0])) for x, _ in alts(r.ret))


def content(y):
    return mentions(y, lambda z: nm(z) in CONTENT or nm(z) == "new")


def source(y):
    """The directory listing an entry comes from."""
    found = []

    def walk(t):
        if t.op == "E" and mentions(t, lambda z: nm(z) in ("read_dir", "into_iter") or "walk" in nm(z).lower()):
            found.append(t.a[0])
            return
        for k in t.a:
            if hasattr(k, "op"):
                walk(k)
    walk(y)
    return found[0] if found else None


def looked(c, F, m, adt, ty):
    name = "%s/%s" % (adt.split("::")[-1], m.path.split("::")[-1])
    E = Engine(F, watch_call=lambda q: last(q) in SORTS | SORTS_BY | PARTIAL)
    r = E.run(m.path)
    w = "%s:%s" % tuple(m.span[:2])
    if "Vec<" in m.locals[0]:
        es = list(elems(r.ret))
        c.ob(name + "/all", len(es) >= 1, w, "nothing is listed")
        for e, fs in es:
            k, d = base(field(e, "0")), base(field(e, "1"))
            src = entry_of(k, ("0", "id"))
            ok = src is not None and src is entry_of(d, ("description",))
            c.ob(name + "/entry", ok, w, "lists %s with %s" % (show(k, 6)[:100], show(d, 6)[:100]))
            c.ob(name + "/left-out", not fs, w, "an entry is left out unless %s" % [show(f, 5)[:100] for f in fs])
        ok = any(s.args and frozenset(e for e, _ in elems(s.args[0])) and by_id(F, s) for s in r.sites if last(s.name) in SORTS | SORTS_BY) or \
            any("BTreeMap" in x["ty"] for v in F.adts[adt]["variants"] for x in v["fields"])
        c.ob(name + "/order", ok, w, "the list is not sorted by id")
        for s in r.sites:
            c.ob(name + "/part", last(s.name) not in PARTIAL, s.where(), "only a part is listed")
        return
    some = False
    for x, g in alts(r.ret):
        y = x.a[0] if x.op in ("Pos", "Maybe") else x
        if x.op == "Neg":
            ok = any(f.op == "is" and f.a[1] in ("NEG", False) and nm(f.a[0]) in HAS and f.a[0].a[-1] is P2 for f in g)
            c.ob(name + "/none", ok, w, "an id that is there may not be found")
            continue
        y = base(y)
        while y.op == "F" and y.a[1] in ("ok", "some"):
            y = base(y.a[0])
        some = True
        ok = nm(y) in ("get", "index") and y.a[1].op == "F" and y.a[1].a[0] is P1 and y.a[-1] is P2
        bad = [f for f in g if f.op == "is" and not (nm(f.a[0]) in HAS and f.a[0].a[-1] is P2)]
        c.ob(name + "/by-id", ok and not bad, w, "looking up an id gives %s" % show(x, 6)[:150])
    c.ob(name + "/found", some, w, "no id is ever found")


def by_id(F, s):
    """The sort orders the entries by the id, which comes first."""
    if last(s.name) in SORTS:
        return True
    k = s.args[1] if len(s.args) == 2 else None
    if k is None or k.op != "Clo" or k.a[0] not in F.fns:
        return False
    t = Engine(F).run(k.a[0]).ret
    key = lambda x, p: base(x) is p or base(x).op == "F" and base(x).a[1] == "0" and base(base(x).a[0]) is p
    if "key" in last(s.name):
        return key(t, P2)
    while t.op == "C" and nm(t) in ("then", "then_with"):
        t = t.a[1]
    return nm(t) == "cmp" and key(t.a[1], P2) and key(t.a[2], mk("P", 3))


def entry_of(t, names):
    """The entry t is a field of: its key ("0" of the entry) or a field of its value."""
    if t.op == "F" and t.a[1] in names:
        x = base(t.a[0])
        if t.a[1] == "0":
            return x if x.op == "E" else None
        if x.op == "F" and x.a[1] == "1" and x.a[0].op == "E":
            return x.a[0]
        if x.op == "E":
            return x
    return None


def preferences(c, F):
    n = 0
    for p, f in sorted(F.fns.items()):
        if f.parent_fn or not F.in_scope(f) or not p.startswith("<") or "PreferencesManager>::" not in p or "Trane as" in p:
            continue
        n += 1
        w = "%s:%s" % tuple(f.span[:2])
        E = Engine(F, watch_call=lambda q: last(q) in WRITES | DESTROYS | {"push", "with_extension", "set_extension", "options", "open"})
        r = E.run(p)
        c.analysed["functions"] = c.analysed.get("functions", 0) + len(E.visited)
        path = next((x["name"] for a in F.adts if p.startswith("<%s as" % a) for v in F.adts[a]["variants"] for x in v["fields"] if "Path" in x["ty"]), None)
        own = mk("F", P1, path)
        if "&mut" not in f.locals[1]:
            some = False
            for x, g in alts(r.ret):
                if x.op == "Neg":
                    continue
                y = base(x.a[0]) if x.op == "Pos" else base(x)
                some = True
                c.ob("read/valid", x.op != "Pos" or fact(y, "POS") in g, w, "preferences that cannot be read are replaced by others")
                c.ob("read/content", nm(y) in READS and mentions(y, lambda z: z is own) and mentions(y, lambda z: nm(z) in CONTENT), w,
                     "the preferences are %s" % show(x, 6)[:150])
            c.ob("read/some", some, w, "preferences are never read")
            continue
        moved = [s for s in r.sites if last(s.name) in MOVES and s.args[-1] is own]
        c.ob("write/replaced", moved, w, "the file is not replaced by renaming a file that is complete")
        for s in r.sites:
            n_ = last(s.name)
            if n_ in ("write", "create", "create_new", "copy", "set_len", "open") and s.args:
                d = s.args[-1] if n_ == "copy" else s.args[0]
                c.ob("write/in-place", d is not own, s.where(), "the file is written in place")
        for s in moved:
            t = s.args[0]
            full = [h for h in s.facts if h.op == "is" and h.a[1] == "POS" and nm(h.a[0]) in ("write_all", "write", "to_writer", "to_writer_pretty") and not h.a[0].a[0].endswith("Write::write") and
                    (h.a[0].a[1] is t or mentions(h.a[0].a[1], lambda z: nm(z) in ("create", "create_new", "open") and t in z.a))]
            c.ob("write/complete", full, s.where(), "the file is put in place before its content is written")
            for h in full:
                y = h.a[0].a[-1]
                while nm(y) in ("as_bytes", "into_bytes") or y.op == "Pos" or y.op == "F" and y.a[1] in ("ok", "some"):
                    y = y.a[-1] if y.op == "C" else y.a[0]
                c.ob("write/content", y is P2 and nm(h.a[0]).startswith("to_writer") or nm(y) in SHOWS and base(y.a[1]) is P2, s.where(),
                     "what is written is %s" % show(y, 5)[:150])
            other = any(last(x.name) in ("push", "with_extension", "set_extension") for x in r.sites) or mentions(t, lambda z: nm(z) in (
                "with_extension", "with_file_name", "join", "path", "fmt", "format"))
            c.ob("write/beside", beside(t, own), s.where(), "the new content is not written next to the file, and cannot replace it: %s" % show(t, 5)[:120])
            c.ob("write/other", other and t is not own, s.where(), "the new content is written to the file itself")
        for x, g in alts(r.ret):
            if x.op == "Neg":
                continue
            y = x
            ok = nm(y) in MOVES or any(h.op == "is" and h.a[1] == "POS" and nm(h.a[0]) in MOVES for h in g)
            c.ob("write/reported", ok, w, "success is reported without the file replaced: %s" % show(x, 5)[:120])
    c.ob("preferences/found", n >= 2, "src/", "no implementation of PreferencesManager")
    return n


def opening(c, F):
    """Whatever opening a library calls replaces no file that is there."""
    roots = [p for p, f in F.fns.items() if f.d.get("pub") and not f.parent_fn and F.in_scope(f) and
             any(f.locals[0].startswith("std::result::Result<%s," % a) for a in F.adts if a.split("::")[-1] == "Trane")]
    c.ob("opening/found", roots, "src/lib.rs", "nothing opens a library")
    seen = set(F.reachable(roots))
    n = 0
    todo = [p for p in sorted(seen) if p in F.fns and F.in_scope(F.fns[p]) and "PreferencesManager>::" not in p and
            any(writes_files(q) for q, _ in site_calls(F, F.fns[p]))]
    done = set()
    while todo:
        p = todo.pop()
        if p in done or p not in F.fns or "PreferencesManager>::" in p:
            continue
        done.add(p)
        f = F.fns[p]
        if f.parent_fn:
            todo.append(f.parent_fn)
            continue
        n += 1
        E = Engine(F, watch_call=lambda q: last(q) in DESTROYS and q not in F.fns)
        r = E.run(p)
        c.analysed["functions"] = c.analysed.get("functions", 0) + len(E.visited)
        for s in r.sites:
            if s.kind != "call" or not writes_files(s.name):
                continue
            d = s.args[-1] if last(s.name) in ("rename", "copy", "hard_link") else s.args[0]
            ok = any(h.op == "is" and h.a[1] in (False, "NEG") and nm(h.a[0]) in EXISTS and (h.a[0].a[1] is d or mentions(d, lambda z: z is h.a[0].a[1]))
                     for h in s.facts)
            ups = [u for u in sorted(seen) if u in F.fns and any(q == p for q, _ in site_calls(F, F.fns[u]))] if p not in roots else []
            if not ok and ups and mentions(d, lambda z: z.op == "P"):
                todo += ups         # whoever calls it decides
                continue
            c.ob("opening/keeps", ok, s.where(), "a file that is there already may be replaced: %s of %s" % (last(s.name), show(d, 5)[:120]))
    c.ob("opening/writes", n, "src/lib.rs", "nothing that writes files is found among what opening calls")
    return n


def beside(t, own):
    """Whether a path is made from more than the name of the file."""
    return t is own or isinstance(t, terms.T) and nm(t) not in ("file_name", "file_stem", "extension") and any(beside(x, own) for x in t.a)


def writes_files(q):
    return last(q) in DESTROYS and ("fs::" in q or "File" in q)
