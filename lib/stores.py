"""What each operation of the SQLite-backed stores does to its database, read off the abstract interpretation."""
from q import *
import sql

ORDERISH = set("""rev sort sort_by sort_by_key sort_unstable sort_unstable_by sort_unstable_by_key reverse skip take step_by
take_while skip_while dedup dedup_by dedup_by_key truncate shuffle rotate_left rotate_right chunks nth last split_off pop
swap_remove sorted sorted_by sorted_by_key unique unique_by retain""".split())
CACHEOPS = ("insert", "remove", "clear", "push_back", "push", "entry", "or_default", "get_mut", "retain", "extend", "push_front",
            "pop_front", "pop_back", "get_or_insert_with", "or_insert", "or_insert_with")


class Stmt:
    def __init__(self, kind, site, conn, text, params, call):
        self.kind, self.site, self.conn, self.text, self.params, self.call = kind, site, conn, text, params, call
        self.ast = None
        self.error = None
        if text is not None:
            try:
                self.ast = sql.parse(text)
            except sql.SqlError as e:
                self.error = str(e)

    def one(self):
        return self.ast[0] if self.ast and len(self.ast) == 1 else None

    def write(self):
        return any(d["k"] in ("insert", "delete", "update", "replace") for d in self.ast or ())


def text_of(t):
    return t.a[1] if t.op == "K" and t.a[0] in ("str",) and isinstance(t.a[1], str) else None


def prepared(t):
    """(connection, sql term) of a prepared statement term."""
    while t.op == "C" and t.a[0].split("::")[-1].startswith("after:"):
        t = t.a[1]
    if t.op == "C" and t.a[0].split("::")[-1] in ("prepare", "prepare_cached") and len(t.a) >= 3:
        return t.a[1], t.a[2]
    return None


def is_tx(conn):
    return conn.op == "C" and "transaction" in conn.a[0].split("::")[-1]


def base_conn(conn):
    while is_tx(conn):
        conn = conn.a[1]
    return conn


def arr(t):
    """Bound parameters in order, or None."""
    if t.op == "Arr":
        return list(t.a)
    if t.op == "S" and not t.a:
        return []
    if t is UNIT or t.op == "K" and t.a[0] == "unit":
        return []
    if t.op == "A" and t.a[0] == "tuple":
        return [v for _, v in t.a[2:]]
    return None


def rusqlite(n):
    return "rusqlite" in n.split("<")[0] or n.startswith("rusqlite") or "rusqlite_migration" in n


class Op:
    def __init__(self, F, path, trait_item):
        self.F, self.path, self.item = F, path, trait_item
        self.name = (trait_item or path).split("::")[-1]
        f = F.fns[path]
        self.f = f
        self.mut = f.argc and f.locals[1].startswith("&mut")

        def watch(n):
            last = n.split("::")[-1]
            return rusqlite(n) or last in ORDERISH or last in CACHEOPS
        self.E = Engine(F, watch_call=watch, vals=True, watch_store=lambda t: mentions(t, lambda x: x is mk("P", 1)))
        self.r = self.E.run(path)
        self.stmts = []
        self.other = []
        self.assigned = [s for s in self.r.sites if s.kind == "store"]
        for s in self.r.sites:
            if s.kind != "call":
                continue
            last = s.name.split("::")[-1]
            if not rusqlite(s.name):
                self.other.append(s)
                continue
            a = s.args
            call = mk("C", two(s.name), *[self.E.flat(x) for x in a if x.op != "Clo"])
            if last in ("execute", "query", "query_map", "query_row", "query_and_then", "insert", "exists"):
                p = prepared(a[0])
                if p:
                    conn, tx, par = p[0], p[1], a[1] if len(a) > 1 else EMPTY_S
                else:
                    conn, tx, par = a[0], a[1], a[2] if len(a) > 2 else EMPTY_S
                self.stmts.append(Stmt("exec" if last in ("execute", "insert") else "query", s, conn, text_of(tx), arr(par), call))
            elif last == "execute_batch":
                self.stmts.append(Stmt("batch", s, a[0], text_of(a[1]), [], call))
            else:
                self.other.append(s)

    def where(self):
        return "%s:%s" % tuple(self.f.span[:2])

    def writes(self):
        return [s for s in self.stmts if s.write()]


class Store:
    """A local type owning a database connection."""

    def __init__(self, F, adt):
        self.F, self.adt = F, adt
        self.ops, self.ctors = [], []
        for im in F.impls:
            if im["self_adt"] == adt and im["trait"] in F.traits:
                for m in im["methods"]:
                    if m["is_fn"] and m["path"] in F.fns:
                        self.ops.append(Op(F, m["path"], m["trait_item"]))
        for f in own_methods(F, adt):
            if f.d.get("pub") and not f.d.get("impl_trait") and adt in f.locals[0]:
                self.ctors.append(Op(F, f.path, None))
        self.migrations = None
        self.schema = None
        for c in self.ctors:
            for s in c.other:
                if s.name.split("::")[-1] == "to_latest":
                    m = s.args[0]
                    if m.op == "C" and m.a[1].op == "Arr":
                        self.migrations = m.a[1].a
        self.error = None
        if self.migrations:
            self.schema = sql.Schema()
            try:
                for m in self.migrations:
                    for d in sql.parse(updown(m)[0] or ""):
                        self.schema.apply(d)
            except sql.SqlError as e:
                self.error = str(e)

    def op(self, prefix):
        return [o for o in self.ops if o.name.startswith(prefix)]


def updown(m):
    """(up text, down text) of one migration term."""
    up = down = None
    while m.op == "C":
        last = m.a[0].split("::")[-1]
        if last == "up":
            up = text_of(m.a[1])
            break
        if last == "down":
            down = text_of(m.a[2])
        m = m.a[1]
    return up, down


def stores(F):
    if not hasattr(F, "_stores"):
        F._stores = [Store(F, p) for p, a in F.adts.items() if a["kind"] == "Struct" and any(
            "rusqlite::Connection" in f["ty"] for f in a["variants"][0]["fields"])]
    return F._stores


# ---------------------------------------------------------------- meaning of row selections

def bind(e, params):
    """Replaces parameters by the bound terms, and values read from rows of another query by that query."""
    if isinstance(e, dict):
        d = dict(e)
        d["cols"] = tuple(bind(x, params) for x in e["cols"])
        d["where"] = bind(e["where"], params) if e["where"] else None
        d["order"] = tuple((bind(x, params), o) for x, o in e["order"])
        d["limit"] = bind(e["limit"], params) if e["limit"] else None
        d["offset"] = bind(e["offset"], params) if e["offset"] else None
        d["on"] = [bind(x, params) for x in e["on"]]
        return d
    if not isinstance(e, tuple):
        return e
    if e and e[0] == "param":
        if params is None or e[1] > len(params):
            return ("unbound", e[1])
        return value(params[e[1] - 1])
    return tuple(bind(x, params) if isinstance(x, (tuple, dict)) else x for x in e)


def row_value(t):
    """(query call, column index) when t is read from a row of a query."""
    t = strip_pos(t)
    if t.op == "C" and t.a[0].split("::")[-1].startswith("get") and "Row" in t.a[0] and t.a[1].op == "E":
        k = t.a[2]
        if k.op == "K":
            return t.a[1].a[0], k.a[1]
    return None


def strip_pos(t):
    while t.op == "Pos" or (t.op == "C" and t.a[0].split("::")[-1] in ("as_str", "to_string", "into", "from", "clone")
                            and len(t.a) == 2):
        t = t.a[-1] if t.op == "C" else t.a[0]
    return t


def query_of(call):
    """(bound select, column index resolver) of a query call term."""
    a = call.a[1:]
    p = prepared(a[0])
    if p:
        tx, par = p[1], a[1] if len(a) > 1 else EMPTY_S
    else:
        tx, par = a[1], a[2] if len(a) > 2 else EMPTY_S
    t = text_of(tx)
    if t is None:
        return None
    try:
        d = sql.parse(t)
    except sql.SqlError:
        return None
    if len(d) != 1 or d[0]["k"] != "select":
        return None
    return bind(d[0], arr(par))


def value(t):
    t = strip_pos(t)
    rv = row_value(t)
    if rv:
        q = query_of(rv[0])
        if q is not None:
            i = rv[1]
            col = q["cols"][i] if isinstance(i, int) and i < len(q["cols"]) else ("col", i) if isinstance(i, str) else None
            return ("each", q, col, t)
    return ("T", t)


def eq(e):
    return [(e[1], e[2]), (e[2], e[1])] if e[0] in ("=", "is") else []


def who(e):
    """Units selected by a condition: ('unit', term) | ('prefix', term) | None."""
    for a, b in eq(e):
        if a[0] == "col" and a[1] == "unit_id" and b[0] == "T":
            return ("unit", b[1])
        if a[0] == "col" and a[1] == "unit_id" and b[0] == "each":
            return rows_who(b[1]) if b[2] and b[2][:2] == ("col", "unit_id") else None
        if a[0] == "col" and a[1] == "unit_uid" and b[0] == "sub":
            return rows_who(b[1]) if b[1]["cols"][0][:2] == ("col", "unit_uid") and len(b[1]["cols"]) == 1 else None
        if a[0] == "col" and a[1] == "unit_uid" and b[0] == "each":
            return rows_who(b[1], b[3]) if b[2] and b[2][:2] == ("col", "unit_uid") else None
        if a[0] == "call" and a[1] in ("substr", "substring") and len(a) == 5 and a[2][:2] == ("col", "unit_id") and \
                a[3] == ("num", 1) and b[0] == "T" and a[4] == ("call", "length", b):
            return ("prefix", b[1])
        if a[0] == "call" and a[1] == "instr" and a[2][:2] == ("col", "unit_id") and a[3][0] == "T" and b == ("num", 1):
            return ("prefix", a[3][1])
    if e[0] == "in" and e[1][0] == "col" and isinstance(e[2], dict):
        if e[2]["cols"][0][:2] == e[1][:2] and len(e[2]["cols"]) == 1 and e[1][1] in ("unit_uid", "unit_id"):
            return rows_who(e[2])
    return None


def rows_who(d, each=None):
    """Units of the rows selected by a plain (unlimited) select."""
    if d["limit"] is not None or d["offset"] is not None or d.get("group"):
        return None
    cs = [x for x in sql.conjuncts(d["where"]) + d["on"] if not joins(x)]
    if not cs:
        return ("every", each) if each is not None else ("every", None)
    if len(cs) == 1:
        return who(cs[0])
    return None


def joins(e):
    """Equality of the unit keys of two joined tables."""
    return e[0] == "=" and e[1][0] == "col" and e[2][0] == "col" and e[1][1] == "unit_uid" and e[2][1] == "unit_uid"


def recent_first(d):
    """The rows come most recent first."""
    o = d["order"]
    if not o or o[0][0][:2] != ("col", "timestamp") or o[0][1] != "desc":
        return False
    return all(x[0][0] == "col" and x[0][1] in ("id", "rowid") for x in o[1:])


def beyond(d, key):
    """(n, who) when the select yields key of the rows after the n most recent ones of each selected unit."""
    if len(d["cols"]) != 1 or d["cols"][0][:2] != ("col", key) or not recent_first(d):
        return None
    if d["offset"] is None or d["limit"] is None or d["limit"][0] != "num" or d["limit"][1] >= 0:
        return None
    cs = [x for x in sql.conjuncts(d["where"]) + d["on"] if not joins(x)]
    if len(cs) != 1:
        return None
    return d["offset"], who(cs[0])


def first(d, key):
    """(n, who) when the select yields key of the n most recent rows of a unit."""
    if len(d["cols"]) != 1 or d["cols"][0][:2] != ("col", key) or not recent_first(d):
        return None
    if d["offset"] is not None or d["limit"] is None:
        return None
    cs = [x for x in sql.conjuncts(d["where"]) + d["on"] if not joins(x)]
    if len(cs) != 1:
        return None
    return d["limit"], who(cs[0])


def deletes(stmt):
    """Meaning of a delete: (table, [restrictions]) with restrictions ('unit'|'prefix'|'every'|'beyond'...)."""
    d = stmt.one()
    out = []
    for c in sql.conjuncts(bind(d["where"], stmt.params) if d["where"] else None):
        w = who(c)
        if w:
            out.append(w)
            continue
        if c[0] == "in" and c[1][0] == "col" and c[1][1] in ("id", "rowid") and isinstance(c[2], dict) and \
                c[2]["from"][0][0] == d["table"]:
            b = beyond(c[2], c[1][1])
            if b:
                out.append(("beyond",) + b)
                continue
        if c[0] == "not" and c[1][0] == "in" and c[1][1][0] == "col" and c[1][1][1] in ("id", "rowid") and \
                isinstance(c[1][2], dict) and c[1][2]["from"][0][0] == d["table"]:
            b = first(c[1][2], c[1][1][1])
            if b:
                out.append(("outside",) + b)
                continue
        out.append(("unknown", c))
    # a restriction to the very unit whose rows are counted: redundant, or what makes "all but the first n" mean those beyond
    lim = [r for r in out if r[0] in ("beyond", "outside")]
    if len(lim) == 1 and all(r is lim[0] or r == lim[0][2] for r in out) and (lim[0][0] == "beyond" or len(out) > 1):
        out = [("beyond",) + lim[0][1:]]
    return d["table"], out


def guards(site, E, atom_pred):
    """Guard facts of the site other than the success of fallible calls."""
    out = []
    for f in site.facts:
        if f.op == "is" and f.a[1] not in ("POS",) and atom_pred(f):
            out.append(f)
    return out


DBCALLS = set("""prepare prepare_cached execute execute_batch query query_map query_row query_and_then transaction commit savepoint
transaction_with_behavior unchecked_transaction to_latest open pragma_update pragma""".split())


def dbcall(t):
    if t.op != "C":
        return False
    seg = t.a[0].split("::")
    return seg[-1] in DBCALLS or len(seg) > 1 and (seg[-2], seg[-1]) in (
        ("Row", "get"), ("Rows", "next"), ("Statement", "exists"), ("Statement", "insert"))


def mentions(t, pred, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T):
        return isinstance(t, (tuple, frozenset)) and any(mentions(x, pred, seen) for x in t)
    if t in seen:
        return False
    seen.add(t)
    return pred(t) or any(mentions(x, pred, seen) for x in t.a)


def outcome(t):
    """A condition that only tells whether a database call (or the collection of its rows) succeeded, or a loop's end."""
    if t.op == "Next":
        return True
    if t.op in ("Maybe", "Is", "Not"):
        return outcome(t.a[0]) or t.op == "Maybe" and t.a[0].op == "E" and outcome(t.a[0].a[0])
    if dbcall(t) or t.op == "C" and t.a[0].split("::")[-1] == "collect":
        return True
    if t.op == "Phi":
        return all(x.op in ("Pos", "Neg") or outcome(x) for x, _ in t.a) and all(
            f.op != "is" or f.a[1] in ("POS", "NEG") and outcome(f.a[0]) for _, fs in t.a for f in fs)
    if t.op == "Pos" or t.op == "Neg":
        return True
    return False


def loops(site):
    return [c.a[0] for c in site.conds if c.op == "Next"]


def oddconds(site):
    """Conditions other than the success of database calls; whether a list the site loops over is empty does not matter."""
    ls = loops(site)
    return [c for c in site.conds if not outcome(c) and not (
        c.op == "C" and c.a[0].split("::")[-1] == "is_empty" and any(c.a[1] is x or x.op == "E" and c.a[1] is x.a[0] for x in ls))]


def succeeded(facts, stmt):
    """The statement is known to have succeeded."""
    return holds(facts, fact(stmt.call, "POS"))


def each(facts, coll, stmt):
    """The statement is known to have succeeded for every element of the collection."""
    return any(x.op == "all" and x.a[0] is coll and x.a[1] is fact(stmt.call, "POS") for x in facts)


def pos_rets(r):
    """(payload, facts) of the successful returns."""
    out = []
    for x, fs in alts(r.ret):
        if x.op == "Neg":
            continue
        out.append((x.a[0] if x.op == "Pos" else x, fs | r.facts | (frozenset([fact(x, "POS")]) if dbcall(x) else frozenset())))
    return out
