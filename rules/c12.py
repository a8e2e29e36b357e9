"""Every database statement is well formed."""
import json
from stores import *


def check(c):
    c.rule = """The text of every statement reaching the database is a constant (no text built from data), parses, names only tables
    and columns of the schema its store's migrations build, matches insert columns with values, supplies required columns,
    and binds exactly as many parameters as it has placeholders; values are read from rows by an existing column."""
    n = 0
    for s in stores(c.F):
        k0 = s.adt.split("::")[-1]
        c.ob(k0 + "/schema", s.schema is not None and s.error is None, "", "the schema cannot be derived from the migrations: %s"
             % s.error)
        if s.schema is None or s.error:
            continue
        for o in s.ops + s.ctors:
            for x in o.stmts:
                n += 1
                k = "%s/%s/%s" % (k0, o.name, " ".join((x.text or "?").split())[:60])
                w = x.site.where()
                if not c.ob(k + "/constant", x.text is not None, w, "the statement's text is not a constant"):
                    continue
                if not c.ob(k + "/parses", x.error is None, w, x.error or ""):
                    continue
                try:
                    for d in x.ast:
                        s.schema.check(d)
                    err = None
                except sql.SqlError as e:
                    err = str(e)
                c.ob(k + "/valid", err is None, w, "%s: %s" % (err, x.text))
                if x.kind != "batch":
                    c.ob(k + "/single", len(x.ast) == 1, w, "several statements in one call: only the first would run")
                    np = x.ast[0]["nparams"] if x.ast else 0
                    c.ob(k + "/parameters", x.params is not None and len(x.params) == np, w,
                         "%s values bound to %d placeholders" % (len(x.params) if x.params is not None else "?", np))
                    c.ob(k + "/kind", (x.kind == "query") == (x.ast[0]["k"] == "select") or "returning" in x.text.lower(), w,
                         "statement %s run as %s" % (x.ast[0]["k"], x.kind))
                else:
                    c.ob(k + "/parameters", all(d.get("nparams", 0) == 0 for d in x.ast), w, "placeholders in a batch")
            for x in o.other:
                if x.name.split("::")[-1] in ("get", "get_unwrap", "get_ref") and "Row" in x.name:
                    rv = row_value(mk("C", x.name, *x.args))
                    if not rv:
                        continue
                    q = query_of(rv[0])
                    n += 1
                    names = [col[1] for col in q["cols"] if col[0] == "col"] if q else []
                    ok = q is not None and (rv[1] in names if isinstance(rv[1], str) else 0 <= rv[1] < len(q["cols"]))
                    c.ob("%s/%s/column %s" % (k0, o.name, rv[1]), ok, x.where(), "reads column %s of %d" % (
                        rv[1], len(q["cols"]) if q else 0))
    c.floor("statements and row reads", n, 20)
    c.floor("stores", len(stores(c.F)), 5)
    # statements outside of the stores
    seen = set()
    for s in stores(c.F):
        for o in s.ops + s.ctors:
            seen |= {(x.site.fn, x.site.name.split("::")[-1]) for x in o.stmts} | \
                {(x.fn, x.name.split("::")[-1]) for x in o.other}
    extra = 0
    for f in c.F.fns.values():
        for _, t in f.calls():
            p = (t.get("f") or {}).get("path", "")
            last = p.split("::")[-1]
            if "rusqlite" in p and last in ("execute", "execute_batch", "query", "query_row", "query_map", "query_and_then",
                                            "prepare", "prepare_cached", "pragma_update", "exists", "insert"):
                sp = t.get("sp") or f.span
                if (f.path, last) not in seen and not dead(c.F, f):
                    extra += 1
                    txt = [a[1].get("str") for a in t["a"] if a[0] == "K" and "str" in a[1]]
                    ok = bool(txt)
                    for x in txt:
                        try:
                            sql.parse(x)
                        except sql.SqlError:
                            ok = last == "pragma_update"
                    c.ob("outside/%s/%s" % (f.path, last), ok, "%s:%s" % tuple(sp[:2]),
                         "a statement outside the stores' operations that is not a constant, known statement")
    c.analysed["statements outside the stores"] = extra


def dead(F, f):
    """A private function nothing mentions: it never runs."""
    if f.pub or f.d.get("impl_trait") or f.parent_fn:
        return False
    name = json.dumps(f.path)
    return not any(name in json.dumps(g.blocks) for g in F.fns.values() if g is not f)
