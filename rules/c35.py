"""Stores write and return exactly the records they are given."""
from stores import *
from rules.c13 import surfaced


def colmap_insert(d, params, arg):
    """column -> what is stored in it: ('field', name) of the record, ('unit', field) through the uid table, ('arg',)."""
    out = {}
    for row in d["rows"]:
        for col, e in zip(d["cols"], row):
            e = bind(e, params)
            if e[0] == "T":
                t = e[1]
                if t is arg:
                    out[col] = ("arg",)
                elif t.op == "F" and t.a[0] is mk("E", arg):
                    out[col] = ("field", t.a[1])
                else:
                    out[col] = ("other", show(t, 4))
            elif e[0] == "sub":
                w = rows_who(e[1])
                if w and w[0] == "unit" and e[1]["cols"][0][:2] == ("col", "unit_uid"):
                    t = w[1]
                    out[col] = ("unit", t.a[1]) if t.op == "F" and t.a[0] is mk("E", arg) else ("unit", None) if t is arg \
                        else ("other", show(t, 4))
                else:
                    out[col] = ("other", str(e)[:80])
            else:
                out[col] = ("other", str(e)[:80])
    return out


def check(c):
    c.rule = """For every store the column each field of a record is written to, and the column each field of a returned record is
    read from, are derived from the statements' texts, their bound parameters and the record constructions; the two maps
    must be inverse of each other, so that what is read is what was written. Operations on one unit write or delete exactly
    that unit's row; adding a unit that is present already is not an error; listings return every row."""
    pairs = singles = lists = 0
    for s in stores(c.F):
        short = s.adt.split("::")[-1]
        ins = {}        # table -> (op, column map)
        for o in s.ops:
            k = "%s/%s" % (short, o.name)
            ws = o.writes()
            arg = mk("P", 2)
            for x in ws:
                d = x.one()
                if not d or d["k"] not in ("insert", "replace"):
                    continue
                m = colmap_insert(d, x.params, arg)
                for col, v in m.items():
                    c.ob("%s/stores/%s.%s" % (k, d["table"], col), v[0] != "other", x.site.where(),
                         "column %s is given %s, not a field of the record" % (col, v[1] if len(v) > 1 else v))
                c.ob("%s/insert-kind/%s" % (k, d["table"]), not d.get("upsert"), x.site.where(), "upsert: %s" % x.text)
                if d["table"] == "uids":
                    c.ob(k + "/uid-kept", d["or"] == "ignore", x.site.where(),
                         "an existing unit's uid must be kept: %s" % x.text)
                elif any(s.schema.unique(d["table"], col) for col in d["cols"]):
                    pass
                else:
                    c.ob(k + "/plain-insert/" + d["table"], d["or"] in (None, "abort", "fail", "rollback"), x.site.where(),
                         "records may be dropped or replace others: %s" % x.text)
                ins.setdefault(d["table"], (o, x, m))
        for o in s.ops:
            k = "%s/%s" % (short, o.name)
            qs = [x for x in o.stmts if x.kind == "query"]
            if o.mut or not qs:
                continue
            for p, fs in pos_rets(o.r):
                for t, g in elems(p):
                    if t.op == "A":
                        pairs += 1
                        q = None
                        for f, v in t.a[2:]:
                            rv = row_value(v)
                            if rv:
                                q = query_of(rv[0])
                                col = q["cols"][rv[1]] if isinstance(rv[1], int) and rv[1] < len(q["cols"]) else ("col", rv[1])
                                tab = q["from"][0][0]
                                src = ins.get(tab)
                                ok = src and src[2].get(col[1]) == ("field", f)
                                c.ob("%s/field/%s" % (k, f), ok, o.where(),
                                     "field %s is read from column %s.%s, where recording stores %s" % (
                                         f, tab, col[1] if col[0] == "col" else col, src and src[2].get(col[1])))
                            else:
                                ok = strip_pos(v) is mk("P", 2)
                                src = [m for _, _, m in ins.values() if ("unit", f) in m.values()]
                                c.ob("%s/field/%s" % (k, f), ok and src, o.where(),
                                     "field %s of the returned record is %s, not the unit asked for" % (f, show(v, 4)))
                        c.ob(k + "/from-rows", q is not None, o.where(), "no field is read from the database")
                    else:
                        lists += 1
                        rv = row_value(t)
                        q = rv and query_of(rv[0])
                        ok = q and q["where"] is None and q["limit"] is None and not q["on"] and len(q["from"]) == 1 and \
                            q["cols"][rv[1]][:2] == ("col", "unit_id")
                        c.ob(k + "/lists", ok, o.where(), "entries are %s" % show(t, 5)[:200])
                        odd = [f for f in g if f.op == "is" and not outcome(f.a[0])]
                        c.ob(k + "/unfiltered", not odd, o.where(), "entries are dropped depending on %s" %
                             "; ".join(show(f, 4) for f in odd))
            for x in o.other:
                last = x.name.split("::")[-1]
                if last in ORDERISH:
                    c.fail("%s/%s" % (k, last), x.where(), "rows are dropped or reordered by %s" % last)
                if last in ("push", "insert", "push_back") and x.recv is not None and x.recv.op == "L":
                    odd = [g for g in oddconds(x)]
                    c.ob("%s/every-row-kept" % k, not odd and x.loop, x.where(),
                         "a row is returned only depending on %s" % "; ".join(show(g, 4)[:150] for g in odd))
        # single-unit operations
        for o in s.ops:
            tys = o.f.locals[1:o.f.argc + 1]
            if not o.mut or len(tys) != 2 or "Ustr" not in tys[1] or "[" in tys[1] or "Vec" in tys[1]:
                continue
            singles += 1
            k = "%s/%s" % (short, o.name)
            surfaced(c, [o.path], k)
            ws = o.writes()
            if not c.ob(k + "/one-write", len(ws) == 1 and ws[0].one(), o.where(), "%d writes" % len(ws)):
                continue
            x, d = ws[0], ws[0].one()
            odd = [g for g in oddconds(x.site) if not mentions(g, lambda t: t.op == "C" and t.a[0].split("::")[-1] in (
                "get", "contains_key", "contains") and t.a[-1] is mk("P", 2))]
            c.ob(k + "/always", not odd, x.site.where(), "the write depends on %s" % "; ".join(show(g, 4)[:150] for g in odd))
            if d["k"] == "delete":
                t, rs = deletes(x)
                c.ob(k + "/that-unit", rs == [("unit", mk("P", 2))], x.site.where(), "deletes other rows: %s" % x.text)
                c.ob(k + "/name", "remove" in o.name or "delete" in o.name, o.where(), "an operation named %s deletes" % o.name)
                c.ob(k + "/unconditional", not [g for g in oddconds(x.site)], x.site.where(), "removal depends on %s" % "; ".join(
                    show(g, 4)[:150] for g in oddconds(x.site)))
            else:
                m = colmap_insert(d, x.params, mk("P", 2))
                c.ob(k + "/that-unit", m.get("unit_id") == ("arg",) and d["k"] in ("insert", "replace"), x.site.where(),
                     "does not insert the unit given: %s" % x.text)
                c.ob(k + "/name", "add" in o.name or "insert" in o.name, o.where(), "an operation named %s inserts" % o.name)
                cached = any(mentions(g, lambda t: t.op == "C" and t.a[0].split("::")[-1] in ("get", "contains_key", "contains"))
                             for g in x.site.conds)
                c.ob(k + "/idempotent", d["or"] in ("ignore", "replace") or cached, x.site.where(),
                     "adding a unit that is present already fails: %s" % x.text)
    c.floor("record types read back", pairs, 3)
    c.floor("single-unit operations", singles, 4)
    c.floor("listings", lists, 2)
