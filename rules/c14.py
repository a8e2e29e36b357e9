"""Databases are always brought to a schema compatible with earlier releases."""
from stores import *
import json
import os

import layout

FROZEN = os.path.join(os.path.dirname(__file__), "c14_released.json")


def norm(text):
    return [repr(d) for d in sql.parse(text or "")]


def check(c):
    c.rule = """The migration list of each store is read off its constructor. Every public constructor's successful return requires
    the migrations to have been applied to the very connection the store keeps, before any other statement on it; the list
    begins with the released migrations, unchanged and in order (they are frozen in the checker, since users' databases
    record how many have run); every migration applies to the schema left by its predecessors; its `down` script exactly
    undoes its `up` script. Each database is looked for where earlier releases kept it."""
    layout.check(c, c.F, layout.FILES)
    frozen = json.load(open(FROZEN))
    n = 0
    for s in stores(c.F):
        k = s.adt.split("::")[-1]
        c.ob(k + "/migrations", s.migrations, "", "no migration list found in any constructor")
        if not s.migrations:
            continue
        ups = [updown(m) for m in s.migrations]
        sch = sql.Schema()
        for i, (up, down) in enumerate(ups):
            n += 1
            kk = "%s/migration %d" % (k, i + 1)
            if not c.ob(kk + "/constant", up is not None, "", "migration text is not constant"):
                break
            try:
                before = sch.snapshot()
                for d in sql.parse(up):
                    sch.apply(d)
                c.ob(kk + "/applies", True, "", up)
            except sql.SqlError as e:
                c.fail(kk + "/applies", "", "%s: %s" % (e, up))
                break
            if not c.ob(kk + "/reversible", down is not None, "", "no down script for %s" % up):
                continue
            try:
                t = sql.Schema()
                for u, _ in ups[:i + 1]:
                    for d in sql.parse(u):
                        t.apply(d)
                for d in sql.parse(down):
                    t.apply(d)
                c.ob(kk + "/undone", t.snapshot() == before, "", "%s does not undo %s" % (down, up))
            except sql.SqlError as e:
                c.fail(kk + "/undone", "", "%s: %s" % (e, down))
        fz = frozen.get(s.adt)
        if c.ob(k + "/released", fz is not None or s.adt not in frozen, "", ""):
            for i, u in enumerate(fz or []):
                ok = i < len(ups) and ups[i][0] is not None
                try:
                    ok = ok and norm(ups[i][0]) == norm(u)
                except sql.SqlError:
                    ok = False
                c.ob("%s/released/%d" % (k, i + 1), ok, "", "released migration %d was changed, moved, or removed: %s -> %s" % (
                    i + 1, u, ups[i][0] if i < len(ups) else None))
        for o in s.ctors:
            rets = pos_rets(o.r)
            c.ob("%s/%s/returns" % (k, o.name), rets, o.where(), "")
            for p, fs in rets:
                conn = next((field(p, f["name"]) for f in c.F.adts[s.adt]["variants"][0]["fields"]
                             if "rusqlite::Connection" in f["ty"]), None)
                ml = [f.a[0] for f in fs if f.op == "is" and f.a[1] == "POS" and f.a[0].op == "C"
                      and f.a[0].a[0].split("::")[-1] == "to_latest" and f.a[0].a[-1] is conn]
                c.ob("%s/%s/migrated" % (k, o.name), ml, o.where(),
                     "a constructor returns the store without having migrated its connection %s" % (conn and show(conn, 4)))
            first = [x for x in o.other if x.name.split("::")[-1] == "to_latest"]
            for x in o.stmts:
                ok = any(f.op == "is" and f.a[1] == "POS" and f.a[0].op == "C" and f.a[0].a[0].split("::")[-1] == "to_latest"
                         for f in x.site.facts)
                c.ob("%s/%s/order" % (k, o.name), ok, x.site.where(), "a statement runs before the migrations: %s" % x.text)
            c.ob("%s/%s/applies" % (k, o.name), first, o.where(), "no migration is applied")
            for x in o.other:
                if x.name.split("::")[-1] == "to_version":
                    c.fail("%s/%s/to_version" % (k, o.name), x.where(), "migrates to a fixed version")
    c.floor("migrations", n, 12)
    c.floor("constructors", sum(len(s.ctors) for s in stores(c.F)), 5)
    for a in frozen:
        c.ob("store/" + a.split("::")[-1], a in [s.adt for s in stores(c.F)] or
             any(s.adt.split("::")[-1] == a.split("::")[-1] for s in stores(c.F)), "", "store %s is gone" % a)
    c.assumptions.append("rusqlite_migration applies the migrations in order and records how many have run")
