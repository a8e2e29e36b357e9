"""Recording practice results is all-or-nothing."""
import terms
from stores import *
from rules.c13 import surfaced


def check(c):
    F = c.F
    c.rule = """Every store operation that inserts more than one row (several statements, or one per element of its argument) runs
    all of its writes on one transaction opened on the store's own connection; a successful return requires that the
    commit of that transaction succeeded and that every statement succeeded for every element of the argument (an
    element may be skipped only by a lookup of that very unit among rewards known to be stored); no write bypasses the
    transaction and the transaction is neither committed early nor configured to commit when dropped."""
    n = 0
    for s in stores(F):
        for o in s.ops:
            if not any(d["k"] in ("insert", "replace") for x in o.writes() for d in x.ast):
                continue
            # with nothing to record, nothing has to be done
            terms.ORACLE[0] = lambda t: (False,) if t.op == "C" and t.a[0].split("::")[-1] == "is_empty" and t.a[1] is mk("P", 2) else None
            try:
                o = Op(F, o.path, o.item)
            finally:
                terms.ORACLE[0] = None
            ws = o.writes()
            ins = [x for x in ws if any(d["k"] in ("insert", "replace") for d in x.ast)]
            if not ins or (len(ws) == 1 and not loops(ws[0].site) and
                           not mentions(mk("Arr", *(ws[0].params or [])), lambda t: t.op == "E")):
                continue
            n += 1
            k = "%s/%s" % (s.adt.split("::")[-1], o.name)
            conns = {x.conn for x in ws}
            for x in ws:
                c.ob("%s/in-transaction/%s" % (k, x.one()["k"] + " " + x.one()["table"] if x.one() else "batch"),
                     is_tx(x.conn), x.site.where(), "the write runs directly on the connection: %s" % x.text)
            c.ob(k + "/one-transaction", len(conns) == 1, o.where(), "writes run on %d connections" % len(conns))
            tx = next((x.conn for x in ws if is_tx(x.conn)), None)
            if tx is None:
                continue
            b = base_conn(tx)
            c.ob(k + "/own-connection", b.op == "F" and b.a[0] is mk("P", 1), o.where(), "transaction on %s" % show(b))
            arg = mk("P", 2)
            rets = pos_rets(o.r)
            c.ob(k + "/returns", rets, o.where(), "no successful return")
            for p, fs in rets:
                cs = [f.a[0] for f in fs if f.op == "is" and f.a[1] == "POS" and f.a[0].op == "C"
                      and f.a[0].a[0].split("::")[-1] == "commit" and f.a[0].a[1] is tx]
                c.ob(k + "/committed", cs, o.where(),
                     "a successful return does not require the commit of the transaction to have succeeded")
            for x in o.other:
                last = x.name.split("::")[-1]
                if last in ("set_drop_behavior", "rollback", "finish", "savepoint", "unchecked_transaction"):
                    c.fail("%s/%s" % (k, last), x.where(), "%s changes when the transaction takes effect" % last)
                if last in ("transaction", "transaction_with_behavior", "new_unchecked"):
                    c.ob(k + "/opened-once", not loops(x), x.where(), "a transaction is opened for each record")
            surfaced(c, [o.path], k)
            # every element
            for x in ins:
                d = x.one()
                if not d:
                    c.fail(k + "/statement", x.site.where(), "unknown statement %s" % x.text)
                    continue
                kk = "%s/every-record/%s" % (k, d["table"])
                if all(each(fs, arg, x) for _, fs in rets):
                    c.ob(kk, True, x.site.where(), "∀ records: the insert into %s succeeded" % d["table"])
                    continue
                ls = loops(x.site)
                ok = len(ls) == 1 and ls[0] is arg
                bad = [g for g in oddconds(x.site) if not similar(g)]
                c.ob(kk, ok and not bad, x.site.where(),
                     "the insert into %s is not run for every record: it depends on %s" % (
                         d["table"], "; ".join(show(g, 5)[:200] for g in bad) or "loops over %s" % [show(l, 3) for l in ls]))
    # what counts as stored already must be so: the map consulted follows the database
    c.include("c15", lambda k: "/record" in k and ("after-success" in k or "remembers" in k))
    c.floor("recording operations", n, 3)
    c.assumptions.append("SQLite's transactions are atomic; rusqlite rolls back a dropped transaction that was not committed")


def similar(g):
    """A lookup of the record's own unit among known rewards, true only for a reward equal in value and close in weight and time."""
    for t, fs in alts(g):
        if t is FALSE:
            continue
        got = set(fs)
        if t.op == "Is" and t.a[0].op == "Maybe" and t.a[1] == "POS":
            inner = None
            for u, h in alts(t.a[0].a[0]):
                inner = set(h) if inner is None else inner & set(h)
            got |= inner or set()
        elif t is not TRUE:
            return False
        if not equal(got):
            return False
    return True


def equal(got):
    """The facts say that a known reward equals the record; of alternatives, each."""
    for f in list(got):
        if f.op == "ex":
            got = got | f.a[1]
    if all(any(close(f, n) for f in got) for n in ("value", "weight", "timestamp")):
        return True
    return any(f.op == "or" and all(equal(got - {f} | set(b)) for b in f.a[0]) for f in got)


def close(f, name):
    """The record's field is compared with the same field of a reward stored for the record's unit."""
    if f.op != "is" or f.a[1] is not True or f.a[0].op != "B":
        return False
    op, a, b = f.a[0].a

    def known(t):
        def look(u):
            return u.op == "C" and u.a[0].split("::")[-1] == "get" and len(u.a) == 3 and u.a[2] is rec("unit_id")
        return t.op == "F" and t.a[1] == name and mentions(t.a[0], look)

    def rec(n):
        return mk("F", mk("E", mk("P", 2)), n)

    def pair(x, y):
        return x is rec(name) and known(y) or y is rec(name) and known(x)
    if op == "Eq":
        return pair(a, b)
    if name == "value" or op not in ("Lt", "Le"):
        return False
    if b.op == "K" and a.op == "C" and a.a[0].split("::")[-1] == "abs_diff":
        return pair(a.a[1], a.a[2])
    if b.op == "K" and a.op == "C" and a.a[0].split("::")[-1] == "abs" and a.a[1].op == "B" and a.a[1].a[0] == "Sub":
        return pair(a.a[1].a[1], a.a[1].a[2])
    return False
