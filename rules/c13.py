"""Failed writes are reported, never swallowed."""
from q import *
from results import *

FS = ("std::fs::write", "std::fs::create_dir", "std::fs::create_dir_all", "std::fs::copy", "std::fs::rename", "std::fs::remove_file",
      "std::fs::remove_dir", "std::fs::remove_dir_all", "std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open",
      "std::io::Write::write_all", "std::io::Write::write", "std::io::Write::write_fmt", "std::io::Write::flush", "std::fs::File::sync_all",
      "std::fs::File::sync_data", "std::fs::hard_link", "std::fs::File::set_len", "std::io::copy",
      "tempfile::NamedTempFile::persist", "tempfile::NamedTempFile::new_in", "tempfile::TempPath::persist")
DB = ("execute", "execute_batch", "commit", "to_latest", "to_version", "pragma_update", "transaction", "rollback", "insert",
      "transaction_with_behavior", "savepoint", "finish")


def primitive(fr):
    p = short(fr.get("path", ""))
    if p in FS or p.startswith("tempfile::") and p.split("::")[-1] in ("persist", "new_in", "persist_noclobber", "new", "keep", "tempfile"):
        return True
    last = p.split("::")[-1]
    if "rusqlite" in fr.get("path", "").split("::")[0] and last in DB:
        return True
    if p.startswith("serde_json::to_writer") or p.endswith("serde_yaml::to_writer"):
        return True
    return False


def check(c):
    F = c.F
    c.rule = """Every call that may write to a database or to the file system (the primitives, and every function or trait method of
    the crate from which one is reachable) and that returns a Result is followed through the body of its caller: on every
    path the failure must be handed on (by ?, by returning or storing it in the caller's own Result, through
    map_err/context, or by collecting into a Result), or end the program; a result dropped, turned into an Option or a
    default, or skipped by a flattening iterator is a violation. The callers' own results are followed in turn, up to the
    public interface."""
    ls, prim, eff = losses(F)
    for p, name, why, w in ls:
        c.ob("%s/%s" % (p, name), why is None, w, "the failure of %s is lost: %s" % (name, why))
    n = len(ls)
    c.floor("calls that may write", n, 60)
    c.floor("write primitives", prim, 30)
    c.analysed["functions that may write"] = len(eff)


def losses(F):
    """(function, callee, why its failure may be lost or None, where) of every call that may write."""
    if hasattr(F, "_losses"):
        return F._losses
    eff = set()
    rev = {}
    for p, f in F.fns.items():
        for q in F.callees(f):
            rev.setdefault(q, set()).add(p)
    st = []
    prim = 0
    for p, f in F.fns.items():
        for _, t in f.calls():
            if primitive(t.get("f") or {}):
                prim += 1
                st.append(p)
    while st:
        p = st.pop()
        if p not in eff:
            eff.add(p)
            st += rev.get(p, ())
    out = []
    for p, f in sorted(F.fns.items()):
        if not F.in_scope(f):
            continue
        fl = None
        for b, t in f.calls():
            fr = t.get("f")
            dt = t.get("dt") or ""
            if not fr or not has_result(dt) or fr.get("trait") in ("std::ops::Try", "std::ops::FromResidual"):
                continue
            tgt = F.resolve(fr)
            cbs = [x for x in fr.get("cb", []) if x in eff]
            if not (primitive(fr) or any(x in eff for x in tgt)):
                # a combinator running an effectful closure hands its result on as well
                if not cbs:
                    continue
            fl = fl or Flow(F, f)
            why = fl.lost(b, t["d"][0]) if t["t"] is not None else None
            name = short(fr["path"])
            if why is None and name == "std::io::Write::write" and not fl.cyclic(b):
                why = "it may write only a part, and nothing writes the rest"
            out.append((p, name, why, "%s:%s" % tuple((t.get("sp") or f.span)[:2])))
    F._losses = (out, prim, eff)
    return F._losses


def surfaced(c, roots, what):
    """No failure of a write is lost anywhere below the roots."""
    reach = c.F.reachable(roots)
    n = 0
    for p, name, why, w in losses(c.F)[0]:
        if p in reach:
            n += 1
            c.ob("%s/reported/%s/%s" % (what, p, name), why is None, w, "the failure of %s is lost: %s" % (name, why))
    return n
