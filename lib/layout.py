"""Where the files of a library are, in this release and the earlier ones."""
from absint import Engine
from terms import *

FILES = {"practice_stats::LocalPracticeStats": ".trane/practice_stats.db", "practice_deltas::LocalPracticeDeltas": ".trane/practice_deltas.db",
         "practice_rewards::LocalPracticeRewards": ".trane/practice_rewards.db", "blacklist::LocalBlacklist": ".trane/blacklist.db",
         "review_list::LocalReviewList": ".trane/review_list.db"}
SAVED = {"filter_manager::LocalFilterManager": ".trane/filters", "study_session_manager::LocalStudySessionManager": ".trane/study_sessions",
         "preferences_manager::LocalPreferencesManager": ".trane/user_preferences.json"}
PLAIN = {"to_str", "new", "as_ref", "as_path", "to_path_buf", "to_string_lossy", "display", "as_os_str", "from", "into", "to_owned", "to_string", "clone"}


def split(t):
    """(what the path starts from, the constant names joined to it)."""
    while t.op == "Pos" or t.op == "F" and t.a[1] in ("ok", "some") or t.op == "C" and t.a[0].split("::")[-1] in PLAIN and len(t.a) == 2:
        t = t.a[-1] if t.op == "C" else t.a[0]
    if t.op == "C" and t.a[0].split("::")[-1] in ("join", "push"):
        b, n = split(t.a[1])
        p = split(t.a[2])[0]
        if p.op == "K" and p.a[0] == "str":
            return b, n + [x for x in str(p.a[1]).split("/") if x not in ("", ".")]
    return t, []


def check(c, F, want):
    roots = [p for p, f in F.fns.items() if f.d.get("pub") and not f.parent_fn and F.in_scope(f) and
             any(f.locals[0].startswith("std::result::Result<%s," % a) for a in F.adts if a.split("::")[-1] == "Trane")]
    c.ob("layout/found", roots, "src/lib.rs", "nothing opens a library")
    types = dict(FILES, **SAVED)
    for p in sorted(roots):
        mine = lambda q: q in F.fns and any(x in F.fns[q].locals[0] for x in types)
        E = Engine(F, opaque=lambda q: q in F.fns and ("::Local" in q or q.startswith("Local")), watch_call=mine, watch_adts=tuple(types))
        r = E.run(p)
        c.analysed["functions"] = c.analysed.get("functions", 0) + len(E.visited)
        seen, bases = {}, set()
        for s in r.sites:
            for t in types:
                if s.kind == "call" and s.name in F.fns and t in F.fns[s.name].locals[0] and s.args:
                    a = s.args[0]
                elif s.kind == "agg" and s.name == t:
                    a = s.args[0][1]
                else:
                    continue
                b, names = split(a)
                bases.add(b)
                seen.setdefault(t, []).append("/".join(names))
                if t in want:
                    c.ob("layout/%s/%s" % (p.split("::")[-1], t.split("::")[-1]), "/".join(names) == want[t], s.where(),
                         "%s is opened at %s, where no release has kept it" % (t, show(a, 8)[:150]))
        for t in want:
            c.ob("layout/%s/opened" % p.split("::")[-1], t in seen, p, "%s is never opened" % t)
        c.ob("layout/%s/root" % p.split("::")[-1], len(bases) == 1, p, "the files are kept under different roots: %s" % [show(b, 6)[:80] for b in bases])
