"""What becomes of the Result of a call: a path-sensitive forward flow over MIR."""
from facts import operands, short

KEEP = set("""map_err context with_context map and_then or_else from into from_residual as_ref as_mut transpose inspect_err inspect
from_error ok_or ok_or_else""".split())        # result in, result out
LAZY = set("""map into_iter iter flat_map chain enumerate zip rev take skip filter inspect map_while scan par_iter into_par_iter
from_par_iter cloned copied by_ref""".split())         # iterator in, iterator out
SINK = set("""branch unwrap expect collect sum product try_for_each try_fold from_iter join unwrap_err""".split())
SWALLOW = set("""ok err unwrap_or unwrap_or_default unwrap_or_else is_ok is_err is_ok_and map_or map_or_else flatten filter_map count last drop
for_each unwrap_unchecked fold""".split())


def has_result(ty):
    return "Result<" in ty or "ControlFlow<" in ty


class Flow:
    def __init__(self, F, f):
        self.F, self.f = F, f
        self.uses = {}
        for i, b in enumerate(f.blocks):
            if not b:
                continue
            for s in b["s"]:
                if s[0] == "=":
                    self._rv(i, s)
            t = b["t"]
            if t["k"] == "call":
                for j, a in enumerate(t["a"]):
                    if a[0] in ("C", "M"):
                        self.uses.setdefault(a[1][0], []).append((i, "arg", (t, j, a[1])))
            elif t["k"] == "return":
                self.uses.setdefault(0, []).append((i, "return", None))

    def _rv(self, i, s):
        r = s[2]
        for o in operands(r):
            if o[0] in ("C", "M"):
                self.uses.setdefault(o[1][0], []).append((i, "move", (s, o[1])))
        if r[0] in ("ref", "addr", "copyref"):
            for x in r[1:]:
                if isinstance(x, list) and x and isinstance(x[0], int):
                    self.uses.setdefault(x[0], []).append((i, "ref", (s, x)))
        if r[0] in ("discr",):
            self.uses.setdefault(r[1][0], []).append((i, "discr", (s, r[1])))

    def good(self, local, seen=None):
        """(blocks where the failure in `local` is passed on, reasons of uses that lose it)."""
        seen = set() if seen is None else seen
        if local in seen:
            return set(), []
        seen.add(local)
        good, bad = set(), []
        for i, kind, x in self.uses.get(local, ()):
            if kind == "return":
                good.add(i)
            elif kind == "arg":
                t, j, pl = x
                fr = t.get("f") or {}
                last = short(fr.get("path", "?")).split("::")[-1]
                d = t.get("d")
                dt = t.get("dt") or ""
                if last == "or" and j == 0 and not self._fails(t["a"][1]) or last == "or_else" and j == 0 and self._recovers(fr):
                    bad.append("replaced by another result (%s) at line %s" % (last, (t.get("sp") or [0, 0])[1]))
                elif last in SWALLOW:
                    bad.append("%s at line %s" % (last, (t.get("sp") or [0, 0])[1]))
                elif last in ("collect", "sum", "product", "from_iter") and not has_result(dt):
                    bad.append("collected into %s" % dt[:60])
                elif last in SINK:
                    if last in ("branch", "unwrap", "expect", "join"):
                        good.add(i)
                    else:
                        g, b = self.good(d[0], seen)
                        good |= {i} if g else set()
                        bad += b
                elif last in KEEP or last in LAZY or has_result(dt) or "Error" in dt or "impl" in dt:
                    g, b = self.good(d[0], seen)
                    good |= {i} if g else set()
                    bad += b
                elif last == "next":
                    g, b = self.good(d[0], seen)
                    good |= {i} if g else set()
                    bad += b
                else:
                    bad.append("passed to %s at line %s" % (last, (t.get("sp") or [0, 0])[1]))
            elif kind == "move":
                s, pl = x
                if len(pl) > 1:      # a projection: the error payload of a match
                    v = [p for p in pl[1:] if isinstance(p, list) and p[0] == "v"]
                    if v and v[0][1] in ("Ok", "Some", "Continue"):
                        if v[0][1] == "Some" or has_result(self.f.locals[s[1][0]]):
                            g, b = self.good(s[1][0], seen)
                            good |= {i} if g else set()
                            bad += b
                        continue
                g, b = self.good(s[1][0], seen)
                good |= {i} if g else set()
                bad += b
            elif kind == "ref":
                s, pl = x
                g, b = self.good(s[1][0], seen)
                good |= {i} if g else set()
                bad += b
            elif kind == "discr":
                pass
        return good, bad

    def _fails(self, o):
        """The operand is an error made here."""
        if o[0] not in ("C", "M"):
            return False
        for b in self.f.blocks:
            for s in b["s"] if b else ():
                if s[0] == "=" and s[1] == o[1] and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][2] == "Err":
                    return True
        return False

    def _recovers(self, fr):
        """A closure given to or_else makes a success itself."""
        for p in fr.get("cb", []):
            f = self.F.fns.get(p)
            for b in f.blocks if f else ():
                for s in b["s"] if b else ():
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][2] == "Ok":
                        return True
        return False

    def cyclic(self, block):
        seen, st = set(), list(self.f.succ(block))
        while st:
            b = st.pop()
            if b == block:
                return True
            if b is not None and b not in seen:
                seen.add(b)
                st += self.f.succ(b)
        return False

    def lost(self, block, local):
        """Why the failure of the result written to `local` by the call in `block` may get lost, or None."""
        good, bad = self.good(local)
        t = self.f.blocks[block]["t"]
        if local == 0:
            return None
        if not good:
            return bad[0] if bad else "it is ignored"
        # every path to the return passes a use that hands the failure on, or the knowledge that there was none
        st, seen = [t["t"]], set()
        while st:
            b = st.pop()
            if b is None or b in seen or b in good:
                continue
            seen.add(b)
            k = self.f.blocks[b]["t"]["k"]
            if k == "return":
                return "a path returns without looking at it" + (" (%s)" % bad[0] if bad else "")
            for s in self.f.succ(b):
                st.append(s)
            tt = self.f.blocks[b]["t"]
            if k == "switch" and tt["d"][0] in ("C", "M") and self._discr_of(b, tt["d"][1][0]) in self._aliases(local):
                # the variant without a failure needs nothing more
                vs = {str(v): x for v, x in tt["ts"]}
                fine = vs["0"] if "0" in vs else tt["o"] if "1" in vs else None
                bad_ = [x for v, x in vs.items() if v != "0"] + ([tt["o"]] if "0" in vs else [])
                st = [s for s in st if s != fine or s in bad_]
        return None

    def _aliases(self, local):
        out, st = set(), [local]
        while st:
            l = st.pop()
            if l in out:
                continue
            out.add(l)
            for i, kind, x in self.uses.get(l, ()):
                if kind in ("move", "ref") and len(x[1]) == 1 and len(x[0][1]) == 1:
                    st.append(x[0][1][0])
                if kind == "arg":
                    t, j, pl = x
                    if short((t.get("f") or {}).get("path", "")).split("::")[-1] in KEEP:
                        st.append(t["d"][0])
        return out

    def _discr_of(self, b, local):
        for s in self.f.blocks[b]["s"]:
            if s[0] == "=" and s[1] == [local] and s[2][0] == "discr":
                return s[2][1][0]
        return None
