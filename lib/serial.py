"""How the program's types are written and read: their serde attributes and the shape they give the files."""
import re

EXTERN = ("std::", "ustr::", "alloc::", "core::", "chrono::")
ONE_WAY = ("skip", "skip_serializing", "skip_deserializing", "skip_serializing_if", "untagged", "tag", "content", "flatten", "from", "into",
           "try_from", "with", "serialize_with", "deserialize_with", "remote", "getter", "other", "transparent")
NEUTRAL = ("default", "alias", "crate", "bound", "borrow", "deny_unknown_fields", "expecting")


def serde(item):
    """{name: value} of an item's serde attributes."""
    out = {}
    for a in item.get("attrs") or []:
        m = re.match(r"serde\((.*)\)$", a, re.S)
        if m:
            for kv in m.group(1).split(";"):
                if kv:
                    k, _, v = kv.partition("=")
                    out.setdefault(k, []).append(v)
    return out


def cased(name, how):
    words = [w for w in re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", name).split("_") if w]
    low = [w.lower() for w in words]
    return {"lowercase": "".join(low), "UPPERCASE": "".join(low).upper(), "PascalCase": "".join(w.capitalize() for w in low),
            "camelCase": low[0] + "".join(w.capitalize() for w in low[1:]), "snake_case": "_".join(low),
            "SCREAMING_SNAKE_CASE": "_".join(low).upper(), "kebab-case": "-".join(low), "SCREAMING-KEBAB-CASE": "-".join(low).upper()}.get(how)


def side(v, which):
    """The value of rename = ".." or rename(serialize = "..", deserialize = "..")."""
    m = re.match(r"\[(.*)\]$", v)
    if not m:
        return v
    for kv in m.group(1).split(","):
        k, _, x = kv.partition(":")
        if k == which:
            return x
    return None


def named(item, outer, which):
    a = serde(item)
    for v in a.get("rename", []):
        x = side(v, which)
        if x:
            return x
    for v in outer:
        x = side(v, which)
        if x:
            return cased(item["name"], x) or "?" + x
    return item["name"]


class Serial:
    def __init__(self, F):
        self.F = F

    def mentioned(self, ty):
        return [t for t in re.findall(r"[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)*", ty) if t in self.F.adts]

    def reach(self, roots):
        seen, st = [], list(roots)
        while st:
            t = st.pop()
            if t in seen or t not in self.F.adts:
                continue
            seen.append(t)
            for v in self.F.adts[t]["variants"]:
                for f in v["fields"]:
                    if not set(serde(f)) & {"skip"}:
                        st += self.mentioned(f["ty"])
        return sorted(seen)

    def derived(self, ty, tr):
        """Whether a type's implementation is the derived one (None: it has none)."""
        head = "serde::Serialize for " if tr == "Serialize" else "serde::Deserialize<'de> for "
        if any("::_::<impl " + head + ty + ">::" in p or p.startswith("_::<impl " + head + ty + ">::") for p in self.F.fns):
            return True
        if any(p.startswith("<" + ty + " as serde::" + tr) for p in self.F.fns):
            return False
        return None

    def read_from_json(self):
        """The local types that files are parsed into, with the calls that do it."""
        out = {}
        for p, f in self.F.fns.items():
            for _, t in f.calls():
                fr = t.get("f") or {}
                q = fr.get("path", "")
                last = q.split("::")[-1]
                if last in ("from_reader", "from_str", "from_slice", "from_value", "open_manifest", "open", "open_serialized", "open_yml_list") and (
                        "serde" in q or q in self.F.fns):
                    for a in fr.get("args") or []:
                        for ty in self.mentioned(str(a)):
                            out.setdefault(ty, (p, t.get("sp")))
        return out

    def category(self, ty):
        """What a type looks like in a file."""
        ty = ty.strip()
        m = re.match(r"(?:std::option::Option|std::sync::Arc|std::boxed::Box|std::rc::Rc)<(.*)>$", ty)
        if m:
            return self.category(m.group(1))
        if ty in ("std::string::String", "ustr::Ustr", "std::path::PathBuf", "&str"):
            return "string"
        if re.match(r"[iu](8|16|32|64|128|size)$", ty):
            return ty.replace("size", "64")
        if ty in ("f32", "f64"):
            return "number"
        if ty in ("bool", "char"):
            return ty
        m = re.match(r"(?:std::vec::Vec|std::collections::(?:HashSet|BTreeSet|VecDeque))<(.*?)(?:, std::.*Hasher.*)?>$", ty)
        if m:
            return "[%s]" % self.category(m.group(1))
        m = re.match(r"std::collections::(?:HashMap|BTreeMap)<(.*)>$", ty)
        if m:
            return "{%s}" % ", ".join(self.category(x) for x in split(m.group(1))[:2])
        m = re.match(r"\((.*)\)$", ty)
        if m:
            return "(%s)" % ", ".join(self.category(x) for x in split(m.group(1)))
        return ty.split("<")[0].split("::")[-1]

    def layout(self, ty):
        """What is accepted when the type is read: {variant: {"names", "keys": {name: {names, required, category, default}}}}."""
        a = self.F.adts[ty]
        own = serde(a)
        out = {"strict": "deny_unknown_fields" in own, "odd": sorted(set(own) & set(ONE_WAY)), "kind": a["kind"], "variants": {}}
        for v in a["variants"]:
            va = serde(v)
            ks = {}
            for f in v["fields"]:
                fa = serde(f)
                outer = va.get("rename_all", []) or (own.get("rename_all", []) if a["kind"] != "Enum" else own.get("rename_all_fields", []))
                n = named(f, outer, "deserialize")
                ks[n] = {"names": sorted({n} | set(fa.get("alias", []))), "odd": sorted(set(fa) & set(ONE_WAY)),
                         "required": not ("default" in fa or "default" in own or f["ty"].startswith("std::option::Option<") and not
                                          set(fa) & {"with", "deserialize_with"}),
                         "default": (fa.get("default") or own.get("default") or [""])[0] if "default" in fa or "default" in own else None,
                         "category": self.category(f["ty"])}
            n = named(v, own.get("rename_all", []) if a["kind"] == "Enum" else [], "deserialize")
            out["variants"][n] = {"names": sorted({n} | set(va.get("alias", []))), "odd": sorted(set(va) & set(ONE_WAY)), "keys": ks,
                                  "tuple": bool(v["fields"]) and v["fields"][0]["name"] == "0", "unit": not v["fields"]}
        return out


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "<([" and 1 or 0
        d -= ch in ">)]" and 1 or 0
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])
