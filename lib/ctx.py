"""Builds the driver, extracts the facts from /repo's current source, and runs one rule."""
import fcntl
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TRANE_REPO", "/repo")
BUILD = os.environ.get("TRANE_BUILD") or os.path.join(ROOT, ".build")
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, ROOT)

from facts import Facts  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    d = os.path.join(BUILD, "driver")
    env = dict(os.environ, CARGO_TARGET_DIR=d)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    r = sh(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(ROOT, "driver"), env=env)
    if r.returncode:
        raise SystemExit("driver build failed:\n" + r.stdout[-4000:])
    return os.path.join(d, "debug", "trane-facts")


def forget(tgt):
    """Makes cargo compile the crate again, whatever the times of its files say (both layouts of the target directory)."""
    for d in (".fingerprint", "build"):
        d = os.path.join(tgt, "debug", d)
        for x in os.listdir(d) if os.path.isdir(d) else ():
            if x == "trane" or x.startswith("trane-"):
                shutil.rmtree(os.path.join(d, x))


def extract():
    """Runs the driver over /repo under cargo check (the real build's configuration)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        tgt = os.path.join(BUILD, "target")
        out = os.path.join(BUILD, "facts")
        os.makedirs(out, exist_ok=True)
        # cache on the exact content of the sources and of the driver: only skips re-extraction of identical input
        h = hashlib.sha256()
        for base, dirs, files in os.walk(REPO):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "tests", "books"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(base, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        with open(drv, "rb") as fh:
            h.update(fh.read())
        stamp = os.path.join(out, "stamp")
        lib = os.path.join(out, "trane.lib.json")
        dig = h.hexdigest()
        if not (os.path.exists(stamp) and os.path.exists(lib) and open(stamp).read() == dig):
            forget(tgt)
            for x in os.listdir(out):
                os.unlink(os.path.join(out, x))
            sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
            env = dict(os.environ, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt, TRANE_FACTS_OUT=out, CARGO_INCREMENTAL="0",
                       LD_LIBRARY_PATH=sysroot + "/lib")
            cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--bins"]
            r = sh(cmd, cwd=REPO, env=env)
            if not r.returncode and not os.path.exists(lib):
                shutil.rmtree(tgt)
                r = sh(cmd, cwd=REPO, env=env)
            if r.returncode or not os.path.exists(lib):
                raise SystemExit("extraction failed:\n" + r.stdout[-4000:])
            with open(stamp, "w") as f:
                f.write(dig)
        return Facts(lib)


class Ctx:
    """What a rule sees and reports through."""

    def __init__(self, F, prop, tier):
        self.F = F
        self.prop = prop
        self.tier = tier
        self.obligations = []      # (key, ok, where, text)
        self.assumptions = []
        self.analysed = {}
        self.rule = ""

    def ob(self, key, ok, where="", text=""):
        self.obligations.append((key, bool(ok), where, text))
        return ok

    def fail(self, key, where="", text=""):
        self.ob(key, False, where, text)

    def floor(self, what, n, least):
        """Fail closed when fewer instances than confirmed by hand are found."""
        self.analysed[what] = n
        self.ob("floor/" + what, n >= least, "", "%d instances of %s found, at least %d expected" % (n, what, least))

    def include(self, rule, keep):
        """Obligations of another rule that this property rests on as well."""
        m = importlib.import_module("rules." + rule)
        sub = Ctx(self.F, self.prop, self.tier)
        m.check(sub)
        n = 0
        for k, ok, w, t in sub.obligations:
            if keep(k):
                n += 1
                self.ob("%s:%s" % (rule.upper(), k), ok, w, t)
        self.analysed["obligations shared with " + rule.upper()] = n
        return n

    def to_the_end(self, key, sites):
        """No loop around the sites is left before it has seen everything."""
        from q import cut_short
        for s in sites:
            for w in sorted(set(cut_short(self.F, s))):
                self.fail(key + "/to-the-end", w, "the loop is left before it has seen everything")

    def fn(self, suffix, required=True):
        """The unique local function with the path suffix."""
        c = [p for p in self.F.fns
             if any(q == suffix or q.endswith("::" + suffix) for q in (p, p.replace("<", "").replace(">", "")))]
        if len(c) == 1:
            return c[0]
        if required:
            self.fail("anchor/" + suffix, "", "anchor %s resolves to %d functions" % (suffix, len(c)))
        return None


def known(prop):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s key=" % prop):
                rest = ln[len("finding: property=%s key=" % prop):]
                k, _, txt = rest.partition(" :: ")
                out[k] = txt
    return out


def run(prop, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    F = extract()
    mod = importlib.import_module("rules." + prop.lower())
    c = Ctx(F, prop, tier)
    try:
        mod.check(c)
    except Exception as e:   # an analysis that breaks down gives no assurance: report it as a violation of the rule
        import traceback
        tb = traceback.format_exc()
        c.fail("analysis-error", "", "the analysis could not decide: %s\n%s" % (e, tb))
    kf = known(prop)
    bad, kn = {}, {}
    for k, ok, w, t in c.obligations:
        if not ok:
            (kn if k in kf else bad).setdefault(k, []).append((w, t))
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    keys = {}
    for k, ok, w, t in c.obligations:
        keys.setdefault(k, []).append(ok)
    nok = sum(1 for v in keys.values() if all(v))
    doc = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "other",
        "coverage": {
            "explanation": "static analysis of /repo's current source (type-checked MIR of every function of the crate "
                           "as built by cargo check): " + " ".join(c.rule.split()),
            "obligations": len(keys), "discharged": nok,
            "functions_in_program": len(F.fns), "analysed": c.analysed,
            "samples": [{"obligation": k, "at": w, "holds": ok, "detail": t[:400]} for k, ok, w, t in
                        c.obligations[:12]],
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for k, v in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[k] or k))
    print("%s: %d obligations, %d discharged, analysed %s, %.1fs" % (prop, len(keys), nok, c.analysed, time.time() - t0))
    if bad:
        rp = os.path.join(ev, prop + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s: %s\n\n" % (prop, " ".join(c.rule.split())))
            for k, v in sorted(bad.items()):
                for w, t in v:
                    f.write("[%s]\n  at %s\n  %s\n\n" % (k, w, t))
        for k, v in sorted(bad.items()):
            print("  [%s] %s %s" % (k, v[0][0], v[0][1][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
