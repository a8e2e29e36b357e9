"""Development aid: applies small edits to scratch copies of /repo and reports which checks react.
usage: battery.py NAME... (files of tools/battery, each a list CASES of (name, "breaks"|"keeps", "C01,C02", [(file, old, new)...]))
A case that breaks a property must be reported by every property it names; a case that keeps them by none."""
import concurrent.futures
import os
import queue
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get("BATTERY_WORKERS", "5"))
SCRATCH = os.environ.get("BATTERY_DIR", "/tmp/battery")
slots = queue.Queue()


def prepare(i):
    d = "%s/%d" % (SCRATCH, i)
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(d + "/repo"):
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    if not os.path.isdir(d + "/build"):
        subprocess.run(["cp", "-a", ROOT + "/.build", d + "/build"], check=True)
    return d


def run(case):
    name, kind, props, edits = case
    d = slots.get()
    try:
        shutil.rmtree(d + "/repo/src")
        shutil.copytree("/repo/src", d + "/repo/src")
        for f, o, n in edits:
            p = d + "/repo/" + f
            s = open(p).read()
            if s.count(o) < 1:
                return "NOMATCH  %s: %r" % (name, o[:60])
            open(p, "w").write(s.replace(o, n, 1))
        env = dict(os.environ, TRANE_REPO=d + "/repo", TRANE_BUILD=d + "/build")
        out, bad = [], False
        if props == "*":
            props = ",".join(sorted(x[:-3].upper() for x in os.listdir(ROOT + "/rules") if x[0] == "c" and x.endswith(".py")))
        for p in props.split(","):
            r = subprocess.run([sys.executable, ROOT + "/check.py", p], env=env, capture_output=True, text=True)
            t = r.stdout + r.stderr
            if "could not compile" in t or "error[E" in t:
                return "NOCOMPILE %s %s" % (name, [x for x in t.split("\n") if "error" in x or "-->" in x][:4])
            want = 1 if kind == "breaks" else 0
            if r.returncode != want or "extraction failed" in t:
                bad = True
                open("/tmp/wrong." + p, "w").write(t)
                out.append("   %s rc=%d\n%s" % (p, r.returncode, "\n".join(
                    "      " + x[:400] for x in t.split("\n") if x.startswith("  [") or "error" in x)[:1600]))
            elif want and os.environ.get("BATTERY_V"):
                out.append("   %s %s" % (p, " / ".join(x.strip()[:150] for x in t.split("\n") if x.startswith("  ["))[:300]))
        return ("WRONG    " if bad else "ok       ") + kind + " " + name + ("\n" if out else "") + "\n".join(out)
    finally:
        slots.put(d)


def main():
    cases = []
    for n in sys.argv[1:]:
        ns = {}
        exec(open("%s/tools/battery/%s.py" % (ROOT, n)).read(), ns)
        cases += ns["CASES"]
    if os.environ.get("BATTERY_KEEPS"):       # these checks, on the edits that keep the behaviour
        cases = [(n, k, os.environ["BATTERY_KEEPS"], e) for n, k, _, e in cases if k == "keeps"]
    flt = os.environ.get("BATTERY_ONLY")
    if flt:
        cases = [c for c in cases if flt in c[0]]
    for i in range(min(W, len(cases))):
        slots.put(prepare(i))
    with concurrent.futures.ThreadPoolExecutor(W) as ex:
        for r in ex.map(run, cases):
            print(r, flush=True)


main()
