#!/usr/bin/env python3
"""seed.py new <id> <property> <needs> <breaks>  < edits (python: list of (file, old, new)) ; demo.rs must exist in /tmp/seed/<id>.rs
   seed.py verify <id>...   demo on clean tree, with patch; build; stable tests; the property's check"""
import sys, os, json, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")
def run(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def new(sid, prop, needs, breaks, edits, demo):
    d = os.path.join(S, sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    run("git -C /repo worktree prune; git clone -q /repo %s/r" % w)
    for f, a, b in edits:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        if s.count(a) != 1:
            shutil.rmtree(w)
            raise SystemExit("%s: pattern occurs %d times in %s: %s" % (sid, s.count(a), f, a[:80]))
        open(p, "w").write(s.replace(a, b))
    diff = run("git -C %s/r diff" % w).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    rocks = demo.startswith("//rocks")           # needs RocksDB: compiled against what build.sh built
    for f in ("demo.sh",) if rocks else ("demo.sh", "h.rs", "Cargo.lock"):
        shutil.copy(os.path.join(ROOT, "tools/demo_rocks" if rocks else "tools/demo", f), d)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def verify(sid, tests=True):
    d = os.path.join(S, sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not run("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    run("bash /opt/vp/build.sh")
    r0 = run("bash %s/demo.sh" % d, cwd="/repo")
    out = {"clean": r0.returncode}
    a = run("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(sid, "patch does not apply", a.stderr); return
    try:
        b = run("bash /opt/vp/build.sh")
        out["build"] = b.returncode
        r1 = run("bash %s/demo.sh" % d, cwd="/repo")
        out["patched"] = r1.returncode
        if tests:
            t = run("bash /opt/vp/test.sh /tmp/o.json")
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            ps = set(json.load(open("/tmp/o.json"))["passed"])
            out["tests_lost"] = sorted(st - ps)
        if os.path.exists(os.path.join(ROOT, "rules", prop.lower() + ".py")):
            c = run("python3 check.py " + prop, cwd=ROOT)
            out["check"] = c.returncode
            out["why"] = [l.strip() for l in c.stdout.splitlines() if l.startswith("  [")][:3]
    finally:
        run("git -C /repo checkout -- .")
    good = out["clean"] == 0 and out["patched"] not in (0, 3) and (not tests or (out["build"] == 0 and not out["tests_lost"]))
    print(sid, prop, "VALID" if good else "INVALID", "CAUGHT" if out.get("check") == 1 else "MISSED" if "check" in out else "NOCHECK", json.dumps(out))
    if not good:
        print("  clean:", r0.stderr[-300:], "\n  patched:", r1.stdout[-200:], r1.stderr[-600:])
if __name__ == "__main__":
    if sys.argv[1] == "verify":
        for s in sys.argv[2:] or sorted(os.listdir(S)):
            verify(s)
    elif sys.argv[1] == "fast":
        for s in sys.argv[2:] or sorted(os.listdir(S)):
            verify(s, False)
    elif sys.argv[1] == "load":
        g = {}
        exec(open(sys.argv[2]).read(), g)
        for x in g["SEEDS"]:
            new(*x)
