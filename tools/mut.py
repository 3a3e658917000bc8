#!/usr/bin/env python3
"""mut.py FILE.py [ids..]: FILE defines M = [(id, kind 'bug'|'ref', expected ids or '', [(file, old, new), ...]), ...].
Applies each to a scratch copy of /repo and runs tools/all.py there; reports bugs not caught and refactorings not quiet."""
import sys, os, re, subprocess, shutil, importlib.util, queue, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("m", sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
sel = sys.argv[2:]
Q = queue.Queue()
for m in mod.M:
    if not sel or m[0] in sel:
        Q.put(m)
W = int(os.environ.get("WORKERS", "4"))
lock = threading.Lock()
summary = []


def worker(i):
    d = os.environ.get("MW", "/tmp/mw") + "/%d" % i
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/build"):
        subprocess.run(["cp", "-a", ROOT + "/build", d + "/build"], check=True)
    while True:
        try:
            mid, kind, exp, edits = Q.get_nowait()
        except queue.Empty:
            break
        repo = d + "/repo"
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(repo)
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + repo, shell=True, check=True)
        bad = None
        for f, a, b in edits:
            if f.startswith("*"):               # a word everywhere (in the files with this suffix)
                for root, _, fs in os.walk(repo + "/omnipaxos/src"):
                    for x in fs:
                        p = os.path.join(root, x)
                        if p.endswith(f[1:]):
                            s = open(p).read()
                            open(p, "w").write(re.sub(r"\b%s\b" % a, b, s))
                continue
            if "@" in f:                        # one line, by its number
                p, n = f.split("@")
                p, n = os.path.join(repo, p), int(n)
                ls = open(p).read().split("\n")
                ls[n - 1] = b
                open(p, "w").write("\n".join(ls))
                continue
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(a) != 1:
                bad = "edit matches %d times: %r" % (s.count(a), a[:60])
                break
            open(p, "w").write(s.replace(a, b))
        if bad:
            out = "BADMUT " + bad
            res = "?"
        else:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=d + "/build", JOBS="3")
            r = subprocess.run([sys.executable, ROOT + "/tools/all.py"] + os.environ.get("RULES", "").split(), env=env, capture_output=True, text=True)
            out = r.stdout + r.stderr[-800:]
            res = [l for l in out.splitlines() if l.startswith("RESULT")]
            res = res[0].split()[1] if res else "CRASH"
        caught = set(res.split(","))
        if "cargo check failed" in out:
            v = "NOBUILD"
        elif bad:
            v = "BADMUT"
        elif kind == "bug":
            v = "caught" if (set(exp.split()) & caught) else ("other " if res != "quiet" else "MISSED")
        else:
            v = "quiet" if res == "quiet" else "ALARM"
        with lock:
            print("%-8s %-28s exp=%s got=%s" % (v, mid, exp, res), flush=True)
            if v in ("ALARM", "NOBUILD", "BADMUT") or "-v" in os.environ.get("MUTV", ""):
                print("\n".join("      " + l[:400] for l in out.splitlines()[:14]), flush=True)


ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
