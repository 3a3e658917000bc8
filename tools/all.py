#!/usr/bin/env python3
"""all.py [ids]: decide all (or the given) properties in one go, sharing the analysis of each entry point (development aid).
Prints one line per property: ok / findings."""
import sys, os, glob, importlib, multiprocessing, time, traceback
if "PYTHONHASHSEED" not in os.environ:      # the same order of everything on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "rules"), ROOT]
import gc
gc.disable()


def work(name):
    import sp
    sp.RUNS = {}
    out = []
    for pid, fn in GROUPS[name]:
        try:
            r = fn()
            out.append((pid, r["findings"], r["counts"]))
        except BaseException as ex:
            out.append((pid, [{"rule": "analysable", "key": "analysable|" + name, "message": "%s: %s %s" % (name, ex, traceback.format_exc()[-300:]), "site": None, "path": [], "facts": []}], {}))
    return out


def main():
    global GROUPS
    t0 = time.time()
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(ROOT + "/rules/c[0-9][0-9].py"))
    verbose = "-v" in sys.argv
    import api
    progs, mods, GROUPS = {}, {}, {}
    res = {i: ([], {}) for i in ids}
    for i in ids:
        try:
            m = mods[i] = importlib.import_module(i.lower())
            for cfg in m.CONFIGS:
                if cfg not in progs:
                    progs[cfg] = api.load(cfg)
            for name, fn in m.jobs({cfg: progs[cfg] for cfg in m.CONFIGS}):
                GROUPS.setdefault(name, []).append((i, fn))
        except Exception as ex:
            res[i][0].append({"rule": "analysable", "key": "x", "message": "%s: %s" % (type(ex).__name__, str(ex)[-1500:]), "site": None})
    names = sorted(GROUPS, key=lambda n: -(100 if "Promise" in n else 1))
    with multiprocessing.get_context("fork").Pool(min(8, int(os.environ.get("JOBS", "8"))), maxtasksperchild=1) as pool:
        for out in pool.imap_unordered(work, names, chunksize=1):
            for pid, fs, cn in out:
                res[pid][0].extend(fs)
                if fs and os.environ.get("FIRST"):      # the first finding is enough
                    print("%s [%s] %s @ %s" % (pid, fs[0]["rule"], fs[0]["message"][:230], fs[0]["site"]))
                    print("RESULT %s (%.0f s)" % (pid, time.time() - t0))
                    sys.stdout.flush()
                    pool.terminate()
                    os._exit(1)
                for k, (a, b) in cn.items():
                    x = res[pid][1].setdefault(k, [0, 0])
                    x[0] += a
                    x[1] += b
    bad = []
    for i in ids:
        fs, cn = res[i]
        for rule, least in getattr(mods.get(i), "FLOORS", {}).items():
            if cn.get(rule, [0])[0] < least:
                fs.append({"rule": "coverage", "key": "coverage|" + rule, "message": "rule %s met %d < %d" % (rule, cn.get(rule, [0])[0], least), "site": None})
        if fs:
            bad.append(i)
            seen = set()
            for f in fs:
                if f["key"] in seen:
                    continue
                seen.add(f["key"])
                print("%s [%s] %s @ %s" % (i, f["rule"], f["message"][:600 if verbose else 230], f["site"]))
    print("RESULT %s (%.0f s)" % (",".join(bad) or "quiet", time.time() - t0))
    sys.stdout.flush()
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    main()
