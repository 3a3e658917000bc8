#!/usr/bin/env python3
"""check.py <property>: analyse /repo's current tree and decide one property (see DESIGN.md)."""
import sys, os, json, time, traceback, importlib, multiprocessing
if "PYTHONHASHSEED" not in os.environ:      # the same order of everything on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "rules"), ROOT]
import gc
gc.disable()

PROGS = {}


def job(args):
    pid, i = args
    name, fn = JOBS[i]
    t = time.time()
    try:
        r = fn()
        r["name"] = name
        r["seconds"] = round(time.time() - t, 2)
        return r
    except BaseException as ex:
        return {"name": name, "findings": [{"rule": "analysable", "key": "analysable|" + name, "message": "%s: the analysis gives no verdict (%s: %s)" % (name, type(ex).__name__, str(ex)[:300]),
                                            "site": None, "path": traceback.format_exc().splitlines()[-6:], "facts": []}],
                "counts": {}, "stats": None, "seconds": round(time.time() - t, 2)}


def known():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=<id> key=<key> :: text
                head, _, text = l[6:].strip().partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1))
                out[(d["property"], d["key"])] = text
    return out


def main():
    global JOBS
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(EVID, exist_ok=True)
    mod = importlib.import_module(pid.lower())
    findings, counts, stats, err = [], {}, [], None
    try:
        import api
        progs = {cfg: api.load(cfg) for cfg in mod.CONFIGS}
        t1 = time.time()
        JOBS = mod.jobs(progs)
        order = sorted(range(len(JOBS)), key=lambda i: -weight(JOBS[i][0]))
        n = min(8, os.cpu_count() or 4, max(1, len(JOBS)))
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(n, maxtasksperchild=1) as pool:
            results = pool.map(job, [(pid, i) for i in order], chunksize=1)
        for r in results:
            findings += r["findings"]
            for k, (a, b) in r["counts"].items():
                x = counts.setdefault(k, [0, 0])
                x[0] += a
                x[1] += b
            if r.get("stats"):
                stats.append(r["stats"])
        for rule, least in getattr(mod, "FLOORS", {}).items():
            if counts.get(rule, [0])[0] < least:
                findings.append({"rule": "coverage", "key": "coverage|" + rule, "message": "rule %s met only %d sites/obligations (at least %d expected): what it is anchored to is missing" % (rule, counts.get(rule, [0])[0], least), "site": None, "path": [], "facts": []})
    except Exception as ex:
        t1 = time.time()
        findings.append({"rule": "analysable", "key": "analysable", "message": "%s: %s" % (type(ex).__name__, str(ex)[:2000]), "site": None, "path": traceback.format_exc().splitlines()[-8:], "facts": []})
    kn = known()
    seen, new, listed = set(), [], []
    for f in findings:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        (listed if (pid, f["key"]) in kn else new).append(f)
    ob = sum(a for a, b in counts.values())
    dis = sum(b for a, b in counts.values())
    cov = {"explanation": mod.__doc__.strip().splitlines()[0] + ". Path-sensitive interprocedural dataflow over the compiler's MIR of /repo's current tree; every partition (path with its branch facts) of the entry points below was visited and every rule instance on it decided by value-number entailment. Nothing is executed.",
           "rules": {k: {"obligations": a, "established": b} for k, (a, b) in sorted(counts.items())},
           "obligations_total": ob, "established_total": dis,
           "entry_points": sorted(stats, key=lambda s: s["entry"]),
           "partitions": sum(s["partitions"] for s in stats), "functions_analysed": sum(s["functions"] for s in stats),
           "call_sites_followed": sum(s["calls"] for s in stats), "aborting_paths": sum(s["aborting_paths"] for s in stats)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": ["rustc's MIR at mir-opt-level 0 for the feature sets in extract.py is the program that is shipped",
                          "library transfer functions in engine/models.py (std containers, iterators, comparison; Storage and Snapshot as interfaces)"] + list(getattr(mod, "ASSUMES", []))}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations over %d partitions of %d entry points, %d established, %.1f s (%.1f s extraction)" % (pid, ob, cov["partitions"], len(stats), dis, time.time() - t0, t1 - t0))
    for f in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["message"]))
    if new:
        rp = os.path.join(EVID, pid + ".violation.json")
        json.dump(new, open(rp, "w"), indent=1)
        for f in new[:20]:
            print("  [%s] %s  at %s" % (f["rule"], f["message"], f["site"]))
            for p in f["path"][-6:]:
                print("        via " + p)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


def weight(name):
    return {"Promise": 100, "election": 50}.get(next((k for k in ("Promise", "election") if "(" + k in name or k in name), ""), 1)


if __name__ == "__main__":
    main()
