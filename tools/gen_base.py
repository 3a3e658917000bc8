#!/usr/bin/env python3
"""gen_base.py: record the types, fields and methods of the tree the rules were written for (engine/base_<config>.txt/.json).
Only names are taken from it: a private field or method that was renamed goes by its old name (driver/main.rs, mir.py)."""
import sys, os, json, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "engine")]
import extract
for c in sys.argv[1:] or ("main", "uni"):
    for x in ("txt", "json"):
        p = os.path.join(ROOT, "engine", "base_%s.%s" % (c, x))
        if os.path.exists(p):
            os.remove(p)
    d = extract.extract([c])[c]
    out, fns = set(), {}
    order = []
    for f in sorted(glob.glob(d + "/*.json")):
        j = json.load(open(f))
        ty = j["types"]
        for a in j["adts"]:
            if a["path"].split("::")[0] in ("omnipaxos", "omnipaxos_storage") and "::_::" not in a["path"] and "{" not in a["path"]:
                order.append("%s\t0\t\t" % a["path"])
                for i, v in enumerate(a["vars"]):
                    for n in v["f"]:
                        l = "%s\t%d\t%s\t%s" % (a["path"], i, n[0], ty[n[1]]["s"])
                        if l not in out:
                            out.add(l)
                            order.append(l)
        for fn in j["fns"]:
            if fn["key"].split("::")[0] in ("omnipaxos", "omnipaxos_storage") and fn["kind"] != "Closure" and "self" in fn and not fn.get("implof") and ty[fn["self"]]["k"] == "adt":
                a = ty[fn["self"]]["d"]
                b = fn["body"]
                fns.setdefault(a, []).append([fn["span"].split(":")[0], int(fn["span"].split(":")[1]), fn["name"], [ty[x]["s"] for x in b["locals"][:b["argc"] + 1]]])
    open(os.path.join(ROOT, "engine", "base_%s.txt" % c), "w").write("\n".join(dict.fromkeys(order)) + "\n")
    fns = {a: [x[2:] for x in sorted(v)] for a, v in fns.items()}
    json.dump(fns, open(os.path.join(ROOT, "engine", "base_%s.json" % c), "w"), indent=0, sort_keys=True)
    print(c, len(order), sum(map(len, fns.values())))
