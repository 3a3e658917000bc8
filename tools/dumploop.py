#!/usr/bin/env python3
"""dumploop.py <fn> [kind|-] [n]: loops of the partitions of an entry"""
import sys
sys.path[:0] = ["/verif/engine", "/verif/rules"]
import api, sp
from terms import *
P = api.load("main"); sh = api.Shape(P)
name, kind = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != "-" else None)
lim = int(sys.argv[3]) if len(sys.argv) > 3 else 3
seen = set()
for fn, k in sp.entries(P, sh):
    if fn.name == name and k == kind:
        X = sp.make(P, sh, fn, k)
        for i, (st, ret) in enumerate(X.run.outs):
            for e in st.events():
                if e.k == "loop" and id(e.d[0]) not in seen and len(seen) < lim:
                    lp = e.d[0]; seen.add(id(lp))
                    print("LOOP part", i, lp.where, "it", show(lp.it, 9) if lp.it is not None else None, "early", lp.early)
                    for it in lp.iters:
                        print("   ITER", [show(l, 6) for l in it.delta])
                        for x in it.events: print("       >", x.k, show(x.d, 8)[:500] if x.k != "loop" else "loop")
