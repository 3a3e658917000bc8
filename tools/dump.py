#!/usr/bin/env python3
"""dump.py <fn name> [kind] [n]: partitions of an entry with facts and events"""
import sys
sys.path[:0] = ["/verif/engine", "/verif/rules"]
import api, sp
from terms import *
from exec import flatten_events
P = api.load("main"); sh = api.Shape(P)
name, kind = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != "-" else None)
lim = int(sys.argv[3]) if len(sys.argv) > 3 else 10
for fn, k in sp.entries(P, sh):
    if fn.name == name and k == kind:
        X = sp.make(P, sh, fn, k)
        for i, (st, ret) in enumerate(X.run.outs[:lim]):
            print("=== partition", i, "ret", show(ret, 5))
            for l in sorted(show(l, 9) for l in st.facts.lits): print("   ", l)
            for e, l in flatten_events(st.events()):
                if e.k in ("st","sg","w","push","app","upd","havoc","loop","call"):
                    print("   >", e.k, ("" if e.k=="loop" else show(e.d, 7)[:400]), e.span)
            print("   ret", show(ret,6)[:200])
