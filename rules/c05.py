"""C05 reported state never diverges from stored state"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"cache-equals-storage": 50}


def jobs(progs):
    return sp_jobs(progs["main"], check)


def check(X):
    sh = X.sh

    def one(me, f, D, where):
        for fld in FIELDS:
            X.ob("cache-equals-storage", in_sync(sh, D, me, f, fld), fld, "after the operation the in-memory %s (%s) is not what storage holds (%s)" % (fld, show(sh.c(me, fld), 4), show(D.v[fld], 4)), None, f, X.fn.span)

    def ev(e, D, loops):
        pass

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        one(X.final(st), f, D, "exit")

    def it(lp, i, D):
        f = X.inv.strengthen(i.facts)
        if f is not None and i.end is not None and D.res:
            one(get(i.end, X.prefix), f, D, "iteration")
    X.W.walk(ev, ex, it)
