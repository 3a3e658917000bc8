"""C02 promise durable before any Prepare/Promise leaves the server"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"promise-durable": 2, "claims-durable": 6, "writes-succeeded": 2, "cached-promise-sent": 1}


def jobs(progs):
    return sp_jobs(progs["main"], check)


def check(X):
    sh, me0, kind = X.sh, X.me0, X.kind
    cached0 = proj(me0, "cached_promise_message")

    def ev(e, D, loops):
        for m in X.sent(e):
            if m.kind not in ("Promise", "Prepare", "?"):
                continue
            f = X.fs(e)
            if f is None:
                return
            if m.kind == "Promise" and f.same(m.p, proj(cached0, "Some.0")):
                continue            # the promise message of an earlier operation, sent again unchanged
            w = m.kind
            X.ob("promise-durable", f.same(m["n"], D.v["promise"]), w, "%s for a ballot that storage is not known to hold as the promise at that point" % w, e, f)
            X.ob("writes-succeeded", all(f.decide(ok_of(r)) is True for r in D.res), w, "%s leaves before the success of an earlier storage write is established" % w, e, f)
            for fld, key in (("n_accepted", "accepted_round"), ("decided_idx", "decided_idx")):
                X.ob("claims-durable", f.same(m[fld], D.v[key]), w + "." + fld, "%s.%s is not what storage holds at that point" % (w, fld), e, f)
            X.ob("claims-durable", f.same(norm_ind(m["accepted_idx"], f), D.acc(f)), w + ".accepted_idx", "%s.accepted_idx is not the length of the stored log at that point" % w, e, f)

    def ex(st, ret, D):
        new = proj(X.final(st), "cached_promise_message")
        if new is cached0 or (new.op == "adt" and new.args[1] == "None"):
            return
        f = X.inv.strengthen(st.facts)
        if f is None:
            return
        sent = [m for e, _ in E.flatten_events(st.events()) if e.k in ("push", "app") for m in X.sent(e) if m.kind == "Promise"]
        X.ob("cached-promise-sent", any(f.same(new, some(m.p)) or f.same(proj(new, "Some.0"), m.p) for m in sent), "cache", "a Promise is kept for resending that was not sent (and checked) by the operation that made it", None, f, X.fn.span)
    X.W.walk(ev, ex)
