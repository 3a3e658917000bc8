"""C01 promise fencing"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"promise-monotone": 2, "log-change-fenced": 10, "accepted-ballot": 5, "promise-reply": 2, "leader-leads-promise": 10}


def jobs(progs):
    return sp_jobs(progs["main"], check)


def check(X):
    sh, me0, kind = X.sh, X.me0, X.kind
    prom0 = sh.c(me0, "promise")
    inc = X.inc
    batch0 = sh.c(me0, "batched_entries")
    follower = kind in ("AcceptSync", "AcceptDecide", "Decide", "AcceptStopSign")

    def allowed(e, f, what):
        """may this event change the log / decided index / stop-sign on this partition?"""
        me = X.sp(e)
        prom = sh.c(me, "promise")
        if follower:
            return f.same(proj(inc, "n"), prom), "message ballot is not known to equal the promised ballot"
        lead = f.decide(isv(sh.role(me), "Leader", ROLE)) is True
        if kind in ("Promise", "Accepted"):
            return (lead and f.same(proj(inc, "n"), prom) and f.same(proj(inc, "n"), sh.lead(me, "n_leader")),
                    "not established that the server still leads the promised ballot the message refers to")
        if kind in (None, "ProposalForward", "ForwardStopSign"):
            return (lead and f.decide(isv(sh.phase(me), "Accept", PHASE)) is True and f.same(sh.lead(me, "n_leader"), prom),
                    "log change by a server not known to be leading its promised ballot in the accept phase")
        return False, "this operation must not change the log"

    def own_batch(v):
        """entries taken from the local batch only (accepted earlier under the then-promised ballot)"""
        return v is batch0 or v is EMPTY

    def ev(e, D, loops):
        f = X.fs(e)
        if f is None:
            return
        me = X.sp(e)
        prom = sh.c(me, "promise")
        # R1 promise never decreases
        new = None
        cw = X.cache_write(e)
        if cw and cw[0] == "promise":
            new = cw[1] if not cw[2] else T("opq", "partial")
        if new is not None:
            X.ob("promise-monotone", f.decide(lt(new, prom0)) is False or f.same(new, prom0) or f.same(new, prom), "cache", "the promised ballot may be replaced by a lower one", e, f)
        if e.k == "st":
            for name, a in ops_of(e) or [("?", ())]:
                if name == "set_promise":
                    X.ob("promise-monotone", f.decide(lt(a[0], prom0)) is False or f.same(a[0], prom0), "store", "a ballot not known to be at least the promised one is stored as promise", e, f)
                elif name in LOGOPS or name == "?":
                    if name == "append_entries" and own_batch(a[0]):
                        continue
                    okk, why = allowed(e, f, name)
                    X.ob("log-change-fenced", okk, name, "%s: %s" % (name, why), e, f)
        # batching an entry is accepting it
        if cw and cw[0] == "batched_entries" and e.k in ("push", "app"):
            okk, why = allowed(e, f, "batch")
            X.ob("log-change-fenced", okk, "batch", "entry batched: " + why, e, f)
        for m in X.sent(e):
            if m.kind == "Accepted":
                X.ob("accepted-ballot", f.same(m["n"], prom), "send", "Accepted is sent for a ballot not known to be the promised one", e, f)
            elif m.kind == "Promise":
                cached = proj(me0, "cached_promise_message")
                if f.same(m.p, proj(cached, "Some.0")):
                    X.ob("promise-reply", f.decide(is_some(cached)) is True, "resend", "resent Promise is not the cached one", e, f)
                    continue
                okk = kind == "Prepare" and f.same(m["n"], proj(inc, "n"))
                if okk:
                    n = proj(inc, "n")
                    okk = f.decide(lt(prom0, n)) is True or (f.same(prom0, n) and f.decide(isv(sh.phase(me0), "Recover", PHASE)) is True)
                X.ob("promise-reply", okk, "send", "a Promise is sent although the Prepare's ballot is not known to be higher than the promised one (or equal while recovering)", e, f)
            elif m.kind == "?":
                X.ob("known-message", False, "send", "a message of unknown kind is sent", e, f)
        pt = X.patched(e)
        if pt and pt[0] in ("Accepted", "?"):
            n = get(sh_out(X, me, pt[3]), ("SequencePaxos.0", "msg", "Accepted.0", "n"))
            meta = proj(me0, "latest_accepted_meta")
            okk = f.same(n, prom) or (f.same(proj(proj(meta, "Some.0"), "0"), prom) and f.same(pt[3], proj(proj(meta, "Some.0"), "1")))
            X.ob("accepted-ballot", okk, "patch", "a queued Accepted is changed although its ballot is not known to be the promised one", e, f)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None:
            return
        me = X.final(st)
        # the invariant used above: a leader leads its promised ballot
        f = X.assume(f, isv(sh.role(me), "Leader", ROLE))
        if f is not None:
            X.ob("leader-leads-promise", f.same(sh.lead(me, "n_leader"), sh.c(me, "promise")), "inv", "the server may end up leading a ballot other than the promised one", None, f, X.fn.span)
            X.ob("leader-leads-promise", f.same(proj(sh.lead(me, "n_leader"), "pid"), proj(me, "pid")), "pid", "the server may end up leading another server's ballot", None, f, X.fn.span)
    X.W.walk(ev, ex)


def sh_out(X, me, i):
    return T("at", proj(me, X.sh.out), i)
