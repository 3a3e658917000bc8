"""C06 entries are decided only with a write quorum, and decisions never regress"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"decide-source": 4, "decide-monotone": 4, "announced-decided": 4, "decided-within-log": 10, "votes-of-current-ballot": 10, "quorum-fixed": 10, "quorum-size": 2}


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    return sp_jobs(P, check) + [("Quorum", lambda: quorum(P, sh))]


def quorum(P, sh):
    """Quorum construction and tests"""
    X = Plain("Quorum")
    with_ = method(P, "Quorum", "with")
    r = Run(P, with_)
    X.stats.append(r.stats())
    fq, n = None, None
    for i in range(with_.argc):
        nm = with_.names.get(i + 1)
        if with_.locals[i + 1][0] == "adt":
            fq = r.args[i]
        else:
            n = r.args[i]
    for st, ret in r.outs:
        f = st.facts
        fl = proj(fq, "Some.0")
        if ret.op == "adt" and ret.args[1] == "Majority":
            q = ret.args[2][0][1]
            X.ob("quorum-size", f.decide(is_none(fq)) is True and is_majority(q, n), "majority", "a majority quorum is not (n / 2) + 1, or is used although a flexible quorum is configured (%s)" % show(q), span=with_.span)
        elif ret.op == "adt" and ret.args[1] == "Flexible":
            X.ob("quorum-size", f.decide(is_some(fq)) is True and (f.same(ret.args[2][0][1], fl) or all(f.same(proj(ret.args[2][0][1], k), proj(fl, k)) for k in ("read_quorum_size", "write_quorum_size"))), "flexible", "a flexible quorum is not the configured one", span=with_.span)
        else:
            X.ob("quorum-size", False, "kind", "unknown quorum kind " + show(ret, 3), span=with_.span)
    return X.result()


def is_majority(q, n):
    """floor(n/2)+1"""
    k, d = lin_of(q)
    if k != 1 or len(d) != 1 or d[0][1] != 1:
        return False
    t = d[0][0]
    return t.op == "div" and t.args[0] is n and t.args[1] is c(2)


def check(X):
    sh, me0, kind, inc = X.sh, X.me0, X.kind, X.inc
    dec0 = sh.c(me0, "decided_idx")

    def source(e, f, v, D):
        me = X.sp(e)
        if kind == "Accepted":
            tab = sh.lead(me, "accepted_indexes")
            okk = (f.decide(isv(sh.role(me), "Leader", ROLE)) is True and f.decide(isv(sh.phase(me), "Accept", PHASE)) is True
                   and f.same(proj(inc, "n"), sh.lead(me, "n_leader"))
                   and has_quorum(sh, me, f, "write", tab, lambda g, x, i: g.decide(le(v, x)) is True))
            return okk, "not established that a write quorum of servers accepted this index in the leader's current ballot"
        if kind in ("AcceptDecide", "Decide"):
            return f.same(proj(inc, "n"), sh.c(me, "promise")) and f.decide(le(v, proj(inc, "decided_idx"))) is True, "a follower decides beyond the index announced by the leader of its promised ballot"
        if kind == "AcceptSync":
            return f.same(proj(inc, "n"), sh.c(me, "promise")) and (f.decide(le(v, proj(inc, "decided_idx"))) is True or f.same(v, dec0)), "the decided index set by a synchronisation is neither the announced one nor the current one"
        if kind == "Promise":
            return promise_max(sh, f, me, v) or f.same(v, dec0), "the new leader decides beyond the decided indexes its quorum reported"
        return f.same(v, dec0), "this operation must not decide entries"

    def ev(e, D, loops):
        f = None
        if e.k == "st":
            for name, a in ops_of(e) or [("?", ())]:
                if name in ("set_decided_idx", "?"):
                    f = f or X.fs(e)
                    if f is None:
                        return
                    v = a[0] if a else T("opq", "?")
                    okk, why = source(e, f, v, D)
                    X.ob("decide-source", okk, "store", why, e, f)
                    X.ob("decide-monotone", f.decide(lt(v, D.v["decided_idx"])) is False, "store", "the decided index may decrease", e, f)
        for m in X.sent(e):
            if m.kind in ("AcceptSync", "AcceptDecide", "Decide"):
                f = f or X.fs(e)
                if f is None:
                    return
                X.ob("announced-decided", f.same(m["decided_idx"], D.v["decided_idx"]), m.kind, "%s announces a decided index that is not the leader's own" % m.kind, e, f)
        pt = X.patched(e)
        if pt and pt[0] in ("AcceptDecide", "Decide", "AcceptSync", "?") and pt[1] in ("decided_idx", None):
            f = f or X.fs(e)
            if f is None:
                return
            X.ob("announced-decided", f.same(pt[2], D.v["decided_idx"]), "patch", "a queued message is given a decided index that is not the leader's own", e, f)
        p = X.wrote(e)
        if p and p[0] == sh.ls and len(p) >= 3 and p[1] == "accepted_indexes":
            f = f or X.fs(e)
            if f is None:
                return
            me = X.sp(e)
            if kind == "Accepted":
                X.ob("votes-of-current-ballot", f.same(proj(inc, "n"), sh.lead(me, "n_leader")), "vote", "an Accepted of another ballot is counted", e, f)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        me = X.final(st)
        # votes of an earlier ballot are never kept
        n1, n0 = sh.lead(me, "n_leader"), sh.lead(me0, "n_leader")
        tab = sh.lead(me, "accepted_indexes")
        if not f.same(n1, n0):
            v = tab
            while v.op == "store":
                v = v.args[0]
            X.ob("votes-of-current-ballot", v.op == "repeat" and v.args[0] is c(0), "reset", "the table of votes survives a change of the leader's ballot", None, f, X.fn.span)
        if kind == "Accepted" and f.same(sh.c(me, "decided_idx"), dec0):
            # a chosen index is decided at once
            idx = proj(inc, "accepted_idx")
            g = f
            for l in (isv(sh.role(me0), "Leader", ROLE), isv(sh.phase(me0), "Accept", PHASE), eq(proj(inc, "n"), n0), lt(dec0, idx)):
                g = X.assume(g, l) if g is not None else None
            if g is not None:
                few = False
                for t in cnt_terms(g):
                    if not (t.args[0] is tab or g.same(t.args[0], tab)):
                        continue
                    h = g.add(le(idx, T("belem", t.args[0])))
                    few = few or (all(g.decide(lt(t, q)) is True for q in quorum_size(sh, me, g, "write")) and (h is None or exhaustive(h, t.args[1])))
                X.ob("chosen-decided", few, "Accepted", "an index above the decided one is not decided although nothing says that less than a write quorum accepted it", None, g, X.fn.span)
        q1, q0 = sh.lead(me, "quorum"), sh.lead(me0, "quorum")
        X.ob("quorum-fixed", f.same(q1, q0), "quorum", "the quorum sizes change at run time", None, f, X.fn.span)
        # decided <= accepted
        d1, a1 = sh.c(me, "decided_idx"), norm_ind(sh.c(me, "accepted_idx"), f)
        if kind == "Accepted":
            # trusted: the log a follower accepted in the leader's ballot is a prefix of the leader's log
            f = X.assume(f, le(proj(inc, "accepted_idx"), sh.c(me0, "accepted_idx")))
        elif kind in ("AcceptSync", "Promise"):
            return
        if f is not None:
            X.ob("decided-within-log", f.decide(le(d1, a1)) is True or (f.same(d1, dec0) and f.decide(lt(a1, sh.c(me0, "accepted_idx"))) is False), "exit", "the decided index may exceed the accepted index", None, f, X.fn.span)
    X.W.walk(ev, ex)
