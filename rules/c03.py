"""C03 acceptance is acknowledged only for durably stored entries"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"ack-durable": 4, "own-vote-durable": 3, "peer-vote": 1, "accepted-idx-exact": 10}


def jobs(progs):
    return sp_jobs(progs["main"], check)


def at_(tab, i, f):
    """the entry i of a table"""
    while tab.op == "store":
        if f.same(tab.args[1], i):
            return tab.args[2]
        if f.decide(eq(tab.args[1], i)) is not False:
            break
        tab = tab.args[0]
    return T("at", tab, i)


def check(X):
    sh, me0, kind, inc = X.sh, X.me0, X.kind, X.inc
    if kind in ("AcceptSync", "AcceptDecide", "AcceptStopSign", "Decide"):
        X.inv.rules.append(([eq(proj(inc, "n"), sh.c(me0, "promise"))], lnot(X.leader0)))   # only the owner of a ballot sends these, to others

    def good(f, D):
        return all(f.decide(ok_of(r)) is True for r in D.res)

    def votes(e, f, D, me, idx, v, where):
        """accepted_indexes[idx] = v"""
        pid = proj(me, "pid")
        if v is c(0):
            return
        if f.same(idx, sub(pid, c(1))):
            X.ob("own-vote-durable", good(f, D) and f.decide(lt(D.acc(f), norm_ind(v, f))) is False, where, "the leader votes for an index not known to be covered by its stored log", e, f)
            return
        okk = kind == "Accepted" and f.same(idx, sub(X.frm, c(1))) and f.same(v, proj(inc, "accepted_idx"))
        X.ob("peer-vote", okk, where, "a server's vote is recorded other than from that server's own Accepted message", e, f)

    def ev(e, D, loops):
        f = None
        for m in X.sent(e):
            if m.kind == "Accepted":
                f = f or X.fs(e)
                if f is None:
                    return
                X.ob("ack-durable", good(f, D) and f.same(norm_ind(m["accepted_idx"], f), D.acc(f)), "send", "Accepted carries an index that is not the length of the stored log at that point", e, f)
        pt = X.patched(e)
        if pt and pt[0] in ("Accepted", "?"):
            f = f or X.fs(e)
            if f is None:
                return
            X.ob("ack-durable", pt[1] == "accepted_idx" and good(f, D) and f.same(norm_ind(pt[2], f), D.acc(f)), "patch", "a queued Accepted is given an index that is not the length of the stored log at that point", e, f)
        p = X.wrote(e)
        if p and p[0] == sh.ls and e.k != "havoc":
            f = f or X.fs(e)
            if f is None:
                return
            me = X.sp(e)
            if len(p) == 3 and p[1] == "accepted_indexes" and isinstance(p[2], tuple):
                votes(e, f, D, me, p[2][1], e.d[2], "vote")
            elif len(p) <= 2 and (len(p) == 1 or p[1] == "accepted_indexes"):
                v = e.d[2] if len(p) == 2 else proj(e.d[2], "accepted_indexes")
                while v.op == "store":
                    votes(e, f, D, me, v.args[1], v.args[2], "vote")
                    v = v.args[0]
                X.ob("peer-vote", v is sh.lead(me, "accepted_indexes") or (v.op == "repeat" and v.args[0] is c(0)), "table", "the table of votes is replaced by something other than an empty one", e, f)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        me = X.final(st)
        a0, a1 = sh.c(me0, "accepted_idx"), norm_ind(sh.c(me, "accepted_idx"), f)
        if not f.same(a0, a1):
            g = X.assume(f, isv(sh.role(me), "Leader", ROLE))
            g = X.assume(g, isv(sh.phase(me), "Accept", PHASE)) if g is not None else None
            if g is not None:
                own = norm_ind(at_(sh.lead(me, "accepted_indexes"), sub(proj(me, "pid"), c(1)), g), g)
                X.ob("own-vote-counted", g.same(own, a1), "exit", "the leader stores entries up to %s without counting its own vote for them (%s)" % (show(a1, 4), show(own, 4)), None, g, X.fn.span)
        X.ob("accepted-idx-exact", in_sync(sh, D, X.final(st), f, "accepted_idx"), "exit", "the reported accepted index no longer equals the stored log length plus stop-sign", None, f, X.fn.span)
    X.W.walk(ev, ex)
