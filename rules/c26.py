"""C26 role and phase change only along the protocol, and a server that may have missed messages resynchronises"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"transition": 20, "must": 4, "applies-in-phase": 6, "reconnect-asks": 1, "promise-table": 20, "idle-unpromised": 2}
TECHNIQUE = "typestate analysis of (role, phase) and of the leader's promise table over all MIR paths of every entry point"
NOTE = "every Sequence Paxos entry point and message kind from every role and phase"
SEQ = ("AcceptDecide", "AcceptStopSign", "Decide")


def jobs(progs):
    return sp_jobs(progs["main"], check)


def check(X):
    sh, me0, kind, name, inc = X.sh, X.me0, X.kind, X.fn.name, X.inc
    prom0, pid = sh.c(me0, "promise"), proj(me0, "pid")
    r0, p0 = sh.role(me0), sh.phase(me0)
    nl0, t0 = sh.lead(me0, "n_leader"), sh.lead(me0, "promises_meta")
    PS = sh.adt("PromiseState")
    L, F = X.leader0, lnot(X.leader0)
    ph = lambda v: isv(p0, v, PHASE)
    n = proj(inc, "n") if kind and kind not in ("ProposalForward", "ForwardStopSign", "Compaction") else None
    arg = X.run.args[1] if kind is None and len(X.run.args) > 1 else None
    if kind in SEQ + ("AcceptSync",):
        X.inv.rules.append(([eq(n, prom0)], F))      # only the owner of a ballot sends these, and to others (C20, C21)
    # (literals under which the transition is taken, role, phase, must it be taken)
    T_ = []
    if kind == "Prepare":
        T_ = [([lt(prom0, n)], "Follower", "Prepare", True), ([eq(prom0, n), ph("Recover")], "Follower", "Prepare", True)]
    elif kind == "AcceptSync":
        T_ = [([eq(prom0, n), F, ph("Prepare")], "Follower", "Accept", True)]
    elif kind in SEQ:
        T_ = [([eq(prom0, n), F, ph("Accept")], "Follower", "Recover", False)]
    elif kind == "Promise":
        T_ = [([L, ph("Prepare"), eq(n, nl0)], "Leader", "Accept", False)]
    if kind in SEQ + ("AcceptSync",):
        # a leader that was never promised writes: ask it for a Prepare
        T_.append(([lt(prom0, n), eq(proj(prom0, "pid"), proj(n, "pid"))], "Follower", "Recover", False))
    if name == "handle_leader":
        T_ = [([lt(prom0, arg), lt(nl0, arg), eq(pid, proj(arg, "pid"))], "Leader", "Prepare", True)]
    elif name == "reconnected":
        T_ = [([lnot(eq(arg, pid)), eq(arg, proj(prom0, "pid"))], "Follower", "Recover", True)]
    elif name == "resend_message_timeout":
        T_ = [([F, ph("Prepare"), is_none(proj(me0, "cached_promise_message"))], "Follower", "Recover", False)]

    def add_all(f, ls):
        for l in ls:
            if f is None:
                return None
            f = X.assume(f, l)
        return f

    def is_state(f, r, p, role, phase):
        return f.decide(isv(r, role, ROLE)) is True and f.decide(isv(p, phase, PHASE)) is True

    def ev(e, D, loops):
        if kind not in SEQ + ("AcceptSync",):
            return
        cw = X.cache_write(e)
        log = e.k == "st" and any(o in LOGOPS or o == "?" for o, _ in ops_of(e) or [("?", ())])
        if log or (cw and cw[0] == "batched_entries" and e.k in ("push", "app")):
            f = X.fs(e)
            if f is not None:
                w = "Prepare" if kind == "AcceptSync" else "Accept"
                X.ob("applies-in-phase", f.decide(L) is False and f.decide(ph(w)) is True, kind, "%s is applied although the server is not known to be a follower in the %s phase" % (kind, w), e, f)

    def stores(t):
        out = []
        while t.op == "store" and t is not t0:
            out.append((t.args[1], t.args[2]))
            t = t.args[0]
        return t, out[::-1]

    def table(f, me, st):
        t1 = sh.lead(me, "promises_meta")
        base, ss = stores(t1)
        same = t1 is t0 or f.same(t1, t0)
        def one(val, want, who):
            return base is t0 and len(ss) == 1 and f.same(ss[0][0], sub(who, c(1))) and want(ss[0][1])
        v = lambda name_: lambda x: f.decide(isv(x, name_, PS)) is True
        lead_n = lambda lit: f.decide(L) is True and lit
        if kind == "Promise":
            good = same or (one(None, v("Promised"), X.frm) and f.decide(L) is True and f.same(n, nl0))
            why = "a Promise"
        elif kind == "NotAccepted":
            good = same or (one(None, v("PromisedHigher"), X.frm) and f.decide(L) is True and f.decide(lt(nl0, n)) is True)
            why = "a NotAccepted"
        elif kind == "PrepareReq":
            good = same or (one(None, v("NotPromised"), X.frm) and f.decide(L) is True and f.decide(lt(nl0, n)) is False)
            why = "a PrepareReq"
        elif name == "handle_leader":
            good = same or (base.op == "repeat" and v("NotPromised")(base.args[0]) and len(ss) == 1 and f.same(ss[0][0], sub(pid, c(1))) and v("Promised")(ss[0][1]))
            why = "being elected"
        else:
            good, why = same, "this operation"
        X.ob("promise-table", good, kind or name, "after %s the leader's record of who promised is %s" % (why, show(t1, 5)), None, f, X.fn.span)
        # and the records that must be made
        must = {"NotAccepted": ([L, lt(nl0, n)] if n is not None else None, "PromisedHigher"), "PrepareReq": ([L, lnot(lt(nl0, n))] if n is not None else None, "NotPromised")}.get(kind)
        if must and same:
            g = add_all(f, must[0] + [lt(sub(X.frm, c(1)), vlen(t0))])       # the sender is a server of the cluster
            if g is not None:
                at = T("at", t0, sub(X.frm, c(1)))
                X.ob("promise-table", g.decide(isv(at, must[1], PS)) is True, kind + "/made", "%s: the sender's entry in the record of promises is not set to %s" % (kind, must[1]), None, g, X.fn.span)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or storage_failed(f):
            return
        me = X.final(st)
        r1, p1 = sh.role(me), sh.phase(me)
        kept = (r1 is r0 or f.same(r1, r0)) and (p1 is p0 or f.same(p1, p0))
        # some value of the old state may make the write a no-op; otherwise the transition must be a permitted one
        good = kept
        if not good:
            for ls, role, phase, _ in T_:
                if is_state(f, r1, p1, role, phase) and all(f.decide(l) is True for l in ls):
                    good = True
            if name == "handle_leader" and not good:
                # another server's election (never reported by BLE): stops leading, phase kept
                good = f.decide(eq(pid, proj(arg, "pid"))) is False and f.decide(isv(r1, "Follower", ROLE)) is True and f.same(p1, p0)
        if not good:
            # split over the old state
            good = True
            for l in (L, F):
                for q in ("None", "Prepare", "Recover", "Accept"):
                    g = add_all(f, [l, ph(q)])
                    if g is None:
                        continue
                    k2 = (g.same(r1, r0) or (g.decide(isv(r1, "Leader" if l is L else "Follower", ROLE)) is True)) and (g.same(p1, p0) or g.decide(isv(p1, q, PHASE)) is True)
                    if not k2 and not any(is_state(g, r1, p1, role, phase) and all(g.decide(x) is True for x in ls) for ls, role, phase, _ in T_):
                        good = False
        X.ob("transition", good, kind or name, "role or phase may become (%s, %s) outside the protocol's transitions" % (show(r1, 4), show(p1, 4)), None, f, X.fn.span)
        for ls, role, phase, must in T_:
            if must:
                g = add_all(f, ls)
                if g is not None:
                    X.ob("must", is_state(g, r1, p1, role, phase), "%s->%s" % (kind or name, phase), "the server does not become (%s, %s) as the protocol requires" % (role, phase), None, g, X.fn.span)
        prom1 = sh.c(me, "promise")
        if prom1 is not prom0 and not f.same(prom1, prom0):
            X.ob("idle-unpromised", f.decide(isv(p1, "None", PHASE)) is False, kind or name, "the server may have promised a ballot and still be in no phase at all", None, f, X.fn.span)
        table(f, me, st)
        if kind in SEQ + ("AcceptSync",):
            ms = [m for e, _ in E.flatten_events(st.events()) for m in X.sent(e)]
            g = add_all(f, [lt(n, prom0)])
            if g is not None:
                okk = len(ms) == 1 and ms[0].kind == "NotAccepted" and g.same(ms[0].to, proj(n, "pid")) and g.same(ms[0]["n"], prom0)
                X.ob("other-ballot-answered", okk, kind + "/lower", "a %s of a lower ballot is not answered with NotAccepted naming this server's promise" % kind, None, g, X.fn.span)
            g = add_all(f, [lt(prom0, n), lnot(eq(proj(n, "pid"), pid))])
            if g is not None:
                okk = len(ms) == 1 and ms[0].kind == "PrepareReq" and g.same(ms[0].to, proj(n, "pid"))
                X.ob("other-ballot-answered", okk, kind + "/higher", "on a %s of a higher ballot the server does not ask its owner for a Prepare" % kind, None, g, X.fn.span)
        if name == "reconnected":
            g = add_all(f, [lnot(eq(arg, pid))])
            if g is not None:
                ms = [m for e, _ in E.flatten_events(st.events()) for m in X.sent(e)]
                okk = len(ms) == 1 and ms[0].kind == "PrepareReq" and g.same(ms[0].to, arg) and g.same(ms[0]["n"], sh.c(me, "promise"))
                X.ob("reconnect-asks", okk, "reconnected", "after a reconnection the peer is not asked for a Prepare with this server's promise", None, g, X.fn.span)
    X.W.walk(ev, ex)
