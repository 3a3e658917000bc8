"""C07 a new leader adopts the most up-to-date log of a read quorum"""
from sp import *
import c09

CONFIGS = ["main"]
FLOORS = {"read-quorum": 10, "adopts-most-up-to-date": 10, "adopts-highest-decided": 10, "accepted-round-set": 10, "max-promise-tracked": 10, "own-promise": 2,
          "promise-table": 3, "promise-truthful": 10, "promise-ships-log": 5}


def jobs(progs):
    return sp_jobs(progs["main"], check)


def check(X):
    sh, me0, kind, inc = X.sh, X.me0, X.kind, X.inc
    PS = sh.adt("PromiseState")
    ships, _ = c09.sender(X, lambda r: "promise-ships-log")
    prep0 = [isv(sh.role(me0), "Leader", ROLE), isv(sh.phase(me0), "Prepare", PHASE)]

    def greater(f, na, ai, nb, bi):
        """(n, idx) lexicographically greater: True / False / None"""
        if f.decide(lt(nb, na)) is True:
            return True
        if f.decide(lt(na, nb)) is True:
            return False
        if f.same(na, nb):
            return f.decide(lt(bi, ai))
        if f.decide(lt(bi, ai)) is False and f.decide(lt(nb, na)) is False:
            return False
        return None

    def promised(e, f, me, i, v):
        """promises_meta[i] = v"""
        d = f.decide(isv(v, "Promised", PS))
        if d is False:
            return
        m = proj(v, "Promised.0")
        if kind == "Promise":
            okk = f.same(proj(inc, "n"), sh.lead(me, "n_leader")) and f.same(i, sub(X.frm, c(1))) and all(f.same(proj(m, k), proj(inc, k)) for k in ("n_accepted", "accepted_idx", "decided_idx")) and f.same(proj(m, "pid"), X.frm)
            X.ob("promise-table", okk, "peer", "a promise is recorded that is not the sender's promise for the leader's current ballot", e, f)
        else:
            okk = f.same(i, sub(proj(me, "pid"), c(1))) and all(f.same(norm_ind(proj(m, k), f), norm_ind(sh.c(me, j), f)) for k, j in (("n_accepted", "accepted_round"), ("accepted_idx", "accepted_idx"), ("decided_idx", "decided_idx")))
            X.ob("promise-table", okk, "own", "a promise is recorded without a Promise message and is not the leader's own state", e, f)

    def ev(e, D, loops):
        p = X.wrote(e)
        if p and p[0] == sh.ls and e.k != "havoc" and (len(p) == 1 or p[1] == "promises_meta"):
            f = X.fs(e)
            if f is None:
                return
            me = X.sp(e)
            if len(p) == 3 and isinstance(p[2], tuple):
                promised(e, f, me, p[2][1], e.d[2])
            elif len(p) > 3:
                X.ob("promise-table", False, "part", "part of a recorded promise is changed in place", e, f)
            else:
                v = e.d[2] if len(p) == 2 else proj(e.d[2], "promises_meta")
                while v.op == "store":
                    promised(e, f, me, v.args[1], v.args[2])
                    v = v.args[0]
                X.ob("promise-table", v is sh.lead(me, "promises_meta") or (v.op == "repeat" and f.decide(isv(v.args[0], "Promised", PS)) is False), "table", "the table of promises is replaced by something other than an empty one", e, f)
        for m in X.sent(e):
            if m.kind == "Promise" and kind == "Prepare":
                f = X.fs(e)
                if f is None:
                    return
                me = X.sp(e)
                na, ai = sh.c(me, "accepted_round"), sh.c(me, "accepted_idx")
                X.ob("promise-truthful", f.same(m["n_accepted"], na) and f.same(norm_ind(m["accepted_idx"], f), norm_ind(ai, f)) and f.same(m["decided_idx"], sh.c(me, "decided_idx")), "fields", "a Promise does not report the server's own accepted round, accepted index and decided index", e, f)
                some_ = f.decide(is_some(m["log_sync"]))
                if some_ is not True:
                    g = greater(f, na, ai, proj(inc, "n_accepted"), proj(inc, "accepted_idx"))
                    X.ob("promise-ships-log", some_ is False and g is False, "none", "a Promise without the log may be sent by a server that is more up to date than the candidate", e, f)
                else:
                    ships(e, f, proj(m["log_sync"], "Some.0"), m)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None:
            return
        me = X.final(st)
        lead1 = f.decide(isv(sh.role(me), "Leader", ROLE))
        acc1 = f.decide(isv(sh.phase(me), "Accept", PHASE))
        already = sh.role(me) is sh.role(me0) and sh.phase(me) is sh.phase(me0) or all(f.decide(x) is True for x in (isv(sh.role(me0), "Leader", ROLE), isv(sh.phase(me0), "Accept", PHASE)))
        n1, n0 = sh.lead(me, "n_leader"), sh.lead(me0, "n_leader")
        mm1, mm0 = sh.lead(me, "max_promise_meta"), sh.lead(me0, "max_promise_meta")
        ms1, ms0 = sh.lead(me, "max_promise_sync"), sh.lead(me0, "max_promise_sync")
        moved = lead1 is not False and acc1 is not False and not already
        sp = X.fn.span
        if kind == "Promise" and all(f.decide(x) is True for x in prep0) and f.same(proj(inc, "n"), n0):
            g = greater(f, proj(inc, "n_accepted"), proj(inc, "accepted_idx"), proj(mm0, "n_accepted"), proj(mm0, "accepted_idx"))
            is_new = f.same(proj(mm1, "n_accepted"), proj(inc, "n_accepted")) and f.same(proj(mm1, "accepted_idx"), proj(inc, "accepted_idx"))
            is_old = f.same(proj(mm1, "n_accepted"), proj(mm0, "n_accepted")) and f.same(proj(mm1, "accepted_idx"), proj(mm0, "accepted_idx"))
            X.ob("max-promise-tracked", is_new if g is True else is_old if g is False else is_new and is_old, "meta", "the most up-to-date promise is not the lexicographic maximum of (accepted round, accepted index)", None, f, sp)
            if not moved:
                eqm = f.same(proj(inc, "n_accepted"), proj(mm0, "n_accepted")) and f.same(proj(inc, "accepted_idx"), proj(mm0, "accepted_idx"))
                s_new, s_old = f.same(ms1, proj(inc, "log_sync")), f.same(ms1, ms0)
                X.ob("max-promise-tracked", s_new if g is True else (s_old or eqm and s_new) if g is False else s_new and s_old, "sync", "the log kept for synchronisation is not that of the most up-to-date promise", None, f, sp)
        else:
            if f.same(n1, n0):
                X.ob("max-promise-tracked", (mm1 is mm0 or f.same(mm1, mm0)) and (ms1 is ms0 or f.same(ms1, ms0) or f.decide(is_none(ms1)) is True), "fixed", "the most up-to-date promise changes outside the prepare phase", None, f, sp)
            else:
                na, ai = norm_ind(sh.c(me, "accepted_round"), f), norm_ind(sh.c(me, "accepted_idx"), f)
                z = proj(mm1, "accepted_idx")
                own = f.same(proj(mm1, "n_accepted"), na) and f.same(norm_ind(proj(mm1, "accepted_idx"), f), ai)
                zb = proj(mm1, "n_accepted")
                if z is c(0) and f.decide(lt(zb, na)) is False:
                    # the zero ballot is the lowest: a ballot not above it is the zero ballot
                    f = X.assume(f, eq(na, zb))
                    if f is None:
                        return
                g = greater(f, na, ai, zb, z)
                X.ob("own-promise", (own or (z is c(0) and g is False)) and f.decide(is_none(ms1)) is True, "max", "a new leader does not start from its own log as the most up-to-date one", None, f, sp)
                tab = sh.lead(me, "promises_meta")
                X.ob("own-promise", tab.op == "store" and f.same(tab.args[1], sub(proj(me, "pid"), c(1))) and f.decide(isv(tab.args[2], "Promised", PS)) is True and tab.args[0].op == "repeat", "table", "a new leader does not start with exactly its own promise", None, f, sp)
        if not moved:
            return
        # starts accepting
        tab = sh.lead(me, "promises_meta")
        okk = (kind == "Promise" and all(f.decide(x) is True for x in prep0) and f.same(proj(inc, "n"), n1) and f.same(n1, n0)
               and has_quorum(sh, me, f, "read", tab, lambda g, x, i: g.decide(isv(x, "Promised", PS)) is True))
        if not X.ob("read-quorum", okk, "accept", "the server may start accepting without promises of a read quorum for its ballot", None, f, sp):
            return
        ops = None
        for e, _ in E.flatten_events(st.events()):
            if e.k == "st":
                ops = ops_of(e) or [("?", ())]
                break
        ops = ops or []
        d = {}
        for n, a in ops:
            d.setdefault(n, []).append(a)
        X.ob("accepted-round-set", len(d.get("set_accepted_round", ())) == 1 and f.same(d["set_accepted_round"][0][0], n1), "round", "the synchronised log is not stored as accepted in the leader's ballot", None, f, sp)
        dv = D.v["decided_idx"]
        dec0 = sh.c(me0, "decided_idx")
        if f.same(dv, dec0):
            vm = promise_max_terms(sh, f, me)
            okd = any(f.decide(lt(dec0, t)) is False for t in vm)
        else:
            okd = promise_max(sh, f, me, dv) and f.decide(lt(dv, dec0)) is False
        X.ob("adopts-highest-decided", okd, "decided", "the new leader does not adopt the highest decided index of its quorum", None, f, sp)
        g = greater(f, proj(inc, "n_accepted"), proj(inc, "accepted_idx"), proj(mm0, "n_accepted"), proj(mm0, "accepted_idx"))
        eqm = f.same(proj(inc, "n_accepted"), proj(mm0, "n_accepted")) and f.same(proj(inc, "accepted_idx"), proj(mm0, "accepted_idx"))

        def applied(M):
            s = f.decide(is_some(M))
            ap = d.get("append_on_prefix", [])
            if s is False:
                return not ap
            if s is not True:
                return False
            y = proj(M, "Some.0")
            return len(ap) == 1 and f.same(ap[0][0], proj(y, "sync_idx")) and f.same(ap[0][1], proj(y, "suffix"))
        new, old = proj(inc, "log_sync"), ms0
        okm = applied(new) if g is True else (applied(old) or eqm and applied(new)) if g is False else applied(new) and applied(old)
        X.ob("adopts-most-up-to-date", okm, "log", "the new leader does not synchronise with the log of the most up-to-date promise of its quorum", None, f, sp)
    X.W.walk(ev, ex)
