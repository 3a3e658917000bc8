"""C16 nothing follows an accepted stop-sign"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"no-append-after-stopsign": 6, "one-stopsign": 4, "stopsign-value": 4, "stopsign-announced": 2, "batch-empty-with-stopsign": 50, "propose-gate": 4, "batch-empty-in-prepare": 10, "reconfigured-iff-decided": 3}
ASSUMES = ["entries of an AcceptDecide with the promised ballot and the expected sequence number were sent before the stop-sign (the sender's side is checked: a leader appends and sends nothing after a stop-sign)"]


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    out = sp_jobs(P, check)
    for n in ("append", "reconfigure", "is_reconfigured"):
        fn = method(P, "OmniPaxos", n)
        out.append(("OmniPaxos::" + n, api_job(P, sh, fn)))
    return out


def api_job(P, sh, fn):
    def go():
        X = SPCtx(P, sh, fn, None, prefix=(sh.seq,))
        check(X)
        return result(X)
    return go


def arg(X, *names):
    for i in range(X.fn.argc):
        if X.fn.names.get(i + 1) in names:
            return X.run.args[i]
    return None


def ss_of(X, f, v):
    """the stop-sign value v is what was proposed / received / buffered"""
    kind, inc, sh = X.kind, X.inc, X.sh
    if kind == "AcceptStopSign":
        return f.same(v, proj(inc, "ss"))
    if kind == "ForwardStopSign":
        return f.same(v, inc)
    if kind == "Promise":
        return f.same(v, proj(proj(X.me0, "buffered_stopsign"), "Some.0"))
    if X.fn.name == "reconfigure":
        return f.same(proj(v, "next_config"), X.run.args[1]) and f.same(proj(v, "metadata"), X.run.args[2])
    return False


def check(X):
    sh, me0, kind = X.sh, X.me0, X.kind
    ss0, batch0 = sh.c(me0, "stopsign"), sh.c(me0, "batched_entries")
    X.inv.rules.append(([is_some(ss0)], eq(vlen(batch0), c(0))))
    X.inv.rules.append(([isv(sh.phase(me0), "Prepare", PHASE)], eq(vlen(batch0), c(0))))
    name = X.fn.name

    def ev(e, D, loops):
        if e.k == "st":
            ops = ops_of(e)
            f = X.fs(e)
            if f is None:
                return
            if ops is None:
                X.ob("no-append-after-stopsign", False, "ops", "a storage write whose operations are not known", e, f)
                return
            sync = any(n == "append_on_prefix" for n, _ in ops)
            ss = D.v["stopsign"]
            for n, a in ops:
                if n in ("append_entry", "append_entries") and not sync:
                    v = T("arr", (a[0],)) if n == "append_entry" else a[0]
                    g = X.assume(f, is_some(ss))
                    good = g is None or g.same(vlen(v), c(0))
                    if not good and kind == "AcceptDecide":
                        good = f.decide(isv(sh.role(X.sp(e)), "Leader", ROLE)) is False or f.decide(isv(sh.role(X.sp(e)), "Follower", ROLE)) is True
                    X.ob("no-append-after-stopsign", good, n, "entries are appended although a stop-sign may already be in the log", e, f)
                elif n == "append_on_prefix":
                    # a synchronised log: the stop-sign of the same atomic write decides what follows
                    s2 = [b[0] for m, b in ops if m == "set_stopsign"]
                    good = bool(s2) or f.decide(is_none(ss)) is True or f.decide(is_some(ss)) is False
                    X.ob("no-append-after-stopsign", good, n, "a log suffix replaces the end of the log while an old stop-sign stays", e, f)
                elif n == "set_stopsign" and not sync:
                    v = a[0]
                    some = f.decide(is_some(v))
                    X.ob("one-stopsign", some is True and (f.decide(is_none(ss)) is True or f.decide(is_some(ss)) is False or kind == "AcceptStopSign"), "set", "a stop-sign is removed, or set although one may already be in the log", e, f)
                    X.ob("one-stopsign", f.same(vlen(sh.c(X.sp(e), "batched_entries")), c(0)), "batch", "a stop-sign is written while entries proposed before it are still batched", e, f)
                    if some is True:
                        X.ob("stopsign-value", ss_of(X, f, proj(v, "Some.0")), "value", "the stored stop-sign (%s) is not the proposed one" % show(v, 5), e, f)
                n0 = n
        for m in X.sent(e):
            if m.kind == "AcceptStopSign":
                f = X.fs(e)
                if f is None:
                    continue
                v = m["ss"]
                good = f.same(v, proj(D.v["stopsign"], "Some.0"))
                X.ob("stopsign-announced", good, "ss", "an AcceptStopSign carries a stop-sign other than the one in this server's log", e, f)
            elif m.kind == "ForwardStopSign":
                f = X.fs(e)
                if f is None:
                    continue
                v = m.p
                good = ss_of(X, f, v) or (kind == "AcceptSync" and f.same(v, proj(proj(me0, "buffered_stopsign"), "Some.0")))
                X.ob("stopsign-value", good, "forward", "a forwarded stop-sign (%s) is not the proposed one" % show(v, 5), e, f)
        p = X.wrote(e)
        if p is not None and p[:1] == ("buffered_stopsign",) and e.k == "w":
            f = X.fs(e)
            if f is None:
                return
            v = e.d[2]
            if f.decide(is_some(v)) is not False:
                old = proj(me0, "buffered_stopsign")
                X.ob("stopsign-value", ss_of(X, f, proj(v, "Some.0")) or f.same(v, old) or f.same(proj(v, "Some.0"), proj(old, "Some.0")), "buffer", "a buffered stop-sign (%s) is not the proposed one" % show(v, 5), e, f)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None:
            return
        me = X.final(st)
        if name == "is_reconfigured":
            dec, acc = sh.c(me0, "decided_idx"), sh.c(me0, "accepted_idx")
            for l in (is_some(ss0), is_none(ss0)):
                for k in (eq(dec, acc), lnot(eq(dec, acc))):
                    g = f.add(l)
                    g = g.add(k) if g is not None else None
                    if g is None:
                        continue
                    want = l == is_some(ss0) and k == eq(dec, acc)
                    if want:
                        good = g.decide(is_some(ret)) is True and g.same(proj(ret, "Some.0"), proj(ss0, "Some.0"))
                    else:
                        good = g.decide(is_none(ret)) is True
                    X.ob("reconfigured-iff-decided", good, "some" if want else "none", "is_reconfigured does not report exactly the decided stop-sign", None, g, X.fn.span)
            return
        if storage_failed(f):
            return
        if any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        ss1, b1 = sh.c(me, "stopsign"), sh.c(me, "batched_entries")
        if f.decide(is_some(ss1)) is not False:
            g = X.assume(f, is_some(ss1))
            if g is not None:
                good = g.same(vlen(b1), c(0))
                if not good and kind == "AcceptDecide":
                    good = True                  # see ASSUMES
                X.ob("batch-empty-with-stopsign", good, "exit", "entries may stay batched behind an accepted stop-sign", None, g, X.fn.span)
        g = X.assume(f, isv(sh.phase(me), "Prepare", PHASE))
        if g is not None:
            X.ob("batch-empty-in-prepare", g.same(vlen(b1), c(0)), "exit", "entries may stay batched in the Prepare phase, behind which a synchronised log can put a stop-sign", None, g, X.fn.span)
        if name in ("append", "reconfigure") and kind is None:
            for l in (is_some(ss0), is_none(ss0)):
                g = X.assume(f, l)
                if g is None:
                    continue
                fail = g.decide(err_of(ret))
                if l == is_some(ss0):
                    e0 = proj(ret, "Err.0")
                    if name == "append":
                        good = fail is True and e0.op == "adt" and e0.args[1] == "PendingReconfigEntry" and g.same(e0.args[2][0][1], X.run.args[1])
                    else:
                        good = fail is True and e0.op == "adt" and e0.args[1] in ("PendingReconfigConfig", "ConfigError") and g.same(dict(e0.args[2]).get("0" if e0.args[1] == "PendingReconfigConfig" else "1"), X.run.args[1]) and g.same(dict(e0.args[2]).get("1" if e0.args[1] == "PendingReconfigConfig" else "2"), X.run.args[2])
                    X.ob("propose-gate", good, "pending", "%s is not rejected with the pending-reconfiguration error and the caller's input although a stop-sign is accepted (%s)" % (name, show(ret, 4)), None, g, X.fn.span)
                    X.ob("propose-gate", same_state(X, me, me0) and not D.res, "inert", "a rejected %s changes state" % name, None, g, X.fn.span)
                else:
                    good = fail is False or (name == "reconfigure" and proj(ret, "Err.0").op == "adt" and proj(ret, "Err.0").args[1] == "ConfigError")
                    X.ob("propose-gate", good, "open", "%s is rejected although no stop-sign is accepted" % name, None, g, X.fn.span)

    X.W.walk(ev, ex)


def same_state(X, a, b):
    if a is b:
        return True
    return a.op == "rec" and all(v is proj(a.args[0], k) for k, v in a.args[1]) and a.args[0] is b
