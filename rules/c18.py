"""C18 proposals are never lost or duplicated by the server handling them"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"one-place": 20, "buffer-untouched": 100, "buffer-drained": 4, "stopsign-one-place": 10, "forward-to-leader": 4}
TECHNIQUE = "conservation analysis over MIR paths: on every path of every operation the incoming and buffered proposals (as sequence terms) are exactly the appended, forwarded and still buffered ones"


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    out = sp_jobs(P, check)
    for n in ("append", "reconfigure"):
        out.append(("OmniPaxos::" + n, api_job(P, sh, method(P, "OmniPaxos", n))))
    return out


def api_job(P, sh, fn):
    def go():
        X = SPCtx(P, sh, fn, None, prefix=(sh.seq,))
        check(X)
        return result(X)
    return go


def check(X):
    sh, me0, kind, name = X.sh, X.me0, X.kind, X.fn.name
    ss0, batch0 = sh.c(me0, "stopsign"), sh.c(me0, "batched_entries")
    B0, S0 = proj(me0, "buffered_proposals"), proj(me0, "buffered_stopsign")
    X.inv.rules.append(([is_some(ss0)], eq(vlen(batch0), c(0))))                                       # C16
    X.inv.rules.append(([isv(sh.phase(me0), "Prepare", PHASE)], eq(vlen(batch0), c(0))))                # C16

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or storage_failed(f) or any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        for l in (is_some(ss0), is_none(ss0)):
            g = X.assume(f, l)
            if g is not None:
                one(st, ret, D, g)

    def one(st, ret, D, f):
        me = X.final(st)
        B1, S1 = proj(me, "buffered_proposals"), proj(me, "buffered_stopsign")
        fw, fs, bad = [], [], []
        for e, loops in E.flatten_events(st.events()):
            for m in X.sent(e):
                if m.kind == "ProposalForward":
                    (bad if loops or m.bound else fw).append(m)
                elif m.kind == "ForwardStopSign":
                    (bad if loops or m.bound else fs).append(m)
                elif m.kind == "?":
                    bad.append(m)
        X.ob("one-place", not bad, "loop", "proposals are forwarded in a loop", None, f, X.fn.span)
        for m in fw + fs:
            lead = proj(sh.c(me, "promise"), "pid")
            X.ob("forward-to-leader", f.same(m.to, lead) and f.decide(eq(m.to, proj(me0, "pid"))) is False and f.decide(lt(c(0), m.to)) is True, m.kind, "a proposal is forwarded to %s, which is not the current leader" % show(m.to, 4), None, f, X.fn.span)
        W = written(X, st, f)
        if W is None:
            X.ob("one-place", False, "unknown", "entries are appended in a way the analysis cannot follow", None, f, X.fn.span)
            return
        b0, b1 = seq(B0, f), seq(B1, f)
        rejected = f.decide(is_some(ss0)) is True
        # ---- entries ------------------------------------------------------------------------
        new = []
        if name == "append" and kind is None:
            new = [("1", X.run.args[1])] if f.decide(ok_of(ret)) is True else []
        elif kind == "ProposalForward" and not rejected:
            new = seq(X.inc, f)
        have = cat(seq(batch0, f), [])
        acc = cat(W, seq(sh.c(me, "batched_entries"), f))
        recv = seq(proj(X.inc, "entries"), f) if kind == "AcceptDecide" else []
        became_leader = kind == "Promise" and f.decide(isv(sh.phase(me), "Accept", PHASE)) is True and f.decide(isv(sh.phase(me0), "Prepare", PHASE)) is True
        follows = kind == "AcceptSync" and f.decide(isv(sh.phase(me), "Accept", PHASE)) is True and f.decide(isv(sh.phase(me0), "Prepare", PHASE)) is True
        buf = same_seq_(b1, b0, f)
        log = same_seq_(acc, have, f)
        if kind == "AcceptDecide":
            log = log or same_seq_(acc, cat(have, recv), f)
        n = len(fw)
        if new:
            ways = [
                n == 0 and log and same_seq_(b1, cat(b0, new), f),
                n == 0 and buf and same_seq_(acc, cat(have, new), f) and f.decide(isv(sh.role(me0), "Leader", ROLE)) is True,
                n == 1 and buf and log and same_seq_(seq(fw[0].p, f), new, f),
            ]
            g = X.assume(f, isv(sh.role(me0), "Leader", ROLE))
            g = X.assume(g, isv(sh.phase(me0), "Accept", PHASE)) if g is not None else None
            if g is not None:
                X.ob("leader-appends", bool(ways[1]), "entries", "a leader in the accept phase does not append a proposal (buffered: %s, forwarded: %d)" % (show_seq(b1), n), None, g, X.fn.span)
            X.ob("one-place", sum(map(bool, ways)) == 1, "new", "the proposal %s ends in not exactly one place (appended: %s; batched before: %s; buffered: %s; forwarded: %s)" % (show_seq(new), show_seq(acc), show_seq(have), show_seq(b1), [show(m.p, 4) for m in fw]), None, f, X.fn.span)
        elif became_leader or follows:
            ways = [
                n == 0 and log and buf,
                n == 0 and not b1 and became_leader and same_seq_(acc, cat(have, b0), f),
                n == 1 and not b1 and log and follows and same_seq_(seq(fw[0].p, f), b0, f),
            ]
            if not b0:
                ways = [not b1 and n == 0 and log, False, False]
            X.ob("one-place", any(ways), "buffered", "the buffered proposals end in not exactly one place (appended: %s; buffered: %s; forwarded: %s)" % (show_seq(acc), show_seq(b1), [show(m.p, 4) for m in fw]), None, f, X.fn.span)
            pid, lead = proj(me0, "pid"), proj(sh.c(me, "promise"), "pid")
            # a stop-sign that was in the log before, or adopted, keeps the buffer as it is
            if became_leader:
                split = [is_none(sync_stopsign(st))]
            else:
                split = [is_none(D.v["stopsign"]), lnot(eq(lead, pid)), lnot(eq(lead, c(0)))]
            g = f
            for l in split:
                g = X.assume(g, l) if g is not None else None
            if g is not None:
                X.ob("buffer-drained", not seq(B1, g) and g.decide(is_some(S1)) is False, "drained", "a newly synchronised server leaves proposals in its buffer (%s, stop-sign %s)" % (show_seq(seq(B1, g)), show(S1, 4)), None, g, X.fn.span)
        else:
            X.ob("buffer-untouched", buf and n == 0, "entries", "buffered proposals are changed (%s) or forwarded" % show_seq(b1), None, f, X.fn.span)
            X.ob("buffer-untouched", log, "log", "entries are appended that were not proposed, or batched entries are lost (%s, batched before: %s)" % (show_seq(acc), show_seq(have)), None, f, X.fn.span)
        # ---- stop-sign -----------------------------------------------------------------------
        sets = [a[0] for e, _ in E.flatten_events(st.events()) if e.k == "st" and not any(n2 == "append_on_prefix" for n2, _ in ops_of(e) or ()) for n2, a in ops_of(e) or () if n2 == "set_stopsign"]
        keep = f.same(S1, S0) or (f.decide(is_none(S0)) is True and f.decide(is_none(S1)) is True) or (f.decide(is_some(S0)) is True and f.decide(is_some(S1)) is True and f.same(proj(S0, "Some.0"), proj(S1, "Some.0")))
        newss = None
        if name == "reconfigure" and kind is None and f.decide(ok_of(ret)) is True:
            newss = ("args", X.run.args[1], X.run.args[2])
        elif kind == "ForwardStopSign" and not rejected:
            newss = ("ss", X.inc)

        def is_new(v):
            if newss[0] == "ss":
                return f.same(v, newss[1])
            return f.same(proj(v, "next_config"), newss[1]) and f.same(proj(v, "metadata"), newss[2])
        if newss:
            kept_other = f.decide(is_some(S0)) is not False and keep
            ways = [
                not sets and not fs and f.decide(is_some(S1)) is True and is_new(proj(S1, "Some.0")),
                not fs and keep and len(sets) == 1 and f.decide(is_some(sets[0])) is True and is_new(proj(sets[0], "Some.0")) and f.decide(isv(sh.role(me0), "Leader", ROLE)) is True,
                not sets and keep and len(fs) == 1 and is_new(fs[0].p),
                not sets and not fs and f.decide(is_some(S0)) is True and keep,       # of competing pending reconfigurations one is kept
            ]
            g = X.assume(f, isv(sh.role(me0), "Leader", ROLE))
            g = X.assume(g, isv(sh.phase(me0), "Accept", PHASE)) if g is not None else None
            if g is not None:
                X.ob("leader-appends", bool(ways[1]), "stopsign", "a leader in the accept phase does not append a proposed reconfiguration (buffered: %s)" % show(S1, 4), None, g, X.fn.span)
            X.ob("stopsign-one-place", any(ways), "new", "the proposed reconfiguration ends in not exactly one place (stored: %d, forwarded: %d, buffered: %s)" % (len(sets), len(fs), show(S1, 4)), None, f, X.fn.span)
        elif kind == "AcceptStopSign":
            X.ob("stopsign-one-place", keep and not fs, "untouched", "the buffered stop-sign is changed or forwarded", None, f, X.fn.span)
        elif (became_leader or follows):
            for l in (is_some(S0), is_none(S0)):
                g = X.assume(f, l)
                if g is None:
                    continue
                if l == is_none(S0):
                    good = g.decide(is_some(S1)) is False and not fs and not sets
                else:
                    old = proj(S0, "Some.0")
                    ways = [
                        not sets and not fs and g.decide(is_some(S1)) is True and g.same(proj(S1, "Some.0"), old),
                        became_leader and not fs and len(sets) == 1 and g.decide(is_some(S1)) is False and g.same(proj(sets[0], "Some.0"), old),
                        follows and not sets and len(fs) == 1 and g.decide(is_some(S1)) is False and g.same(fs[0].p, old),
                    ]
                    good = any(ways)
                X.ob("stopsign-one-place", good, "buffered", "the buffered reconfiguration ends in not exactly one place (stored: %d, forwarded: %d, buffered: %s)" % (len(sets), len(fs), show(S1, 4)), None, g, X.fn.span)
        else:
            X.ob("stopsign-one-place", keep and not fs and not sets, "untouched", "the buffered stop-sign is changed (%s), forwarded or stored" % show(S1, 4), None, f, X.fn.span)

    def sync_stopsign(st):
        """the stop-sign in the log right after the synchronisation"""
        v = ss0
        for e, _ in E.flatten_events(st.events()):
            if e.k == "st":
                ops = ops_of(e) or ()
                if any(n == "set_accepted_round" for n, _ in ops):
                    for n, a in ops:
                        if n == "set_stopsign":
                            v = a[0]
        return v

    X.W.walk(lambda e, D, l: None, ex)
