"""C25 status queries report this server's own current state"""
from ble import *

CONFIGS = ["main"]
FLOORS = {"reported": 3, "current-leader": 3, "ui": 4}
TECHNIQUE = "return-value dataflow analysis of every public status query over MIR paths, compared with the state it must report"
NOTE = "OmniPaxos::get_promise, get_decided_idx, get_compacted_idx, get_current_leader and get_ui_states, for every state"


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    return [("OmniPaxos::" + n, (lambda n: lambda: query(P, sh, n))(n)) for n in ("get_promise", "get_decided_idx", "get_compacted_idx", "get_current_leader", "get_ui_states")]


def query(P, sh, name):
    fn = method(P, "OmniPaxos", name)
    X = Plain("OmniPaxos::" + name)
    r = Run(P, fn)
    X.stats.append(r.stats())
    me = r.args[0]
    if me.op == "ref":
        me = T("sym", me.args[0])
    q, b = get(me, (sh.seq,)), get(me, (sh.ble,))
    X.ob("reported", bool(r.outs), name + "/returns", "%s never returns" % name, None, None, fn.span)

    def leader(f, ret, rule, key, pair):
        prom = proj(sh.c(q, "promise"), "pid")
        zero = eq(prom, c(0))
        for l, want in ((zero, None), (lnot(zero), prom)):
            g = f.add(l)
            if g is None:
                continue
            if want is None:
                X.ob(rule, g.decide(is_none(ret)) is True, key + "/none", "a leader is reported although none was promised", None, g, fn.span)
                continue
            v = proj(ret, "Some.0")
            X.ob(rule, g.decide(is_some(ret)) is True and g.same(proj(v, "0") if pair else v, prom), key + "/pid", "the reported leader is not the owner of the promised ballot (%s)" % show(v, 4), None, g, fn.span)
            if pair:
                for l2, w2 in ((isv(sh.phase(q), "Accept", PHASE), True), (lnot(isv(sh.phase(q), "Accept", PHASE)), False)):
                    h = g.add(l2)
                    if h is not None:
                        X.ob(rule, truth(h, proj(v, "1")) is w2, key + "/phase", "the reported phase flag is not that of this server (%s)" % show(v, 4), None, h, fn.span)

    # a server is in a phase exactly when it has promised a ballot: at the start by C04, kept by every step (C26)
    nophase, nobody = isv(sh.phase(q), "None", PHASE), eq(proj(sh.c(q, "promise"), "pid"), c(0))
    cases = []
    for st, ret in r.outs:
        for ls in ((nophase, nobody), (lnot(nophase), lnot(nobody))):
            f = st.facts
            for l in ls:
                f = f.add(l) if f is not None else None
            if f is not None:
                cases.append((f, ret))
    for f, ret in cases:
        if name in ("get_promise", "get_decided_idx", "get_compacted_idx"):
            fld = name[4:]
            X.ob("reported", f.same(ret, sh.c(q, fld)), name, "%s returns %s" % (name, show(ret, 4)), None, f, fn.span)
        elif name == "get_current_leader":
            leader(f, ret, "current-leader", "get_current_leader", True)
        else:
            ui = lambda *p: get(ret, p)
            X.ob("ui", f.same(ui("decided_idx"), sh.c(q, "decided_idx")), "decided_idx", "the decided index shown is %s" % show(ui("decided_idx"), 4), None, f, fn.span)
            X.ob("ui", f.same(ui("current_ballot"), proj(b, "current_ballot")), "current_ballot", "the ballot shown is %s" % show(ui("current_ballot"), 4), None, f, fn.span)
            leader(f, ui("current_leader"), "ui", "current_leader", False)
            for p in (("heartbeats",), ("cluster_state", "heartbeats")):
                X.ob("ui", f.same(ui(*p), proj(b, "prev_replies")) or same_seq_(seq(ui(*p), f), seq(proj(b, "prev_replies"), f), f), ".".join(p), "the heartbeats shown are %s" % show(ui(*p), 4), None, f, fn.span)
            X.dbg = ui("cluster_state", "accepted_indexes")
            acc = seq(X.dbg, f)
            want = cat([("1", c(0))], seq(sh.lead(q, "accepted_indexes"), f))
            X.ob("ui", same_seq_(acc, want, f), "accepted_indexes", "the accepted indexes shown are %s" % show_seq(acc), None, f, fn.span)
    return X.result()


def truth(f, t):
    if t.op == "c":
        return bool(t.args[0])
    return f.decide(t)
