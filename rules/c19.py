"""C19 batching preserves entries and order"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"batch-conserved": 50, "entries-shipped": 2, "nothing-else-shipped": 20, "follower-appends": 2, "stopsign-last": 2, "stopsign-shipped": 1}
TECHNIQUE = "sequence-term dataflow over MIR paths: batch + new entries = entries written + batch afterwards; fan-out analysis of the AcceptDecide loops (every promised follower, exactly once, exactly the entries written)"


def jobs(progs):
    P = progs["main"]
    return sp_jobs(P, check)


def check(X):
    sh, me0, kind, name = X.sh, X.me0, X.kind, X.fn.name
    ss0, batch0 = sh.c(me0, "stopsign"), sh.c(me0, "batched_entries")
    B0 = proj(me0, "buffered_proposals")
    X.inv.rules.append(([is_some(ss0)], eq(vlen(batch0), c(0))))                                       # C16
    X.inv.rules.append(([isv(sh.phase(me0), "Prepare", PHASE)], eq(vlen(batch0), c(0))))                # C16
    if kind in ("Prepare", "AcceptSync", "AcceptDecide", "Decide", "AcceptStopSign"):
        # only the owner of a ballot sends these messages, and only to other servers (C20); a leader has promised its own ballot (C01)
        X.inv.rules.append(([eq(proj(X.inc, "n"), sh.c(me0, "promise"))], lnot(X.leader0)))
    to_promised = promised_followers(X)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or storage_failed(f) or any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        for l in (is_some(ss0), is_none(ss0)):
            g = X.assume(f, l)
            if g is not None:
                one(st, ret, D, g)

    def one(st, ret, D, f):
        me = X.final(st)
        W = written(X, st, f)
        if W is None:
            X.ob("batch-conserved", False, "unknown", "entries are appended in a way the analysis cannot follow", None, f, X.fn.span)
            return
        have = seq(batch0, f)
        b1 = seq(sh.c(me, "batched_entries"), f)
        acc = cat(W, b1)
        new = []
        if name == "append" and kind is None:
            new = [("1", X.run.args[1])]
        elif kind == "ProposalForward":
            new = seq(X.inc, f)
        elif kind == "AcceptDecide":
            new = seq(proj(X.inc, "entries"), f)
        elif kind == "Promise":
            new = seq(B0, f)
        got_new = same_seq_(acc, cat(have, new), f)
        good = got_new or same_seq_(acc, cat(have), f)
        X.ob("batch-conserved", good, "batch", "batched entries are lost, duplicated or reordered (batched before: %s; new: %s; written: %s; batched after: %s)" % (show_seq(have), show_seq(new), show_seq(W), show_seq(b1)), None, f, X.fn.span)
        if kind == "AcceptDecide":
            s0, s1 = proj(me0, "current_seq_num"), proj(me, "current_seq_num")
            if not f.same(s0, s1):
                X.ob("follower-appends", got_new, "msg", "a message counted as received does not append exactly its entries (%s; batched before: %s)" % (show_seq(acc), show_seq(have)), None, f, X.fn.span)
            else:
                X.ob("follower-appends", same_seq_(acc, cat(have), f), "nomsg", "entries of a message that does not count as received are appended", None, f, X.fn.span)
        # ---- stop-sign after the entries -------------------------------------------------------
        ss, seen = None, False
        for e, loops in E.flatten_events(st.events()):
            if e.k != "st":
                continue
            ops = ops_of(e)
            if ops is None or any(n == "append_on_prefix" or n == "set_accepted_round" for n, _ in ops):
                continue
            for n, a in ops:
                if n == "set_stopsign":
                    seen, ss = True, a[0]
                elif n in ("append_entry", "append_entries") and seen:
                    X.ob("stopsign-last", seq(a[0], f) == [] if n == "append_entries" else False, "order", "entries are written after the stop-sign", e, f)
        if seen and f.decide(is_some(ss)) is True:
            X.ob("stopsign-last", not b1, "batch", "a stop-sign is written while entries are still in the batch (%s)" % show_seq(b1), None, f, X.fn.span)
        # ---- what the leader ships ---------------------------------------------------------------
        L = [isv(sh.role(me0), "Leader", ROLE), isv(sh.phase(me0), "Accept", PHASE), isv(sh.role(me), "Leader", ROLE), isv(sh.phase(me), "Accept", PHASE)]
        cast = Cast(X, st, lambda m: m.kind in ("AcceptDecide", "?"), lambda p: p[0] in ("AcceptDecide", "?") and p[1] in ("entries", None))
        scast = Cast(X, st, lambda m: m.kind == "AcceptStopSign")
        g = f
        for l in L:
            g = X.assume(g, l) if g is not None else None
        if g is None:
            X.ob("nothing-else-shipped", cast.none(), "role", "AcceptDecide is sent by a server that is not a leader in the accept phase", None, f, X.fn.span)
            X.ob("nothing-else-shipped", scast.none(), "ss-role", "AcceptStopSign is sent by a server that is not a leader in the accept phase", None, f, X.fn.span)
            return

        def same_entries(hit, h, pid, entry):
            k, m, x = hit
            if k == "m":
                return same_seq_(seq(proj(m.p, "entries"), h), W, h)
            return x.k in ("push", "app") and same_seq_([("1", m[2])] if x.k == "push" else seq(m[2], h), W, h)
        if W:
            p = cast.problem(to_promised, same_entries)
            X.ob("entries-shipped", p is None, "ship", "the entries written by the leader (%s) are not sent to every promised follower exactly once: %s" % (show_seq(W), p), None, g, X.fn.span)
        else:
            X.ob("nothing-else-shipped", cast.none() or cast.problem(to_promised, same_entries) is None, "empty", "entries are sent that were not written", None, g, X.fn.span)
        if seen and f.decide(is_some(ss)) is True:
            p = scast.problem(to_promised, lambda hit, h, pid, entry: h.same(proj(hit[1].p, "ss"), proj(ss, "Some.0")))
            X.ob("stopsign-shipped", p is None, "ship", "the stop-sign accepted by the leader is not sent to every promised follower exactly once: %s" % p, None, g, X.fn.span)
            if W and cast.steps and scast.steps:
                order = [e for e in st.events()]
                i = [k for k, e in enumerate(order) if e is cast.steps[0][0].e]
                j = [k for k, e in enumerate(order) if e is scast.steps[0][0].e]
                X.ob("stopsign-shipped", bool(i and j) and i[0] < j[0], "order", "the stop-sign is sent before the entries that precede it", None, g, X.fn.span)

    X.W.walk(lambda e, D, l: None, ex)
