"""C20 messages are correctly addressed and delivered exactly once to the caller"""
from ble import *

CONFIGS = ["main"]
FLOORS = {"sender": 15, "addressed": 15, "queue-only-grows": 20, "handed-out-once": 2, "dispatch": 2, "broadcast": 4, "answered": 10, "accessor": 2, "heartbeat": 2}
TECHNIQUE = "address/provenance analysis of every message construction over MIR paths, fan-out (every peer exactly once) analysis of loops, queue typestate (append-only until handed out whole)"

LEADER_SENT = ("Prepare", "AcceptSync", "AcceptDecide", "Decide", "AcceptStopSign")


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    out = sp_jobs(P, check)
    for fn in entries_(P):
        out.append((fn.label(), ble_job(P, sh, fn)))
    out.append(("OmniPaxos::handle_incoming", lambda: dispatch(P, sh)))
    out.append(("OmniPaxos::take_outgoing_messages", lambda: takes(P, sh)))
    out.append(("Message accessors", lambda: accessors(P, sh)))
    return out


def check(X):
    sh, me0, kind, name = X.sh, X.me0, X.kind, X.fn.name
    pid, peers0 = proj(me0, "pid"), proj(me0, "peers")
    PS = sh.adt("PromiseState")
    sp_ = X.fn.span
    if kind in LEADER_SENT:
        X.inv.rules.append(([eq(proj(X.inc, "n"), sh.c(me0, "promise"))], lnot(X.leader0)))   # only the owner of a ballot sends these, to others
    if name == "handle_leader":
        # the election component only reports this server's own ballot (C21)
        X.inv.rules.append(([], eq(pid, proj(X.run.args[1], "pid"))))
    to_promised = promised_followers(X)
    api_pid = X.run.args[1] if kind is None and len(X.run.args) > 1 and is_uint(X.fn.locals[2]) else None

    def address(m, f, me, to=None):
        """which of the permitted kinds of address this is"""
        to, out = m.to if to is None else to, set()
        if to is None:
            return out
        if to.op == "at":
            # some element of a list: what holds for each of its elements
            if to.args[0] is peers0 or f.same(to.args[0], proj(me, "peers")):
                out.add("peer")
            elif to.args[0].op == "comp":
                kinds = []
                for ls, x in to.args[0].args[1]:
                    g = f
                    for l in ls:
                        g = g.add(l) if g is not None else None
                    if g is not None:
                        kinds.append(address(m, g, me, x))
                if kinds:
                    out |= set.intersection(*kinds)
        if to.op in ("elem", "belem") and (to.args[0] is peers0 or f.same(to.args[0], proj(me, "peers"))):
            out.add("peer")
        if X.frm is not None and f.same(to, X.frm):
            out.add("sender")
        if kind in LEADER_SENT and f.same(to, proj(proj(X.inc, "n"), "pid")):
            out.add("owner")
        if api_pid is not None and f.same(to, api_pid):
            out.add("arg")
        if m.kind in ("Accepted", "Promise") and f.same(to, proj(m["n"], "pid")):
            out.add("owner")
        if f.decide(eq(to, pid)) is False:
            if f.same(to, proj(sh.c(me, "promise"), "pid")) or f.same(to, proj(sh.c(me0, "promise"), "pid")):
                out.add("leader")
            tab = sh.lead(me, "promises_meta")
            for t in subterms(to):
                if t.op in ("pos", "bpos") and add(t, c(1)) is to:
                    el = T("elem", *t.args) if t.op == "pos" else T("belem", *t.args)
                    if (t.args[0] is tab or f.same(t.args[0], tab)) and f.decide(isv(el, "Promised", PS)) is True:
                        out.add("follower")
        return out

    ALLOWED = {
        "PrepareReq": ("peer", "owner", "arg", "sender"), "Prepare": ("peer", "sender", "arg"), "Promise": ("sender", "owner"),
        "AcceptSync": ("sender", "follower", "peer"), "AcceptDecide": ("follower", "peer"), "AcceptStopSign": ("follower", "peer"), "Decide": ("follower", "peer"),
        "Accepted": ("sender", "owner"), "NotAccepted": ("sender", "owner"), "ProposalForward": ("leader",), "ForwardStopSign": ("leader",), "Compaction": ("peer",),
    }

    def ev(e, D, loops):
        f = X.fs(e)
        if f is None:
            return
        p = X.wrote(e)
        if p is not None and p[:1] == (sh.out,):
            if len(p) == 1:
                X.ob("queue-only-grows", e.k in ("push", "app") or name == "take_outgoing_msgs" or e.d[2] is proj(X.sp(e), sh.out), e.k, "the queue of outgoing messages is changed other than by appending", e, f)
            else:
                q = X.patched(e)
                X.ob("queue-only-grows", q is not None and (q[0], q[1]) in (("AcceptDecide", "entries"), ("AcceptDecide", "decided_idx"), ("Accepted", "accepted_idx")), "patch", "a queued message is changed in %s" % (".".join(str(k) for k in p[1:] if isinstance(k, str))), e, f)
        for m in X.sent(e):
            g = f
            if m.bound:
                for l in m.bound[1]:
                    g = g.add(l) if g is not None else None
                g = X.inv.strengthen(g) if g is not None else None
                if g is None:
                    continue
            X.ob("sender", m.frm is not None and g.same(m.frm, pid), m.kind, "%s is sent in the name of %s" % (m.kind, show(m.frm, 4) if m.frm is not None else "?"), e, g)
            a = address(m, g, X.sp(e))
            X.ob("addressed", m.kind in ALLOWED and bool(a & set(ALLOWED[m.kind])), m.kind, "%s is addressed to %s, which is not the server it is meant for" % (m.kind, show(m.to, 6) if m.to is not None else "?"), e, g)

    def cast_all(st, want, content):
        cast = Cast(X, st, want)
        if cast.none():
            return "none is sent"
        def only_peers(pid_, entry, me, f):
            return []
        fan = cast.steps[0][0] if cast.steps else None
        if fan is not None:
            me = X.sp(fan.e)
            if fan.src is None or not (fan.src is proj(me, "peers") or fan.f0.same(fan.src, proj(me, "peers"))):
                return "it is not a loop over the peers"
        return cast.problem(only_peers, content)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or storage_failed(f) or any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        me = X.final(st)
        direct = []
        for e in st.events():
            if e.k != "loop":
                for m in X.sent(e):
                    if not m.bound:
                        direct.append((m, e))
        # ---- no duplicates -----------------------------------------------------------------------
        seen = set()
        for m, e in direct:
            k = (m.kind, m.to)
            X.ob("answered", k not in seen, "dup-" + m.kind, "two %s messages are sent to the same server" % m.kind, e, f)
            seen.add(k)
        nopeers = f.decide(eq(vlen(peers0), c(0))) is True
        # ---- broadcasts ---------------------------------------------------------------------------
        if name == "handle_leader" and kind is None:
            if not (sh.c(me, "promise") is sh.c(me0, "promise") or f.same(sh.c(me, "promise"), sh.c(me0, "promise"))):
                p = None if nopeers else cast_all(st, lambda m: m.kind == "Prepare", lambda h, g, pi, en: g.same(proj(h[1].p, "n"), X.run.args[1]))
                X.ob("broadcast", p is None, "Prepare", "a new leader does not send Prepare to every peer exactly once: %s" % p, None, f, sp_)
        if kind == "Promise" and f.decide(isv(sh.phase(me), "Accept", PHASE)) is True and f.decide(isv(sh.phase(me0), "Prepare", PHASE)) is True:
            cast = Cast(X, st, lambda m: m.kind == "AcceptSync")
            p = cast.problem(to_promised, lambda h, g, pi, en: True)
            X.ob("broadcast", p is None, "AcceptSync", "a synchronised leader does not send AcceptSync to every promised follower exactly once: %s" % p, None, f, sp_)
        d0, d1 = sh.c(me0, "decided_idx"), sh.c(me, "decided_idx")
        if kind == "Accepted" and not f.same(d0, d1):
            cast = Cast(X, st, lambda m: m.kind == "Decide", lambda q: q[0] in ("AcceptDecide", "?") and q[1] in ("decided_idx", None))
            p = cast.problem(to_promised, lambda h, g, pi, en: g.same(proj(h[1].p, "decided_idx") if h[0] == "m" else h[1][2], d1))
            X.ob("broadcast", p is None, "Decide", "newly decided entries are not announced to every promised follower exactly once: %s" % p, None, f, sp_)
        if kind is None and name in ("trim", "snapshot"):
            okk = f.decide(ok_of(ret)) is True
            local = f.decide(X.run.args[2]) if name == "snapshot" else False
            cast = Cast(X, st, lambda m: m.kind == "Compaction")
            if okk and local is False:
                def content(h, g, pi, en):
                    v = h[1].p
                    if v.op != "adt" or v.args[1].lower() != name:
                        return False
                    x = v.args[2][0][1]
                    if name == "snapshot":
                        return g.same(x, X.run.args[1])
                    return True         # which index may be trimmed is C15
                p = None if nopeers else cast_all(st, lambda m: m.kind == "Compaction", content)
                X.ob("broadcast", p is None, "Compaction", "a cluster-wide %s is not sent to every peer exactly once: %s" % (name, p), None, f, sp_)
            elif f.decide(ok_of(ret)) is False or local is True:
                X.ob("broadcast", cast.none(), "no-compaction", "a failed or local %s is sent to other servers" % name, None, f, sp_)
        # ---- replies --------------------------------------------------------------------------------
        def n_direct(k, pred=lambda m: True):
            return len([1 for m, e in direct if m.kind == k and pred(m)])
        def patched(k):
            out = []
            for e in st.events():
                q = X.patched(e) if e.k != "loop" else None
                if q is not None and q[0] == k:
                    out.append(q)
            return out
        if kind == "Prepare" and any(n == "set_promise" for e, _ in E.flatten_events(st.events()) if e.k == "st" for n, a in ops_of(e) or ()):
            X.ob("answered", n_direct("Promise") == 1, "Promise", "a promise is made without telling the candidate", None, f, sp_)
        def where(*lits):
            g = f
            for l in lits:
                g = X.assume(g, l) if g is not None else None
            return g
        g = where(X.leader0, le(proj(X.inc, "n"), sh.lead(me0, "n_leader"))) if kind == "PrepareReq" else None
        if g is not None:
            X.ob("answered", n_direct("Prepare", lambda m: f.same(m.to, X.frm)) == 1, "Prepare", "a leader does not answer a request for Prepare", None, f, sp_)
        g = where(X.leader0, isv(sh.phase(me0), "Accept", PHASE), eq(proj(X.inc, "n"), sh.lead(me0, "n_leader"))) if kind == "Promise" else None
        if g is not None:
            X.ob("answered", n_direct("AcceptSync", lambda m: f.same(m.to, X.frm)) == 1, "AcceptSync", "a late promise is not answered with AcceptSync", None, f, sp_)
        fol1 = f.decide(isv(sh.role(me), "Follower", ROLE)) is True and f.decide(isv(sh.phase(me), "Accept", PHASE)) is True
        a0, a1 = sh.c(me0, "accepted_idx"), sh.c(me, "accepted_idx")
        if fol1 and (kind == "AcceptSync" and f.decide(isv(sh.phase(me0), "Prepare", PHASE)) is True or not f.same(a0, a1)):
            ms = [m["accepted_idx"] for m, e in direct if m.kind == "Accepted"] + [q[2] for q in patched("Accepted") if q[1] == "accepted_idx"]
            X.ob("answered", len(ms) == 1 and f.same(ms[0], a1), "Accepted", "a follower accepts entries without telling the leader", None, f, sp_)

    X.W.walk(ev, ex)


def ble_job(P, sh, fn):
    def go():
        X = BCtx(P, sh, fn)
        me0 = X.me0
        pid = proj(me0, "pid")
        for st, ret in X.run.outs:
            f = st.facts
            S = X.sends(st)
            X.ob("queue-only-grows", S is not None or fn.name == "outgoing_mut", "ble", "the queue of heartbeat messages is changed other than by appending", None, f, fn.span)
            for k, p, to, frm, fan, g in S or ():
                X.ob("sender", g.same(frm, pid), "hb-" + k, "a heartbeat %s is sent in the name of %s" % (k, show(frm, 4)), None, g, fn.span)
                good = (to.op in ("elem", "belem") and to.args[0] is proj(me0, "peers")) or (len(X.run.args) > 1 and g.same(to, proj(X.run.args[1], "from")))
                X.ob("addressed", good, "hb-" + k, "a heartbeat %s is addressed to %s" % (k, show(to, 5)), None, g, fn.span)
            if fn.name == "handle":
                m = X.run.args[1]
                HB = sh.adt("HeartbeatMsg")
                if f.decide(isv(proj(m, "msg"), "Request", HB)) is True:
                    rs = [x for x in S or () if x[0] == "Reply" and x[4] is None]
                    X.ob("heartbeat", len(rs) == 1 and len(S) == 1 and f.same(rs[0][2], proj(m, "from")), "reply", "a heartbeat request is not answered exactly once to its sender", None, f, fn.span)
                else:
                    X.ob("heartbeat", S == [], "noreply", "a heartbeat reply is answered", None, f, fn.span)
            if fn.name in ("hb_timeout", "new_hb_round"):
                p = to_all(me0, S or [], "Request", f)
                X.ob("heartbeat", p is None, "request", "a heartbeat round does not ask every peer exactly once: %s" % p, None, f, fn.span)
        return X.result()
    return go


def dispatch(P, sh):
    fn = method(P, "OmniPaxos", "handle_incoming")
    X = Plain(fn.label())
    ours = {f.key for t in ("SequencePaxos", "BallotLeaderElection") for f in callers_outside(P, t)}
    r = Run(P, fn, cut=lambda f: f.key in ours)
    X.stats.append(r.stats())
    m = r.args[1]
    MSG = sh.adt("Message")
    for st, ret in r.outs:
        f = st.facts
        calls = [e for e, _ in E.flatten_events(st.events()) if e.k == "call"]
        for v, t in (("SequencePaxos", sh.seq), ("BLE", sh.ble)):
            g = f.add(isv(m, v, MSG))
            if g is None:
                continue
            good = len(calls) == 1 and calls[0].d[0].endswith("::handle") and len(calls[0].d[1]) == 2 and calls[0].d[1][0] is T("ref", "self", (t,)) and g.same(calls[0].d[1][1], proj(m, v + ".0"))
            X.ob("dispatch", good, v, "an incoming %s message is not handed to that component exactly once" % v, None, g, fn.span)
    return X.result()


def takes(P, sh):
    """what the caller gets is what was in the caller's buffer, then all Sequence Paxos messages, then all BLE messages"""
    X = Plain("OmniPaxos::take_outgoing_messages")
    fn = [f for f in P.fns.values() if f.self_ty is not None and f.self_ty[0] == "adt" and f.self_ty[1] == sh.OP and f.kind != "Closure" and f.argc == 2
          and head_ref(f.locals[2]) == "Vec"]
    if len(fn) != 1:
        raise Anchor("OmniPaxos has no method that takes the outgoing messages")
    fn = fn[0]
    r = Run(P, fn)
    X.stats.append(r.stats())
    me0 = T("sym", "self")
    buf = r.args[1].args[0]
    ble_out = [n for n, t, _ in sh.fields(sh.BLE) if head(t) == "Vec" and t[2] and head(t[2][0]) == "BLEMessage"][0]
    B0, S0, L0 = T("sym", buf), get(me0, (sh.seq, sh.out)), get(me0, (sh.ble, ble_out))
    MSG = sh.adt("Message")
    for st, ret in r.outs:
        f = st.facts
        me = st.mem.get("self", me0)
        got = seq(st.mem[buf], f)
        want = [seq(B0, f), seq(S0, f)]
        lm = seq(L0, f)
        wrapped = [("*", T("comp", L0, frozenset([(frozenset(), adt(MSG, "BLE", [("0", T("belem", L0))]))])))] if lm else []
        good = any(same_seq_(got, cat(*w), f) for w in ([want[0], want[1], wrapped], [want[0], wrapped, want[1]]))
        X.ob("handed-out-once", good, "buffer", "the caller does not get exactly the queued messages in order (%s)" % show_seq(got)[:300], None, f, fn.span)
        X.ob("handed-out-once", seq(get(me, (sh.seq, sh.out)), f) == [] and seq(get(me, (sh.ble, ble_out)), f) == [], "left", "messages handed to the caller stay in the queue", None, f, fn.span)
        q = get(me, (sh.seq,))
        t = sh.lead(q, "latest_accept_meta")
        X.ob("handed-out-once", t.op == "repeat" and f.decide(is_none(t.args[0])) is True and f.decide(is_none(proj(q, "latest_accepted_meta"))) is True, "tracking",
             "the position of a message handed to the caller is kept: a later message would be changed in its place", None, f, fn.span)
    return X.result()


def is_uint(t):
    return t[0] == "prim" and t[1] == "u64" or t == ("u64",)


def head_ref(t):
    return head(t[1]) if t[0] == "ref" else None


def accessors(P, sh):
    X = Plain("Message accessors")
    for n, fld in (("get_sender", "from"), ("get_receiver", "to")):
        fn = method(P, "Message", n)
        r = Run(P, fn)
        X.stats.append(r.stats())
        m = T("sym", r.args[0].args[0])
        MSG = sh.adt("Message")
        for st, ret in r.outs:
            for v in ("SequencePaxos", "BLE"):
                g = st.facts.add(isv(m, v, MSG))
                if g is not None:
                    X.ob("accessor", g.same(ret, proj(proj(m, v + ".0"), fld)), n + v, "%s of a %s message is %s" % (n, v, show(ret, 4)), None, g, fn.span)
    return X.result()
