"""C24 ticks drive every timer, lost messages are resent"""
from ble import *

CONFIGS = ["main"]
FLOORS = {"clock": 2, "tick": 2, "clock-owned": 3, "resend-leader": 3, "resend-follower": 2, "promise-cached": 1, "flushed": 1}
TECHNIQUE = "exhaustive transfer-function check of the clock, event-count analysis of tick with the timer handlers as opaque calls, fan-out (who gets what, exactly once) analysis of the resend paths over MIR"
CLOCK = "LogicalClock"


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    return [("LogicalClock", lambda: clock(P, sh)), ("OmniPaxos::tick", lambda: tick(P, sh)), ("clock ownership", lambda: owned(P, sh))] + sp_jobs(P, check)


class Clk:
    """the clock: which field counts and in which direction"""

    def __init__(self, P, sh):
        self.P, self.sh = P, sh
        self.path = sh.adt(CLOCK)
        fns = [f for f in P.fns.values() if f.self_ty is not None and f.self_ty[0] == "adt" and f.self_ty[1] == self.path and f.kind != "Closure" and not f.trait]
        self.ctors = [f for f in fns if not (f.argc and f.locals[1][0] == "ref")]
        self.ticks = [f for f in fns if f.argc == 1 and f.locals[1][0] == "ref" and f.locals[0] in (("prim", "bool"), ("bool",))]
        if len(self.ctors) != 1 or len(self.ticks) != 1:
            raise Anchor("the logical clock has no single constructor and tick method")
        self.ctor, self.tick = self.ctors[0], self.ticks[0]
        fl = [n for n, t, _ in sh.fields(self.path)]
        r = Run(P, self.tick)
        me0 = T("sym", self_of(r))
        moved = [n for n in fl if any(get(st.mem.get(self_of(r), me0), (n,)) is not proj(me0, n) for st, _ in r.outs)]
        if len(fl) != 2 or len(moved) != 1:
            raise Anchor("the logical clock is not a counter and a limit")
        self.count = moved[0]
        self.limit = [n for n in fl if n != self.count][0]
        self.run = r
        self.cr = Run(P, self.ctor)
        self.down = all(proj(ret, self.count) is self.cr.args[0] for st, ret in self.cr.outs)

    def elapsed(self, v):
        t, l = proj(v, self.count), proj(v, self.limit)
        return t, l


def self_of(r):
    return r.args[0].args[0]


def clock(P, sh):
    X = Plain("LogicalClock")
    k = Clk(P, sh)
    X.stats += [k.run.stats(), k.cr.stats()]
    a = k.cr.args[0]
    for st, ret in k.cr.outs:
        f = st.facts
        X.ob("clock", f.same(proj(ret, k.limit), a) and f.same(proj(ret, k.count), a if k.down else c(0)), "new", "a new clock does not start a full period (count %s, limit %s)" % (show(proj(ret, k.count), 3), show(proj(ret, k.limit), 3)), None, f, k.ctor.span)
    me0 = T("sym", self_of(k.run))
    t, l = proj(me0, k.count), proj(me0, k.limit)
    for st, ret in k.run.outs:
        me = st.mem.get(self_of(k.run), me0)
        t1, l1 = proj(me, k.count), proj(me, k.limit)
        for fired in (True, False):
            f = st.facts
            for x in ([lt(c(0), t), le(t, l)] if k.down else [lt(t, l)]) + [ret if fired else lnot(ret)]:
                f = f.add(x) if f is not None else None
            if f is None:
                continue
            last = eq(t, c(1)) if k.down else eq(add(t, c(1)), l)
            X.ob("clock", f.decide(last) is fired or f.add(lnot(last) if fired else last) is None, "fires-%s" % fired, "a clock %s although its period %s" % ("fires" if fired else "does not fire", "is not over" if fired else "is over"), None, f, k.tick.span)
            want = (l if k.down else c(0)) if fired else (sub(t, c(1)) if k.down else add(t, c(1)))
            X.ob("clock", f.same(t1, want), "count-%s" % fired, "after a tick that %s the clock stands at %s" % ("fires" if fired else "does not fire", show(t1, 4)), None, f, k.tick.span)
            X.ob("clock", f.same(l1, l), "limit", "a tick changes the period of a clock", None, f, k.tick.span)
    return X.result()


WHAT = (("election", "election_tick_timeout"), ("resend", "resend_message_tick_timeout"), ("flush", "flush_batch_tick_timeout"))


def config_clocks(P, sh, k):
    """timer -> clock field of OmniPaxos, by the configured period it is built with"""
    fn = method(P, "OmniPaxosConfig", "build")
    r = Run(P, fn, cut=lambda f: f.self_ty is not None and f.self_ty[0] == "adt" and f.self_ty[1] in (sh.SP, sh.BLE))
    me = r.args[0]
    out = {}
    n = 0
    for st, ret in r.outs:
        if st.facts.decide(ok_of(ret)) is not True:
            continue
        n += 1
        op = proj(ret, "Ok.0")
        for w, cf in WHAT:
            v = proj(proj(me, "server_config"), cf)
            hits = [fl for fl in clock_fields(sh) if proj(proj(op, fl), k.limit) is v]
            if len(hits) != 1:
                return None, r, w
            if out.setdefault(w, hits[0]) != hits[0]:
                return None, r, w
            full = v if k.down else c(0)
            if proj(proj(op, hits[0]), k.count) is not full:
                return None, r, w
    if not n:
        raise Anchor("build never returns a server")
    return out, r, None


def clock_fields(sh):
    return [n for n, t, _ in sh.fields(sh.OP) if head(t) == CLOCK]


def tick(P, sh):
    X = Plain("OmniPaxos::tick")
    k = Clk(P, sh)
    X.stats.append(k.run.stats())
    cl, br, bad = config_clocks(P, sh, k)
    X.stats.append(br.stats())
    X.ob("tick", cl is not None, "built", "no clock runs with the configured %s period" % bad, None, None, br.fn.span)
    if cl is None:
        return X.result()
    fn = method(P, "OmniPaxos", "tick")
    ours = {f.key for t in ("SequencePaxos", "BallotLeaderElection") for f in callers_outside(P, t) if f.argc and f.locals[1][0] == "ref" and mutable(f.locals[1])}
    r = Run(P, fn, cut=lambda f: f.key in ours)
    X.stats.append(r.stats())
    me0 = T("sym", "self")
    seqp, ble = proj(me0, sh.seq), proj(me0, sh.ble)
    for st, ret in r.outs:
        f0 = st.facts
        for fl in cl.values():
            v = proj(me0, fl)
            for x in ([lt(c(0), proj(v, k.count)), le(proj(v, k.count), proj(v, k.limit))] if k.down else [lt(proj(v, k.count), proj(v, k.limit))]):
                f0 = f0.add(x) if f0 is not None else None
        if f0 is None:
            continue
        me = st.mem.get("self", me0)
        calls = [e for e, ls in E.flatten_events(st.events()) if e.k == "call"]
        names = [e.d[0].split("::")[-1] for e in calls]
        loops = any(e.k == "loop" for e in st.events())
        X.ob("tick", not loops, "loop", "tick runs handlers in a loop", None, f0, fn.span)
        fired = {}
        for w, fl in cl.items():
            v, v1 = proj(me0, fl), proj(me, fl)
            t, l, t1 = proj(v, k.count), proj(v, k.limit), proj(v1, k.count)
            last = eq(t, c(1)) if k.down else eq(add(t, c(1)), l)
            d = f0.decide(last)
            if d is None:
                d = True if f0.add(lnot(last)) is None else False if f0.add(last) is None else None
            fired[w] = d
            X.ob("tick", d is not None, "split-" + w, "whether the %s timer is due does not matter to tick" % w, None, f0, fn.span)
            want = (l if k.down else c(0)) if d else (sub(t, c(1)) if k.down else add(t, c(1)))
            X.ob("tick", f0.same(t1, want) and f0.same(proj(v1, k.limit), l), "once-" + w, "a tick does not advance the %s clock exactly once (it goes from %s to %s)" % (w, show(t, 4), show(t1, 4)), None, f0, fn.span)
        hb = [e for e, n in zip(calls, names) if n == "hb_timeout"]
        hl = [e for e, n in zip(calls, names) if n == "handle_leader"]
        X.ob("tick", len(hb) == (1 if fired["election"] else 0), "election", "the leader election runs %d times on a tick on which its timer %s" % (len(hb), "fires" if fired["election"] else "does not fire"), hb[0] if hb else None, f0, fn.span)
        for w, n in (("resend", "resend_message_timeout"), ("flush", "flush_batch_timeout")):
            m = names.count(n)
            X.ob("tick", m == (1 if fired[w] else 0), w, "%s runs %d times on a tick on which its timer %s" % (n, m, "fires" if fired[w] else "does not fire"), None, f0, fn.span)
        others = [n for n in names if n not in ("hb_timeout", "handle_leader", "resend_message_timeout", "flush_batch_timeout")]
        X.ob("tick", not others, "others", "tick also runs %s" % ", ".join(others), None, f0, fn.span)
        if len(hb) == 1:
            e = hb[0]
            i = calls.index(e)
            env = e.env if e.env is not None else me0
            sq = proj(env, sh.seq)
            stt, prom = (sh.role(sq), sh.phase(sq)), sh.c(sq, "promise")
            a = e.d[2]
            g = e.facts
            good = len(a) == 3 and g.same(a[2], prom) and g.same(proj(a[1], "0"), stt[0]) and g.same(proj(a[1], "1"), stt[1])
            X.ob("tick", good, "election-args", "the election is not given the current state and promise (%s)" % ", ".join(show(x, 4) for x in a[1:]), e, g)
            res = result_of(st, e, i)
            if res is None:
                X.ob("tick", False, "election-result", "the outcome of the election is not used", e, g)
                continue
            som = f0.decide(is_some(res))
            if som is True:
                X.ob("tick", len(hl) == 1 and len(hl[0].d[1]) == 2 and f0.same(hl[0].d[1][1], proj(res, "Some.0")) and calls.index(hl[0]) > i, "new-leader", "an elected leader is not handed to Sequence Paxos", e, f0, fn.span)
            elif som is False:
                X.ob("tick", not hl, "no-leader", "handle_leader is called although no leader was elected", e, f0, fn.span)
            else:
                X.ob("tick", False, "new-leader", "tick does not look at the outcome of the election", e, f0, fn.span)
        else:
            X.ob("tick", not hl, "no-election", "handle_leader is called without an election", None, f0, fn.span)
    return X.result()


def mutable(t):
    return len(t) > 2 and t[2] in (True, "mut", "Mut") or (len(t) > 1 and t[0] == "ref" and t[1] == "mut")


def result_of(st, e, i):
    rs = [t for l in st.facts.lits for t in subterms(l) if t.op == "ret"]
    rs = [t for t in rs if "hb_timeout" in str(t.args[0])]
    return rs[0] if rs else None


def owned(P, sh):
    """nothing but the tick moves a clock"""
    X = Plain("clock ownership")
    k = Clk(P, sh)
    fields = clock_fields(sh)
    n = 0
    ours = {f.key for t in ("SequencePaxos", "BallotLeaderElection") for f in callers_outside(P, t)}
    for fn in P.fns.values():
        if fn.kind == "Closure" or not (fn.argc and fn.locals[1][0] == "ref" and mutable(fn.locals[1]) and head_of(fn.locals[1]) == "OmniPaxos"):
            continue
        if fn.name == "tick":
            continue
        r = Run(P, fn, cut=lambda f: f.key in ours)
        X.stats.append(r.stats())
        me0 = T("sym", "self")
        for st, ret in r.outs:
            me = st.mem.get("self", me0)
            for fl in fields:
                X.ob("clock-owned", proj(me, fl) is proj(me0, fl) or called_by_tick(P, fn), fn.name + "-" + fl, "%s moves the clock %s outside tick" % (fn.name, fl), None, st.facts, fn.span)
    return X.result()


def called_by_tick(P, fn):
    """a helper that only tick (or its helpers) call"""
    if getattr(fn, "public", False):
        return False
    who = [g for g in P.fns.values() if fn.key in called(g)]
    return bool(who) and all(g.name == "tick" or called_by_tick(P, g) for g in who if g is not fn)


def head_of(t):
    for x in t:
        if isinstance(x, tuple) and x and x[0] == "adt":
            return x[1].split("::")[-1]
    return None


# ---- resending ------------------------------------------------------------------------------------
def check(X):
    sh, me0, kind, name = X.sh, X.me0, X.kind, X.fn.name
    pm0 = proj(me0, "cached_promise_message")
    waiting = [isv(sh.phase(me0), "Prepare", PHASE), lnot(X.leader0)]
    X.inv.rules.append((waiting, is_some(pm0)))                                                     # shown by cached()
    X.inv.rules.append((waiting, eq(proj(proj(pm0, "Some.0"), "n"), sh.c(me0, "promise"))))
    if kind is None and name == "handle_leader":
        # the election component only reports this server's own ballot (C21)
        X.inv.rules.append(([], eq(proj(me0, "pid"), proj(X.run.args[1], "pid"))))
    if kind is None and name == "resend_message_timeout":
        resend(X)
    if kind is None and name == "flush_batch_timeout":
        X.W.walk(lambda e, D, loops: None, lambda st, ret, D: flushed(X, st))
    cached(X)


def flushed(X, st):
    sh, me0 = X.sh, X.me0
    f = X.inv.strengthen(st.facts)
    if f is None or storage_failed(f):
        return
    g = X.assume(f, isv(sh.phase(me0), "Accept", PHASE))
    if g is None:
        return
    b = sh.c(X.final(st), "batched_entries")
    X.ob("flushed", seq(b, g) == [], "batch", "entries stay in the batch after the batch timer fired (%s)" % show(b, 4), None, g, X.fn.span)


def resend(X):
    sh, me0 = X.sh, X.me0
    PS = sh.adt("PromiseState")
    peers0 = proj(me0, "peers")
    sp_ = X.fn.span
    to_promised = promised_followers(X)

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or storage_failed(f):
            return
        me = X.final(st)
        nopeers = f.decide(eq(vlen(peers0), c(0))) is True
        role = [r for r in ("Leader", "Follower") if X.assume(f, isv(sh.role(me0), r, ROLE)) is not None]
        for r in role:
            g = X.assume(f, isv(sh.role(me0), r, ROLE))
            for ph in ("Prepare", "Accept", "Recover", "None"):
                h = X.assume(g, isv(sh.phase(me0), ph, PHASE))
                if h is None:
                    continue
                (leader if r == "Leader" else follower)(st, h, me, ph, nopeers)

    def leader(st, f, me, ph, nopeers):
        if ph not in ("Prepare", "Accept"):
            return
        n = sh.lead(me0, "n_leader")
        cast = Cast(X, st, lambda m: m.kind == "Prepare")

        def todo(pid, entry, me_, g):
            return [isv(entry, "NotPromised", PS)]

        p = cast.problem(lambda *a: todo(*a) + ([lnot(eq(a[0], proj(a[2], "pid")))] if cast.steps[0][0].src is not proj(me0, "peers") else []),
                         lambda h, g, pid, entry: h[0] == "m" and g.same(h[1]["n"], n))
        if cast.none() and nopeers:
            p = None
        X.ob("resend-leader", p is None, "prepare-" + ph, "on the resend timeout the leader does not send Prepare to every server that has not answered: %s" % p, None, f, sp_)
        tab = sh.lead(me, "promises_meta")
        X.ob("resend-leader", tab is sh.lead(me0, "promises_meta") or f.same(tab, sh.lead(me0, "promises_meta")), "table", "a resend changes what is known of the followers", None, f, sp_)
        sq = sh.lead(me, "follower_seq_nums")
        X.ob("resend-leader", sq is sh.lead(me0, "follower_seq_nums") or f.same(sq, sh.lead(me0, "follower_seq_nums")), "seqnum", "a re-sent message uses up a new sequence number", None, f, sp_)
        dec = Cast(X, st, lambda m: m.kind == "Decide")
        ass = Cast(X, st, lambda m: m.kind == "AcceptStopSign")
        ss = sh.c(me0, "stopsign")
        if ph == "Prepare":
            return
        for has in (True, False):
            g = X.assume(f, is_some(ss) if has else is_none(ss))
            if g is None:
                continue
            if not has:
                X.ob("resend-leader", ass.none() and dec.none(), "no-stopsign", "stop-sign messages are re-sent without a stop-sign", None, g, sp_)
                continue
            d, a = sh.c(me0, "decided_idx"), sh.c(me0, "accepted_idx")
            for decided in (True, False):
                h = X.assume(g, eq(d, a) if decided else lt(d, a))
                if h is None:
                    continue
                if decided:
                    p = one(dec, st, h, to_promised, lambda hit, k, pid, entry: hit[0] == "m" and k.same(hit[1]["n"], n) and k.same(hit[1]["decided_idx"], d) and same_seqnum(hit, k, pid), [])
                    X.ob("resend-leader", p is None, "decide", "a decided stop-sign is not announced again to every promised follower: %s" % p, None, h, sp_)
                else:
                    def behind(pid, entry, me_, k):
                        return to_promised(pid, entry, me_, k) + [lnot(eq(T("at", sh.lead(me_, "accepted_indexes"), sub(pid, c(1))), a))]
                    p = one(ass, st, h, behind, lambda hit, k, pid, entry: hit[0] == "m" and k.same(hit[1]["n"], n) and k.same(hit[1]["ss"], proj(ss, "Some.0")) and same_seqnum(hit, k, pid), [])
                    X.ob("resend-leader", p is None, "stopsign", "an undecided stop-sign is not sent again to every promised follower that has not accepted it: %s" % p, None, h, sp_)

    def same_seqnum(hit, k, pid):
        """the sequence number is the one the follower's last message had"""
        return k.same(hit[1]["seq_num"], T("at", sh.lead(me0, "follower_seq_nums"), sub(pid, c(1))))

    def one(cast, st, h, whom, content, _):
        """problem of the cast under the extra facts h"""
        keep = []
        for fan, acting in cast.steps:
            g = fan.f0
            for l in h.lits:
                g = g.add(l) if g is not None else None
            alts = []
            for a in acting:
                q = a.f
                for l in h.lits:
                    q = q.add(l) if q is not None else None
                if q is not None and X.inv.strengthen(q) is not None:
                    a.f = q
                    alts.append(a)
            if g is not None and alts:
                fan.f0 = g
                for a in fan.alts:
                    if a not in alts:
                        for l in h.lits:
                            nf = a.f.add(l) if a.f is not None else None
                            if nf is None:
                                break
                            a.f = nf
                keep.append((fan, alts))
        cast.steps = keep
        return cast.problem(whom, content)

    def follower(st, f, me, ph, nopeers):
        pm = proj(me0, "cached_promise_message")
        prom = Cast(X, st, lambda m: m.kind == "Promise")
        req = Cast(X, st, lambda m: m.kind == "PrepareReq")

        def ask():
            if nopeers and req.none():
                return None
            return req.problem(lambda pid, entry, me_, g: [], lambda h, g, pid, entry: h[0] == "m" and g.same(h[1]["n"], sh.c(me0, "promise"))) or (None if req.steps[0][0].src is peers0 or f.same(req.steps[0][0].src, peers0) else "it is not a loop over the peers")
        if ph == "Prepare":
            for has in (True, False):
                g = X.assume(f, is_some(pm) if has else is_none(pm))
                if g is None:
                    continue
                if has:
                    ok = len(prom.direct) == 1 and not prom.steps and req.none()
                    if ok:
                        m = prom.direct[0][1]
                        ok = g.same(m.p, proj(pm, "Some.0")) and g.same(m.to, proj(proj(proj(pm, "Some.0"), "n"), "pid"))
                    X.ob("resend-follower", ok, "promise", "a follower waiting for the leader's reply does not send its promise again", None, g, sp_)
                    X.ob("resend-follower", g.same(proj(me, "cached_promise_message"), pm), "keep", "the promise to re-send is lost on a resend", None, g, sp_)
        elif ph == "Recover":
            p = ask()
            X.ob("resend-follower", p is None and prom.none(), "preparereq", "a recovering server does not ask every peer for Prepare again: %s" % p, None, f, sp_)
        if ph in ("Accept", "None"):
            X.ob("resend-follower", prom.none() and req.none(), "quiet", "a follower with nothing to re-send sends messages", None, f, sp_)

    X.W.walk(lambda e, D, loops: None, ex)


def cached(X):
    """a follower that waits for AcceptSync has its promise at hand"""
    sh, me0, kind = X.sh, X.me0, X.kind

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or storage_failed(f) or any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        me = X.final(st)
        for l in (isv(sh.role(me), "Follower", ROLE), isv(sh.phase(me), "Prepare", PHASE)):
            f = X.assume(f, l) if f is not None else None
        if f is None:
            return
        pm = proj(me, "cached_promise_message")
        X.ob("promise-cached", f.decide(is_some(pm)) is True and f.same(proj(proj(pm, "Some.0"), "n"), sh.c(me, "promise")), "cached", "a follower waits in the Prepare phase without the promise to re-send", None, f, X.fn.span)
        sent = [m for e in st.events() if e.k != "loop" for m in X.sent(e) if m.kind == "Promise"]
        for m in sent:
            X.ob("promise-cached", f.same(m.p, proj(pm, "Some.0")), "same", "the promise kept for re-sending is not the one that was sent", None, f, X.fn.span)

    X.W.walk(lambda e, D, loops: None, ex)
