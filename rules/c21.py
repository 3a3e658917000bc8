"""C21 leader election: unique, monotone ballots and takeover only with a quorum"""
from ble import *

CONFIGS = ["main"]
FLOORS = {"order": 4, "round": 8, "own-ballot": 8, "leader-monotone": 4, "reply-counted": 1, "heartbeat": 1, "start": 2, "claim": 1}
TECHNIQUE = "path-sensitive refinement check of the election round against its specification (each MIR path is compared with the specified outcome for the facts it assumes, aggregates over the replies matched by entailment), exhaustive case analysis of the ballot order"


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    out = [("Ballot order", lambda: order(P, sh)), ("start", lambda: start(P, sh)), ("OmniPaxos::try_become_leader", lambda: claim(P, sh))]
    for fn in entries_(P):
        out.append((fn.label(), ble_job(P, sh, fn)))
    return out


# ---- the order of ballots ----------------------------------------------------------------------------
ORD = "core::cmp::Ordering"


def order(P, sh):
    X = Plain("Ballot order")
    B = sh.adt("Ballot")
    ty = ("adt", B, ())
    fns = {}
    for tr, n in (("core::cmp::Ord", "cmp"), ("core::cmp::PartialOrd", "partial_cmp"), ("core::cmp::PartialEq", "eq")):
        im = P.find_impl(tr, ty, n)
        if not im or im[0] not in P.fns:
            raise Anchor("Ballot has no %s" % tr)
        fns[n] = P.fns[im[0]]
    mine = [f for f in P.fns.values() if f.self_ty == ty and f.kind != "Closure" and f.name in ("lt", "le", "gt", "ge", "max", "min", "clamp", "ne")]
    X.ob("order", not mine, "override", "comparison operators of Ballot are overridden: %s" % ", ".join(f.name for f in mine), None, None, mine[0].span if mine else None)
    for n in ("cmp", "partial_cmp"):
        fn = fns[n]
        r = Run(P, fn)
        X.stats.append(r.stats())
        a, b = [T("sym", x.args[0]) for x in r.args]
        # the nine-way case distinction of the specified order
        cases = []
        keys = ("n", "priority", "pid")
        for i, k in enumerate(keys):
            pre = [eq(proj(a, q), proj(b, q)) for q in keys[:i]]
            cases.append((pre + [lt(proj(a, k), proj(b, k))], "Less"))
            cases.append((pre + [lt(proj(b, k), proj(a, k))], "Greater"))
        cases.append(([eq(proj(a, q), proj(b, q)) for q in keys], "Equal"))
        for st, ret in r.outs:
            v = proj(ret, "Some.0") if n == "partial_cmp" else ret
            if v.op == "ordcmp" and n == "partial_cmp":
                X.ob("order", v.args[0] is a and v.args[1] is b, "partial", "partial_cmp is not cmp (%s)" % show(v, 4), None, st.facts, fn.span)
                continue
            for lits, want in cases:
                f = st.facts
                for l in lits:
                    f = f.add(l) if f is not None else None
                if f is None:
                    continue
                X.ob("order", f.decide(isv(v, want, ORD)) is True, n + want, "two ballots compare as %s although by round, priority and server id the first is %s" % (show(v, 4), want), None, f, fn.span)
    fn = fns["eq"]
    r = Run(P, fn)
    X.stats.append(r.stats())
    a, b = [T("sym", x.args[0]) for x in r.args]
    fl = [n for n, t, _ in sh.fields(B)]
    for st, ret in r.outs:
        f = st.facts.add(ret) if ret.op != "c" else (st.facts if ret.args[0] else None)
        if f is not None:
            X.ob("order", all(f.same(proj(a, k), proj(b, k)) for k in ("n", "priority", "pid")), "eq", "two different ballots compare as equal", None, f, fn.span)
    return X.result()


# ---- one round -----------------------------------------------------------------------------------------
def entails(f, cl, other):
    """every element satisfying one of the clauses cl satisfies one of the clauses other"""
    for a in cl:
        g = f
        for l in a:
            g = g.add(l) if g is not None else None
        if g is None:
            continue
        if not exhaustive(g, [list(o) for o in other]):
            return False
    return True


def aggs(f, op):
    return {t for l in f.lits for t in subterms(l) if t.op == op}


def known_any(f, src, cl):
    """whether some element of src satisfies the clauses: True / False / None"""
    t = T("any", src, frozenset(frozenset(x) for x in cl))
    d = f.decide(t)
    if d is not None:
        return d
    if f.decide(eq(vlen(src), c(0))) is True:
        return False
    for a in aggs(f, "any"):
        if a.args[0] is not src:
            continue
        d = f.decide(a)
        if d is False and entails(f, cl, a.args[1]):
            return False
        if d is True and entails(f, a.args[1], cl):
            return True
    # a concrete element that is known to satisfy it
    for l in f.lits:
        for e in subterms(l):
            if e.op == "elem" and e.args[0] is src:
                m = {T("belem", src): e}
                for x in cl:
                    if all(f.decide(subst(q, m)) is True for q in x):
                        return True
    return None


def known_quorum(f, size, src, cl):
    """whether size <= 1 + number of elements of src satisfying the clauses"""
    if cl is None:
        return f.decide(le(size, add(vlen(src), c(1))))
    if f.decide(eq(vlen(src), c(0))) is True:
        return f.decide(le(size, c(1)))
    ts = [T("cnt", src, frozenset(frozenset(x) for x in cl))]
    for a in aggs(f, "cnt"):
        if a.args[0] is src and entails(f, cl, a.args[1]) and entails(f, a.args[1], cl):
            ts.append(a)
        elif a.args[0] is src and complement(f, cl, a.args[1]):
            ts.append(sub(vlen(src), a))
    for t in ts:
        d = f.decide(le(size, add(t, c(1))))
        if d is not None:
            return d
    return None


def complement(f, x, y):
    """exactly one of the clause sets holds of every element"""
    for a in x:
        for b in y:
            g = f
            for l in list(a) + list(b):
                g = g.add(l) if g is not None else None
            if g is not None:
                return False
    return exhaustive(f, [list(a) for a in x] + [list(b) for b in y])


class Spec:
    """the specified outcome of an election round"""

    def __init__(self, sh, me0, state, promise):
        self.sh, self.me0, self.state, self.promise = sh, me0, state, promise
        self.R = proj(me0, "heartbeat_replies")
        self.cur, self.lead = proj(me0, "current_ballot"), proj(me0, "leader")
        self.q = proj(me0, "quorum")

    def split(self, f, lit, d=None):
        """[(facts, truth)]"""
        if d is None:
            d = f.decide(lit)
        if d is not None:
            return [(f, d)]
        return [(g, v) for g, v in ((f.add(lit), True), (f.add(lnot(lit)), False)) if g is not None]

    def any(self, f, cl):
        t = T("any", self.R, frozenset(frozenset(x) for x in cl))
        return self.split(f, t, known_any(f, self.R, cl))

    def quorum(self, f, which, cl):
        Q = self.sh.adt("Quorum")
        out = []
        for v in self.sh.P.adts[Q]["order"]:
            g = f.add(isv(self.q, v, Q))
            if g is None:
                continue
            size = proj(self.q, "Majority.0") if v == "Majority" else proj(proj(self.q, v + ".0"), which + "_quorum_size")
            d = known_quorum(g, size, self.R, cl)
            n = vlen(self.R) if cl is None else T("cnt", self.R, frozenset(frozenset(x) for x in cl))
            out += self.split(g, le(size, add(n, c(1))), d)
        return out

    def outcomes(self, f):
        """[(facts, leader, current ballot, happy, takeover)]"""
        R, b = self.R, T("belem", self.R)
        B, bl, bh = proj(b, "ballot"), proj(b, "leader"), proj(b, "happy")
        top = T("vmax", T("comp", R, frozenset([(frozenset(), B)])))
        out = []
        for f1, empty in self.split(f, eq(vlen(R), c(0))):
            if empty:
                ls = [(f1, self.lead)]
            else:
                ls = [(g, top if v else self.lead) for g, v in self.split(f1, lt(self.lead, top))]
            for f2, L in ls:
                for f3, h in self.happy(f2, L, B, bl, bh):
                    if h:
                        out.append((f3, L, self.cur, True, False))
                        continue
                    for f4, some_happy in self.any(f3, [[bh]]):
                        if some_happy:
                            out.append((f4, L, self.cur, False, False))
                            continue
                        for f5, heard in self.quorum(f4, "read", None):
                            if heard:
                                nb = spelled(f5, setf(self.cur, "n", add(proj(L, "n"), c(1))), self.sh)
                                out.append((f5, nb, nb, True, True))
                            else:
                                out.append((f5, L, self.cur, False, False))
        fin = []
        for g, L, C, h, t in out:
            for g2, synced in self.split(g, lt(L, self.promise)):
                if not synced:
                    fin.append((g2, L, C, h, t))
                    continue
                for g3, own in self.split(g2, eq(proj(self.promise, "pid"), proj(self.me0, "pid"))):
                    fin.append((g3, self.promise, self.promise if own else C, True, t))
        return fin

    def happy(self, f, L, B, bl, bh):
        out = []
        for g, own in self.split(f, eq(L, self.cur)):
            if own:
                pf = [[le(bl, self.cur)]]
                for g2, acc in self.split(g, isv(proj(self.state, "0"), "Leader", ROLE)):
                    for g3, ph in (self.split(g2, isv(proj(self.state, "1"), "Accept", PHASE)) if acc else [(g2, False)]):
                        for g4, q in self.quorum(g3, "write" if ph else "read", pf):
                            out += [(g4, True)] if q else self.any(g4, [[lt(self.cur, bl), bh]])
            else:
                out += self.any(g, [[eq(B, L), bh]])
        return out


def spelled(f, v, sh):
    """the same ballot as the path spells it, so that comparisons with it are recognised"""
    for l in f.lits:
        for t in subterms(l):
            if t.op in ("rec", "adt") and t is not v and (t.op == "rec" or t.args[0] == sh.adt("Ballot")) and contains_n(t) and same_ballot(f, t, v, sh):
                return t
    return v


def contains_n(t):
    return t.op == "adt" or any(k == "n" for k, _ in t.args[1])


def same_ballot(f, a, b, sh):
    if a is b or f.same(a, b):
        return True
    return all(f.same(proj(a, n), proj(b, n)) for n, t, _ in sh.fields(sh.adt("Ballot")))


def order_axioms(f):
    """a ballot above another has at least its round number"""
    out = []
    for l in list(f.lits):
        if l.op in ("lt", "le") and not any(x.op in ("c", "lin", "len", "cnt") for x in l.args):
            a, b = l.args
            out.append(le(proj(a, "n"), proj(b, "n")))
        if l.op == "not" and l.args[0].op in ("lt", "le") and not any(x.op in ("c", "lin", "len", "cnt") for x in l.args[0].args):
            b, a = l.args[0].args
            out.append(le(proj(a, "n"), proj(b, "n")))
        if l.op == "eq" and not any(x.op in ("c", "lin", "len", "cnt") for x in l.args):
            a, b = l.args
            out.append(eq(proj(a, "n"), proj(b, "n")))
    return out


def ble_job(P, sh, fn):
    def go():
        X = BCtx(P, sh, fn)
        me0 = X.me0
        sp_ = fn.span
        cur0, lead0, pid, conf = proj(me0, "current_ballot"), proj(me0, "leader"), proj(me0, "pid"), proj(me0, "configuration_id")
        rnd0, R0 = proj(me0, "hb_round"), proj(me0, "heartbeat_replies")
        round_fn = fn.name == "hb_timeout"
        for st, ret in X.run.outs:
            f, me = st.facts, X.final(st)
            cur, lead = proj(me, "current_ballot"), proj(me, "leader")
            for n in ("pid", "configuration_id", "peers", "quorum"):
                X.ob("own-ballot", f.same(proj(me, n), proj(me0, n)), n, "%s of the election component changes" % n, None, f, sp_)
            # ---- the own ballot stays the own ballot
            good = all(f.same(proj(cur, k), proj(cur0, k)) for k in ("pid", "config_id")) or \
                (round_fn and same_ballot(f, cur, X.run.args[2], sh) and f.same(proj(X.run.args[2], "pid"), pid))
            X.ob("own-ballot", good, "owner", "a server's ballot takes another server's identity (%s)" % show(cur, 5), None, f, sp_)
            if not round_fn:
                X.ob("own-ballot", f.same(proj(cur, "n"), proj(cur0, "n")), "n", "the own ballot changes outside an election round", None, f, sp_)
                X.ob("own-ballot", f.same(proj(cur, "priority"), X.run.args[1] if fn.name == "set_priority" else proj(cur0, "priority")), "priority", "the priority of the own ballot is not the configured one", None, f, sp_)
                X.ob("leader-monotone", same_ballot(f, lead, lead0, sh), "other", "the known leader changes outside an election round", None, f, sp_)
                X.ob("own-ballot", f.same(proj(me, "happy"), proj(me0, "happy")), "happy", "whether the server sees a leader changes outside an election round", None, f, sp_)
                X.ob("own-ballot", f.same(proj(me, "hb_round"), rnd0), "round", "the heartbeat round changes outside an election round", None, f, sp_)
            if fn.name == "handle":
                handle(X, sh, st, me)
            elif not round_fn:
                X.ob("reply-counted", f.same(proj(me, "heartbeat_replies"), R0), "kept", "heartbeat replies change outside an election round", None, f, sp_)
            if fn.name == "get_current_ballot":
                X.ob("claim", same_ballot(f, ret, cur0, sh), "getter", "the reported ballot is not the server's own", None, f, sp_)
        if round_fn:
            rounds(X, sh)
        return X.result()
    return go


def handle(X, sh, st, me):
    f, me0, m = st.facts, X.me0, X.run.args[1]
    HB = sh.adt("HeartbeatMsg")
    R0 = proj(me0, "heartbeat_replies")
    R1 = seq(proj(me, "heartbeat_replies"), f)
    rep = proj(proj(m, "msg"), "Reply.0")
    now = [eq(proj(rep, "round"), proj(me0, "hb_round")), eq(proj(proj(rep, "ballot"), "config_id"), proj(me0, "configuration_id"))]
    if f.decide(isv(proj(m, "msg"), "Reply", HB)) is True:
        if same_seq_(R1, seq(R0, f), f):
            g = f
            for l in now:
                g = g.add(l) if g is not None else None
            X.ob("reply-counted", g is None, "lost", "a heartbeat reply of the current round and configuration is ignored", None, f, X.fn.span)
        else:
            X.ob("reply-counted", same_seq_(R1, cat(seq(R0, f), [("1", rep)]), f), "once", "a heartbeat reply is not recorded exactly once (%s)" % show_seq(R1)[:200], None, f, X.fn.span)
            X.ob("reply-counted", all(f.decide(l) is True for l in now), "fresh", "a heartbeat reply of another round or configuration is counted", None, f, X.fn.span)
    else:
        X.ob("reply-counted", same_seq_(R1, seq(R0, f), f), "request", "a heartbeat request changes the replies", None, f, X.fn.span)
        req = proj(proj(m, "msg"), "Request.0")
        for k, p, to, frm, fan, g in X.sends(st) or ():
            good = k == "Reply" and g.same(proj(p, "round"), proj(req, "round")) and same_ballot(g, proj(p, "ballot"), proj(me0, "current_ballot"), sh) and same_ballot(g, proj(p, "leader"), proj(me0, "leader"), sh) and g.same(proj(p, "happy"), proj(me0, "happy"))
            X.ob("heartbeat", good, "reply", "a heartbeat reply does not carry the asked round and the own ballot, leader and status", None, g, X.fn.span)


def rounds(X, sh):
    me0, fn = X.me0, X.fn
    state = T("sym", X.run.args[1].args[0]) if X.run.args[1].op == "ref" else X.run.args[1]
    promise = X.run.args[2]
    S = Spec(sh, me0, state, promise)
    rnd0, R0 = proj(me0, "hb_round"), proj(me0, "heartbeat_replies")
    cur0, lead0 = proj(me0, "current_ballot"), proj(me0, "leader")
    for st, ret in X.run.outs:
        me = X.final(st)
        f0 = st.facts.add(le(proj(cur0, "n"), proj(lead0, "n")))     # shown below
        if f0 is None:
            continue
        X.ob("round", f0.same(proj(me, "hb_round"), add(rnd0, c(1))), "next", "an election round does not start the next heartbeat round", None, f0, fn.span)
        X.ob("round", seq(proj(me, "heartbeat_replies"), f0) == [], "cleared", "replies of a finished heartbeat round count in the next one", None, f0, fn.span)
        for k, p, to, frm, fan, g in X.sends(st) or ():
            X.ob("heartbeat", k == "Request" and g.same(proj(p, "round"), add(rnd0, c(1))), "request", "a heartbeat request does not carry the new round", None, g, fn.span)
        lead, cur, happy = proj(me, "leader"), proj(me, "current_ballot"), proj(me, "happy")
        for f, L, C, h, took in S.outcomes(f0):
            what = "takes over" if took else "keeps its ballot"
            X.ob("round", same_ballot(f, cur, C, sh), "ballot", "the own ballot becomes %s where %s is specified" % (show(cur, 4), show(C, 4)), None, f, fn.span)
            X.ob("leader-monotone", same_ballot(f, lead, L, sh), "leader", "the known leader becomes %s where %s is specified (a server that %s)" % (show(lead, 4), show(L, 4), what), None, f, fn.span)
            X.ob("round", f.decide(happy) is h, "happy", "whether the server sees a usable leader is %s where %s is specified" % (show(happy, 4), h), None, f, fn.span)
            # ---- claims only its own ballot, exactly when it is the leader
            some = f.decide(is_some(ret))
            for g, own in S.split(f, eq(L, C)):
                X.ob("claim", f.decide(is_some(ret)) is own or g.decide(is_some(ret)) is own, "iff", "leadership is %s although the known leader is %s own ballot" % ("claimed" if some else "not claimed", "the" if own else "not the"), None, g, fn.span)
                if own and g.decide(is_some(ret)) is True:
                    X.ob("claim", same_ballot(g, proj(ret, "Some.0"), C, sh), "own", "leadership is claimed with %s instead of the own ballot" % show(proj(ret, "Some.0"), 4), None, g, fn.span)
            # ---- the specification itself: the leader and the own round never go back
            g = f
            for l in order_axioms(f):
                g = g.add(l) if g is not None else None
            if g is None:
                continue
            up = g.decide(le(proj(lead0, "n"), proj(lead, "n"))) is True and g.decide(le(proj(cur0, "n"), proj(cur, "n"))) is True and g.decide(le(proj(cur, "n"), proj(lead, "n"))) is True
            X.ob("leader-monotone", up, "n", "round numbers of the leader or the own ballot may go back", None, g, fn.span)


# ---- start and restart -----------------------------------------------------------------------------------
def start(P, sh):
    X = Plain("start")
    fn = [f for f in P.fns.values() if f.self_ty is not None and f.self_ty[0] == "adt" and f.self_ty[1] == sh.BLE and f.kind != "Closure" and f.locals[0][0] == "adt" and f.locals[0][1] == sh.BLE]
    if len(fn) != 1:
        raise Anchor("no single constructor of the election component")
    fn = fn[0]
    r = Run(P, fn)
    X.stats.append(r.stats())
    cf, rec = r.args[0], r.args[1]
    for st, ret in r.outs:
        f = st.facts
        cur, lead = proj(ret, "current_ballot"), proj(ret, "leader")
        X.ob("start", f.same(proj(cur, "pid"), proj(cf, "pid")) and f.same(proj(cur, "config_id"), proj(cf, "configuration_id")) and f.same(proj(cur, "priority"), proj(cf, "priority")), "own", "the initial ballot does not carry the own id, configuration and priority", None, f, fn.span)
        X.ob("start", f.same(proj(ret, "pid"), proj(cf, "pid")) and f.same(proj(ret, "configuration_id"), proj(cf, "configuration_id")) and f.same(proj(ret, "peers"), proj(cf, "peers")), "config", "the election component is not set up with the configured servers", None, f, fn.span)
        X.ob("start", seq(proj(ret, "heartbeat_replies"), f) == [], "replies", "a new server starts with heartbeat replies", None, f, fn.span)
        B = sh.adt("Ballot")
        rb = proj(rec, "Some.0")
        default = conj([eq(proj(rb, n), c(0)) for n, t, _ in sh.fields(B)])
        for g, has in split(f, is_some(rec)):
            parts = [(g, False)] if not has else [(h, not d) for h, d in split(g, default)]
            for h, restarted in parts:
                if restarted:
                    X.ob("start", same_ballot(h, lead, rb, sh), "recovered", "a restarted server does not start from the ballot it promised", None, h, fn.span)
                    X.ob("start", h.decide(lt(proj(cur, "n"), c(1))) is True, "reuse", "a restarted server may lead again with a ballot it used before the restart", None, h, fn.span)
                else:
                    X.ob("start", same_ballot(h, lead, cur, sh), "fresh", "a new server does not consider itself the first leader", None, h, fn.span)
                    X.ob("start", h.decide(le(c(1), proj(cur, "n"))) is True, "above-default", "the first ballot of a server is not above the default ballot", None, h, fn.span)
    return X.result()


def split(f, lit):
    d = f.decide(lit)
    if d is not None:
        return [(f, d)]
    return [(g, v) for g, v in ((f.add(lit), True), (f.add(lnot(lit)), False)) if g is not None]


def claim(P, sh):
    X = Plain("OmniPaxos::try_become_leader")
    fn = method(P, "OmniPaxos", "try_become_leader")
    ours = {f.key for t in ("SequencePaxos", "BallotLeaderElection") for f in callers_outside(P, t) if f.name not in ("get_current_ballot", "get_promise", "get_state")}
    r = Run(P, fn, cut=lambda f: f.key in ours)
    X.stats.append(r.stats())
    me0 = T("sym", "self")
    cur, prom = proj(proj(me0, sh.ble), "current_ballot"), sh.c(proj(me0, sh.seq), "promise")
    for st, ret in r.outs:
        calls = [e for e, _ in E.flatten_events(st.events()) if e.k == "call"]
        hl = [e for e in calls if e.d[0].endswith("::handle_leader")]
        X.ob("claim", len(hl) == 1 and len(calls) == 1, "once", "try_become_leader does not ask for leadership exactly once", None, st.facts, fn.span)
        for e in hl:
            b = e.d[2][1]
            f = e.facts
            good = all(f.same(proj(b, k), proj(cur, k)) for k in ("pid", "config_id", "priority"))
            X.ob("claim", good, "try-own", "leadership is claimed with a ballot that is not the server's own (%s)" % show(b, 5), e, f)
            X.ob("claim", f.decide(lt(proj(prom, "n"), proj(b, "n"))) is True, "try-above", "leadership is claimed with a ballot that is not above the promised one (%s)" % show(b, 5), e, f)
    return X.result()
