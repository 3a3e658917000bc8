"""C08 accept-phase messages are applied gap-free and in order"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"applied-in-order": 6, "gap-resynchronises": 3, "duplicate-ignored": 3, "sequence-kept": 10, "next-number": 4, "new-session": 2, "resend-number": 2,
          "queued-message-open": 4, "queued-message-tracked": 4, "tracking-reset": 2, "enters-accept-by-sync": 10}
SEQ = ("AcceptDecide", "AcceptStopSign", "Decide")


def jobs(progs):
    return sp_jobs(progs["main"], check)


def check(X):
    sh, me0, kind, inc = X.sh, X.me0, X.kind, X.inc
    cur0 = proj(me0, "current_seq_num")
    NONE_META = lambda v, f: f.decide(is_none(v)) is True

    def succ(f):
        s = proj(inc, "seq_num")
        return f.same(proj(s, "session"), proj(cur0, "session")) and f.same(proj(s, "counter"), add(proj(cur0, "counter"), c(1)))

    def at(tab, i, f):
        """tab[i] looking through stores"""
        while tab.op == "store":
            if f.same(tab.args[1], i):
                return tab.args[2]
            if f.decide(eq(tab.args[1], i)) is not False:
                return None
            tab = tab.args[0]
        if tab.op == "repeat":
            return tab.args[0]
        return T("at", tab, i)

    def prev_of(t, i, f, fld):
        """t = (table value at i).fld + k -> k"""
        k, d = lin_of(t)
        if len(d) == 0:
            return None
        if len(d) != 1 or d[0][1] != 1:
            return None
        x = d[0][0]
        if x.op == "f" and x.args[1] == fld:
            y = x.args[0]
            if y.op == "at" and f.same(y.args[1], i):
                return k
        return None

    resend_entry = kind is None and X.fn.name.startswith("resend")

    def message(e, f, me, m):
        i = sub(m.to, c(1))
        sq = m["seq_num"]
        tab = at(sh.lead(me, "follower_seq_nums"), i, f)
        ks, kc = prev_of(proj(sq, "session"), i, f, "session"), prev_of(proj(sq, "counter"), i, f, "counter")
        stored = tab is not None and f.same(proj(tab, "session"), proj(sq, "session")) and f.same(proj(tab, "counter"), proj(sq, "counter"))
        if m.kind == "AcceptSync":
            X.ob("new-session", stored and ks == 1 and proj(sq, "counter") is c(1), "AcceptSync", "an AcceptSync does not open the follower's next session with number 1", e, f)
            mt = at(sh.lead(me, "latest_accept_meta"), i, f)
            X.ob("queued-message-open", mt is not None and NONE_META(mt, f), "AcceptSync", "after an AcceptSync a queued AcceptDecide of the previous session can still be extended", e, f)
        elif resend_entry and kc == 0:
            X.ob("resend-number", stored and ks == 0 and m.kind in ("AcceptStopSign", "Decide"), m.kind, "a re-sent %s does not reuse the follower's current sequence number" % m.kind, e, f)
        else:
            X.ob("next-number", stored and ks == 0 and kc == 1, m.kind, "%s is not given the follower's next sequence number (or the number is not recorded)" % m.kind, e, f)

    def ev(e, D, loops):
        f = None
        if kind in SEQ and (e.k == "st" or (X.cache_write(e) and X.cache_write(e)[0] == "batched_entries" and e.k in ("push", "app"))):
            f = X.fs(e)
            if f is None:
                return
            X.ob("applied-in-order", succ(f), e.d[0] if e.k == "st" else "batch", "%s is applied although its sequence number is not known to be the successor of the last one" % kind, e, f)
        for m in X.sent(e):
            if m.kind in SEQ + ("AcceptSync", "?"):
                f = f or X.fs(e)
                if f is None:
                    return
                if m.kind == "?":
                    X.ob("next-number", False, "?", "message of unknown kind", e, f)
                else:
                    message(e, f, X.sp(e), m)
        pt = X.patched(e)
        if pt and pt[0] in ("AcceptDecide", "AcceptSync", "Decide", "AcceptStopSign", "?"):
            f = f or X.fs(e)
            if f is None:
                return
            me = X.sp(e)
            ix = pt[3]
            okk = pt[0] == "AcceptDecide" and pt[1] in ("entries", "decided_idx")
            if okk:
                # ix is the recorded index of an entry of latest_accept_meta made in the current ballot
                okk = ix.op == "f" and ix.args[1] == "1" and f.same(proj(ix.args[0], "0"), sh.lead(me, "n_leader"))
                src = ix.args[0] if okk else None
                if okk:
                    v = src.args[0] if src.op == "f" and src.args[1] in ("Some.0",) else None
                    okk = v is not None and v.op == "at" and f.decide(is_some(v)) is True and base_of(v.args[0]) == "latest_accept_meta"
            X.ob("queued-message-open", okk, "patch", "a queued message is extended that is not the open AcceptDecide recorded in the current ballot", e, f)
        p = X.wrote(e)
        if p and len(p) >= 2 and p[0] == sh.ls and p[1] == "follower_seq_nums" and kind in ("AcceptDecide",):
            pass

    def base_of(t):
        if t.op == "f":
            return t.args[1]
        if t.op == "phi" and len(t.args) > 1:
            s = t.args[1]
            while isinstance(s, tuple) and s:
                s = s[-1]
            return s
        if t.op == "store":
            return base_of(t.args[0])
        return None

    def tracked(evs, f0=None):
        """every recorded queue position is that of an AcceptDecide/Accepted pushed in the same straight-line piece"""
        evs = list(evs)
        pushes = []
        for e in evs:
            if e.k == "push":
                for m in X.sent(e):
                    pushes.append((e, m))
        for e in evs:
            p = X.wrote(e)
            if not p or e.k not in ("w",):
                continue
            lead = p[0] == sh.ls and len(p) == 3 and p[1] == "latest_accept_meta" and isinstance(p[2], tuple)
            foll = p == ("latest_accepted_meta",)
            if not (lead or foll):
                continue
            f = X.fs(e)
            v = e.d[2]
            if f is None or NONE_META(v, f):
                continue
            y = proj(v, "Some.0")
            okk = False
            for pe, m in pushes:
                fp = X.fs(pe)
                if fp is None:
                    continue
                pos_ = vlen(proj(X.sp(pe), sh.out))
                if lead and m.kind == "AcceptDecide" and fp.same(sub(m.to, c(1)), p[2][1]) and fp.same(m["n"], proj(y, "0")) and fp.same(pos_, proj(y, "1")):
                    okk = True
                if foll and m.kind == "Accepted" and fp.same(m["n"], proj(y, "0")) and fp.same(pos_, proj(y, "1")):
                    okk = True
            X.ob("queued-message-tracked", okk, "meta", "the recorded position is not that of the message just queued for this server and ballot", e, f)

    def it(lp, i, D):
        tracked([e for e in i.events if e.k != "loop"])

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None:
            return
        me = X.final(st)
        sp = X.fn.span
        evs = [e for e in st.events() if e.k != "loop"]
        tracked(evs)
        cur1 = proj(me, "current_seq_num")
        role0, ph0 = sh.role(me0), sh.phase(me0)
        ph1 = sh.phase(me)
        fol = f.decide(isv(role0, "Leader", ROLE)) is not True
        acc = f.decide(isv(ph0, "Accept", PHASE)) is True
        changes = [e for e in evs if e.k == "st" or (X.cache_write(e) and X.cache_write(e)[0] == "batched_entries")]
        if kind in SEQ:
            if changes:
                X.ob("applied-in-order", f.same(cur1, proj(inc, "seq_num")) or (f.same(proj(cur1, "counter"), proj(proj(inc, "seq_num"), "counter")) and f.same(proj(cur1, "session"), proj(proj(inc, "seq_num"), "session"))), "recorded", "an applied message is not recorded as the last one", None, f, sp)
            elif fol and acc and f.same(proj(inc, "n"), sh.c(me0, "promise")) and not succ(f):
                s = proj(inc, "seq_num")
                if f.decide(lt(cur0, s)) is False or lex_le(f, s, cur0):
                    X.ob("duplicate-ignored", f.same(cur1, cur0) and (ph1 is ph0 or f.same(ph1, ph0)) and not [1 for e in evs for _ in X.sent(e)], "dup", "an already applied message has an effect", None, f, sp)
                elif f.decide(eq(proj(proj(inc, "n"), "pid"), proj(me0, "pid"))) is not True:
                    ms = [m for e in evs for m in X.sent(e)]
                    X.ob("gap-resynchronises", f.decide(isv(ph1, "Recover", PHASE)) is True and f.decide(isv(sh.role(me), "Follower", ROLE)) is True
                         and any(m.kind == "PrepareReq" and f.same(m.to, proj(sh.c(me0, "promise"), "pid")) and f.same(m["n"], sh.c(me0, "promise")) for m in ms),
                         "gap", "a gap in the accept-phase messages is not answered by recovering from the leader", None, f, sp)
        elif kind == "AcceptSync" and changes:
            X.ob("sequence-kept", f.same(cur1, proj(inc, "seq_num")), "sync", "a synchronisation does not take over the leader's sequence number", None, f, sp)
        else:
            X.ob("sequence-kept", cur1 is cur0 or f.same(cur1, cur0) or f.decide(isv(ph1, "Accept", PHASE)) is False, "other", "the last applied sequence number changes without an accept-phase message", None, f, sp)
        if ph1 is not ph0 and f.decide(isv(ph1, "Accept", PHASE)) is not False and not acc and f.decide(isv(sh.role(me), "Leader", ROLE)) is not True:
            X.ob("enters-accept-by-sync", kind == "AcceptSync" and bool(changes), "accept", "a follower starts accepting without having been synchronised", None, f, sp)
        else:
            X.ob("enters-accept-by-sync", True, "", "")
        # the queue was handed out: nothing in it may be changed any more
        out1 = proj(me, sh.out)
        if out1 is EMPTY or any(e.k in ("w", "havoc") and X.wrote(e) == (sh.out,) for e, _ in E.flatten_events(st.events())):
            t = sh.lead(me, "latest_accept_meta")
            X.ob("tracking-reset", t.op == "repeat" and NONE_META(t.args[0], f), "leader", "after the messages were taken a recorded position may still refer to one of them", None, f, sp)
            X.ob("tracking-reset", NONE_META(proj(me, "latest_accepted_meta"), f), "follower", "after the messages were taken the recorded position of the Accepted message is kept", None, f, sp)
    X.W.walk(ev, ex, it)


def lex_le(f, a, b):
    sa, sb, ca, cb = proj(a, "session"), proj(b, "session"), proj(a, "counter"), proj(b, "counter")
    return f.decide(lt(sa, sb)) is True or (f.decide(lt(sb, sa)) is False and f.decide(lt(cb, ca)) is False and f.same(sa, sb))

