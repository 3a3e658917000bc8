"""C15 compaction never loses undecided or still-needed entries"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"within-decided": 10, "advances": 10, "all-accepted": 4, "leader-only": 4, "snapshot-content": 4, "peers-asked": 4, "effect": 10, "error-reason": 4, "rejection-inert": 4}


def jobs(progs):
    return sp_jobs(progs["main"], check)


def min_accepted(sh, f, me, i):
    """facts |- i <= accepted index of every peer"""
    tab = sh.lead(me, "accepted_indexes")
    for l in list(f.lits):
        for t in subterms(l):
            if t.op != "vmin":
                continue
            s = t.args[0]
            if (s is tab or f.same(s, tab) or over_peers(sh, f, me, s, tab)) and f.decide(le(i, t)) is True:
                return True
    t = T("vmin", tab)
    if f.decide(le(i, t)) is True:
        return True
    for l in f.lits:                      # no entry of the table is below i
        if l.op == "not" and l.args[0].op == "any":
            a = l.args[0]
            if a.args[0] is tab and any(cl == frozenset([lt(T("belem", tab), i)]) for cl in a.args[1]):
                return True
    return False


def over_peers(sh, f, me, s, tab):
    if s.op != "comp" or len(s.args[1]) != 1:
        return False
    (cl, x), = s.args[1]
    return not cl and s.args[0] is proj(me, "peers") and x.op in ("at", "idx", "elem") and x.args[0] is tab


def check(X):
    sh, me0, kind = X.sh, X.me0, X.kind
    name = X.fn.name
    dec0, acc0, cmp0, ss0 = (sh.c(me0, n) for n in ("decided_idx", "accepted_idx", "compacted_idx", "stopsign"))
    entry = "trim" if name == "trim" else "snapshot" if name == "snapshot" else "peer" if kind == "Compaction" else None

    def upper(f, me, i, dec):
        """i does not pass the decided entries (the stop-sign is not one)"""
        if f.decide(le(i, dec)) is not True:
            return False
        ss = sh.c(me, "stopsign")
        if f.decide(is_none(ss)) is True or f.decide(is_some(ss)) is False:
            return True
        if f.decide(lt(i, dec)) is True or f.decide(lt(dec, sh.c(me, "accepted_idx"))) is True:
            return True
        if f.decide(is_some(ss)) is not True or f.decide(eq(dec, sh.c(me, "accepted_idx"))) is not True:
            # the other cases are other partitions only if both tests were made
            g = f.add(is_some(ss))
            g = g.add(eq(dec, sh.c(me, "accepted_idx"))) if g is not None else None
            return g is None or g.decide(lt(i, dec)) is True
        # the stop-sign is decided, so it is the last decided position
        return f.decide(lt(i, dec)) is True

    def ev(e, D, loops):
        if e.k != "st":
            return
        ops = ops_of(e)
        if ops is None:
            X.ob("within-decided", False, "ops", "a storage write whose operations are not known", e)
            return
        d = {}
        for n, a in ops:
            d.setdefault(n, []).append(a)
        if "trim" not in d and "set_compacted_idx" not in d and "set_snapshot" not in d:
            return
        f = X.fs(e)
        if f is None:
            return
        me = X.sp(e)
        sync = "append_on_prefix" in d
        idxs = [a[0] for n in ("trim", "set_compacted_idx") for a in d.get(n, [])]
        if sync:
            # the synchronised log: C09 decides what the snapshot covers; here: the compacted prefix is a prefix of the kept log
            base = d["append_on_prefix"][-1][0]
            for i in idxs:
                X.ob("within-decided", f.decide(le(i, base)) is True, "sync", "a synchronisation compacts beyond the part of the log it starts from (%s)" % show(i, 4), e, f)
            return
        dec = sh.c(me, "decided_idx")
        for i in idxs:
            X.ob("within-decided", upper(f, me, i, dec), "decided", "the log is compacted to %s, which is not established to be within the decided entries" % show(i, 4), e, f)
            X.ob("advances", f.decide(lt(sh.c(me, "compacted_idx"), i)) is True or f.decide(le(sh.c(me, "compacted_idx"), i)) is True, "lower", "the compacted index may be lowered to %s" % show(i, 4), e, f)
        snap = d.get("set_snapshot", [])
        if not snap:
            X.ob("leader-only", entry in ("trim", "peer"), "entry", "entries are trimmed outside a trim request", e, f)
            if entry == "trim":
                X.ob("leader-only", f.decide(isv(sh.role(me), "Leader", ROLE)) is True, "role", "a server that is not the leader initiates a trim", e, f)
                for i in idxs:
                    X.ob("all-accepted", min_accepted(sh, f, me, i), "min", "the log is trimmed to %s, which is not established to be accepted by every server" % show(i, 4), e, f)
        else:
            X.ob("leader-only", entry in ("snapshot", "peer"), "entry", "the log is snapshotted outside a snapshot request", e, f)
            for a in snap:
                X.ob("snapshot-content", bool(idxs) and snap_ok(f, me, a[0], idxs[0]), "content", "the stored snapshot (%s) is not the old snapshot merged with the entries up to the new compacted index" % show(a[0], 7)[:200], e, f)

    def snap_ok(f, me, v, i):
        v = proj(v, "Some.0") if v.op != "adt" or v.args[1] == "Some" else v
        frm = sh.c(me, "compacted_idx")

        def delta(t):
            if t.op != "screate":
                return False
            g = t.args[0]
            if g.op != "f" or g.args[1] != "Ok.0" or g.args[0].op != "sget" or g.args[0].args[0] != "get_entries":
                return False
            a, b = g.args[0].args[1]
            return f.same(a, frm) and f.same(b, i)
        olds = [t for l in f.lits for t in subterms(l) if t.op == "sget" and t.args[0] == "get_snapshot"]
        if v.op == "smerge":
            o = v.args[0]
            return delta(v.args[1]) and any(o is proj(proj(t, "Ok.0"), "Some.0") for t in olds)
        return delta(v) and any(f.decide(is_none(proj(t, "Ok.0"))) is True for t in olds)

    def target(f, req, me):
        """(index the request compacts to, known?)"""
        if f.decide(lt(req, dec0)) is True:
            return req
        if f.decide(eq(req, dec0)) is True:
            return logdec(f)
        return None

    def logdec(f):
        if f.decide(is_some(ss0)) is True and f.decide(eq(dec0, acc0)) is True:
            return add(dec0, c(-1))
        if f.decide(is_some(ss0)) is False or f.decide(eq(dec0, acc0)) is False:
            return dec0
        return None

    def out_msgs(st, f):
        return peel(proj(X.final(st), sh.out), proj(me0, sh.out))

    def ex(st, ret, D):
        if entry is None:
            return
        f = X.inv.strengthen(st.facts)
        if f is None:
            return
        if storage_failed(f):
            return                 # C10
        me = X.final(st)
        new = sh.c(me, "compacted_idx")
        # what was asked
        if entry == "peer":
            what = X.inc
            CP = sh.adt("Compaction")
            if f.decide(isv(what, "Trim", CP)) is True:
                how, opt = "trim", None
                req = proj(what, "Trim.0")
            elif f.decide(isv(what, "Trim", CP)) is False or f.decide(isv(what, "Snapshot", CP)) is True:
                how, opt = "snapshot", proj(what, "Snapshot.0")
            else:
                X.ob("effect", False, "kind", "a compaction request is handled without looking at its kind", None, f, X.fn.span)
                return
        else:
            how, opt = entry, X.run.args[1]
        reqs = []
        if opt is None:
            reqs = [(f, req)]
        else:
            for l in (is_some(opt), is_none(opt)):
                g = f.add(l)
                if g is None:
                    continue
                if l is is_some(opt) or l == is_some(opt):
                    reqs.append((g, proj(opt, "Some.0")))
                elif how == "trim":
                    reqs.append((g, T("vmin", sh.lead(me0, "accepted_indexes"))))
                else:
                    reqs.append((g, dec0))
        sent = out_msgs(st, f)
        cases = []
        for g, rq in reqs:
            # tell the cases apart that the property distinguishes (only those the path leaves open)
            cs = [g]
            for l in (lt(dec0, rq), eq(rq, dec0), is_some(ss0), eq(dec0, acc0), lt(cmp0, rq)):
                cs = [y for x in cs for y in (x.add(l), x.add(lnot(l))) if y is not None]
            cases += [(x, rq) for x in cs]
        for g, rq in cases:
            failed = g.decide(err_of(ret)) if entry != "peer" else None
            if entry == "peer":
                failed = g.decide(lt(dec0, rq)) is not False
            wrote = D.res
            inert = new is cmp0 and not wrote and sent == []
            if entry != "peer" and failed is None:
                X.ob("effect", False, "verdict", "the result of a compaction request is not determined", None, g, X.fn.span)
                continue
            if failed:
                X.ob("rejection-inert", inert, "inert", "a rejected compaction request still changes state or asks peers to compact", None, g, X.fn.span)
                if entry != "peer":
                    X.ob("error-reason", reason(g, proj(ret, "Err.0"), rq, opt, how), "reason", "a compaction request is rejected with a wrong or unfounded reason (%s)" % show(ret, 5), None, g, X.fn.span)
                continue
            t = target(g, rq, me0)
            if t is None:
                g2 = g
                X.ob("effect", False, "target", "a compaction request succeeds without the index being compared with the decided index", None, g2, X.fn.span)
                continue
            good = g.same(new, t) if g.decide(lt(cmp0, t)) is True else (g.same(new, cmp0) if g.decide(lt(cmp0, t)) is False else False)
            X.ob("effect", good, "index", "after a compaction request to %s the compacted index is %s" % (show(rq, 4), show(new, 4)), None, g, X.fn.span)
            if entry == "peer":
                X.ob("peers-asked", sent == [], "relay", "a compaction request from a peer is passed on", None, g, X.fn.span)
                continue
            local = how == "snapshot" and g.decide(X.run.args[2])
            if how == "snapshot" and local is None:
                X.ob("peers-asked", False, "local", "local_only is not looked at", None, g, X.fn.span)
            elif local:
                X.ob("peers-asked", sent == [], "local", "a local-only snapshot asks peers to compact", None, g, X.fn.span)
            else:
                X.ob("peers-asked", asked(g, sent, how, rq, opt), "all", "after a successful local compaction not every peer is asked exactly once for the same compaction (%s)" % ([show(s[1], 8)[:200] for s in sent] if sent is not None else "?"), None, g, X.fn.span)

    def asked(f, sent, how, rq, opt):
        if sent is None or len(sent) != 1 or sent[0][0] != "*":
            return False
        v = sent[0][1]
        peers = proj(me0, "peers")
        if v.op != "comp" or v.args[0] is not peers or len(v.args[1]) != 1:
            return False
        (cl, x), = v.args[1]
        m = parse_msg(x, f)
        if cl or m.kind != "Compaction" or m.to is not T("belem", peers) or not f.same(m.frm, proj(me0, "pid")):
            return False
        cpt = m.p
        if cpt.op != "adt":
            return False
        if how == "trim":
            return cpt.args[1] == "Trim" and f.same(cpt.args[2][0][1], rq)
        if cpt.args[1] != "Snapshot":
            return False
        o = cpt.args[2][0][1]
        return f.same(o, opt) or (f.decide(is_some(o)) is True and f.same(proj(o, "Some.0"), rq)) or (f.decide(is_none(o)) is True and f.decide(is_none(opt)) is True)

    def reason(f, e, rq, opt, how):
        if e.op != "adt":
            return False
        v = e.args[2][0][1] if e.args[2] else None
        k = e.args[1]
        if k == "NotCurrentLeader":
            return how == "trim" and f.decide(isv(sh.role(me0), "Leader", ROLE)) is False and f.same(v, proj(sh.c(me0, "promise"), "pid"))
        if how == "trim" and f.decide(isv(sh.role(me0), "Leader", ROLE)) is not True:
            return False
        if k == "NotAllDecided":
            return how == "trim" and (v.op == "vmin" or f.same(v, T("vmin", sh.lead(me0, "accepted_indexes")))) and f.decide(lt(v, rq)) is True
        if k == "UndecidedIndex":
            return f.same(v, dec0) and f.decide(lt(dec0, rq)) is True
        if k == "TrimmedIndex":
            return f.same(v, cmp0) and f.decide(lt(rq, cmp0)) is True
        return False
    X.W.walk(ev, ex)
