"""C09 log synchronisation reproduces the sender's log exactly"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"no-snapshot": 1, "suffix-from-sync-idx": 10, "kept-prefix-common": 10, "snapshot-covers": 5, "ships-stopsign": 10, "applies-suffix": 10, "applies-snapshot": 10, "applies-stopsign": 10}


def jobs(progs):
    return sp_jobs(progs["main"], check, lambda fn, k: True) + [("snapshot types", lambda: no_snapshot(progs["main"])), ("applying a synchronisation", lambda: applies(progs["main"]))]


def applies(P):
    """a log synchronisation is refused only when storage fails"""
    X = Plain("applying a synchronisation")
    try:
        fn = method(P, "InternalStorage", "sync_log")
    except Exception:
        return X.result()
    if fn is None:
        return X.result()
    r = Run(P, fn)
    X.stats.append(r.stats())
    for st, ret in r.outs:
        f = st.facts
        if f.decide(ok_of(ret)) is True or storage_failed(f):
            continue
        sc = proj(T("sym", "self"), "state_cache")
        comp, dec, acc, ss = (proj(sc, x) for x in ("compacted_idx", "decided_idx", "accepted_idx", "stopsign"))
        # only decided entries are compacted, and never the stop-sign (C15, C16)
        for ls in ([is_none(ss), le(comp, dec)], [is_some(ss), eq(dec, acc), lt(comp, dec)], [is_some(ss), lt(dec, acc), le(comp, dec)]):
            g = f
            for l in ls + [err_of(ret)]:
                g = g.add(l) if g is not None else None
            if g is not None:
                X.ob("sync-applied", False, "err", "a log synchronisation may be refused although storage works (%s)" % "; ".join(show(l, 4) for l in list(g.lits)[:6]), None, g, fn.span)
    X.ob("sync-applied", True, "all", "", None, None, fn.span)
    return X.result()


def no_snapshot(P):
    """a snapshot type of the library that cannot be created or merged says so: logs of its entries are synchronised without snapshots"""
    X = Plain("snapshot types")
    for (tr, h), xs in P.impl_idx.items():
        if tr.split("::")[-1] != "Snapshot" or not str(h).startswith("omnipaxos"):
            continue
        for sty, derived, items in xs:
            use, mk_, mg = (P.fns.get(items.get(n)) for n in ("use_snapshots", "create", "merge"))
            if use is None or (mk_ is not None and Run(P, mk_).outs and mg is not None and Run(P, mg).outs):
                continue
            r = Run(P, use)
            X.stats.append(r.stats())
            X.ob("no-snapshot", bool(r.outs) and all(st.facts.decide(ret) is False or ret is FALSE for st, ret in r.outs), str(h), "%s cannot be created, yet logs are to be synchronised with it" % str(h).split("::")[-1], None, None, use.span)
    return X.result()


def sender(X, R=lambda r: r):
    """(check of a shipped log, snapshot test)"""
    sh, kind, inc = X.sh, X.kind, X.inc

    # ---- sender ----------------------------------------------------------------------------
    def norm(t):
        """entry i of the table of promises is the promise of server i+1 (checked by C07)"""
        m = {}
        for x in subterms(t):
            if x.op == "f" and x.args[1] == "pid" and x.args[0].op == "f" and x.args[0].args[1] == "Promised.0":
                y = x.args[0].args[0]
                if y.op == "elem":
                    m[x] = add(T("pos", *y.args), c(1))
                elif y.op == "at":
                    m[x] = add(y.args[1], c(1))
        t = subst(t, m) if m else t
        m = {}
        for x in subterms(t):
            if x.op == "at":
                p = x.args[1]
                if p.op == "pos" and p.args[0] is x.args[0]:
                    m[x] = T("elem", *p.args)
        return subst(t, m) if m else t

    def read(t, name, e):
        """t = Ok value of storage read `name` at the storage version of event e -> args"""
        if t.op == "f" and t.args[1] == "Ok.0" and t.args[0].op == "sget" and t.args[0].args[0] == name and (e is None or t.args[0].args[2] is e.ver or t.args[0].args[2] == e.ver):
            return t.args[0].args[1]
        return None

    def tail_equal(f, me, i, s):
        """the log from i and from s hold the same entries"""
        if f.same(i, s):
            return True
        ss, acc = sh.c(me, "stopsign"), norm_ind(sh.c(me, "accepted_idx"), f)
        return f.same(i, add(s, c(1))) and f.decide(is_some(ss)) is True and f.same(i, acc)

    def snap_upto(f, me, t, k, e):
        """t is a snapshot of exactly the log below k"""
        comp = sh.c(me, "compacted_idx")
        if t.op == "f" and t.args[1] == "Some.0":
            if read(t.args[0], "get_snapshot", e) is not None:
                return f.decide(lt(comp, k)) is False
        d, base = t, None
        if t.op == "smerge":
            base, d = t.args[0], t.args[1]
        if d.op != "screate":
            return False
        a = read(d.args[0], "get_entries", e)
        if a is None or not (f.same(a[0], comp) and f.same(a[1], k)):
            return False
        if base is not None:
            return base.op == "f" and base.args[1] == "Some.0" and read(base.args[0], "get_snapshot", e) is not None
        # no stored snapshot
        for l in f.lits:
            x = l.args[0] if l.op == "not" else l
            if x.op == "isv" and read(x.args[0], "get_snapshot", e) is not None and f.decide(is_none(x.args[0])) is True:
                return True
        return False

    def ships(e, f, L, m):
        me = X.sp(e)
        kindm = m.kind
        f = f.add(le(sh.c(me, "decided_idx"), sh.c(me, "accepted_idx")))      # C06
        if f is None:
            return
        L = norm(L)
        s, suf, dec, comp = proj(L, "sync_idx"), proj(L, "suffix"), sh.c(me, "decided_idx"), sh.c(me, "compacted_idx")
        a = read(suf, "get_suffix", e)
        X.ob(R("suffix-from-sync-idx"), a is not None and tail_equal(f, me, a[0], s), kindm, "the shipped suffix is not the current log from the announced sync index on", e, f)
        X.ob(R("ships-stopsign"), f.same(proj(L, "stopsign"), sh.c(me, "stopsign")), kindm, "the shipped stop-sign is not the sender's", e, f)
        ds = proj(L, "decided_snapshot")
        if kindm == "Promise":
            odec, oacc, orn = proj(inc, "decided_idx"), proj(inc, "accepted_idx"), proj(inc, "n_accepted")
            rounds = [(sh.c(me, "accepted_round"), [oacc])]
        else:
            tab = sh.lead(me, "promises_meta")
            i = norm(sub(m.to, c(1)))
            ent = None
            if i.op == "pos" and i.args[0] is tab:
                ent = T("elem", *i.args)
            else:
                v = tab
                while v.op == "store" and not f.same(v.args[1], i) and f.decide(eq(v.args[1], i)) is False:
                    v = v.args[0]
                ent = v.args[2] if v.op == "store" and f.same(v.args[1], i) else T("at", v, i)
            mt = proj(ent, "Promised.0")
            odec, oacc, orn = proj(mt, "decided_idx"), proj(mt, "accepted_idx"), proj(mt, "n_accepted")
            mx = sh.lead(me, "max_promise_meta")
            rounds = [(sh.lead(me, "n_leader"), [oacc]), (proj(mx, "n_accepted"), [oacc, proj(mx, "accepted_idx")])]
        sm = f.decide(is_some(ds))
        if sm is not True:
            okk = sm is False and (f.decide(lt(odec, s)) is False or f.decide(lt(comp, s)) is False
                                   or any(f.same(orn, r) and all(f.decide(lt(b, s)) is False for b in bs) for r, bs in rounds))
            X.ob(R("kept-prefix-common"), okk, kindm, "the receiver may keep a prefix that is not known to be common", e, f)
            return
        x = proj(ds, "Some.0")
        if x.op == "adt" and x.args[1] == "Complete":
            okk = snap_upto(f, me, x.args[2][0][1], s, e)
        elif x.op == "adt" and x.args[1] == "Delta":
            d = x.args[2][0][1]
            b = read(d.args[0], "get_entries", e) if d.op == "screate" else None
            okk = b is not None and f.same(b[0], odec) and f.same(b[1], s)
        else:
            okk = False
        X.ob(R("snapshot-covers"), okk and f.decide(lt(dec, s)) is False, kindm, "the shipped snapshot does not cover exactly the decided prefix it is labelled with", e, f)
    return ships, snap_upto


def check(X):
    sh, me0, kind, inc = X.sh, X.me0, X.kind, X.inc
    PS = sh.adt("PromiseState")

    ships, snap_upto = sender(X)

    def ev(e, D, loops):
        for m in X.sent(e):
            if m.kind == "AcceptSync" or (m.kind == "Promise" and kind == "Prepare"):
                f = X.fs(e)
                if f is None:
                    return
                L = m["log_sync"]
                if m.kind == "Promise":
                    d = f.decide(is_some(L))
                    if d is False:
                        continue
                    L = proj(L, "Some.0")
                ships(e, f, L, m)
        # ---- receiver ------------------------------------------------------------------------
        if e.k == "st":
            ops = ops_of(e)
            f = None
            if ops is None:
                X.ob("applies-suffix", False, "ops", "the operations of an atomic write are not known", e)
                return
            names = [n for n, _ in ops]
            if not any(n in ("append_on_prefix", "set_accepted_round") for n in names):
                if kind == "AcceptSync":
                    f = X.fs(e)
                    if f is not None:
                        X.ob("applies-suffix", False, "extra", "a synchronisation does more than adopting the sender's log", e, f)
                return
            f = X.fs(e)
            if f is None:
                return
            if kind == "AcceptSync":
                L = proj(inc, "log_sync")
            elif kind == "Promise":
                L = None
                for M in (proj(inc, "log_sync"), sh.lead(me0, "max_promise_sync")):
                    y = proj(M, "Some.0")
                    for n, a in ops:
                        if n == "append_on_prefix" and f.same(a[1], proj(y, "suffix")):
                            L = y
                if L is None:
                    X.ob("applies-suffix", not any(n in ("append_on_prefix", "trim", "set_compacted_idx", "set_snapshot", "set_stopsign") for n in names), "none", "the log is changed although nothing is to be synchronised", e, f)
                    return
            else:
                X.ob("applies-suffix", False, "kind", "this operation must not replace the log", e, f)
                return
            receive(e, f, ops, L)

    def receive(e, f, ops, L):
        names = [n for n, _ in ops]
        s, ds, ss = proj(L, "sync_idx"), proj(L, "decided_snapshot"), proj(L, "stopsign")
        ap = [a for n, a in ops if n == "append_on_prefix"]
        X.ob("applies-suffix", len(ap) == 1 and f.same(ap[0][0], s) and f.same(ap[0][1], proj(L, "suffix")) and not any(n in ("append_entry", "append_entries") for n in names),
             "suffix", "the receiver's log is not its prefix up to the sync index followed by the shipped suffix", e, f)
        sm = f.decide(is_some(ds))
        tr, co, sn = ([a for n, a in ops if n == k] for k in ("trim", "set_compacted_idx", "set_snapshot"))
        if sm is False:
            okk = not (tr or co or sn)
        elif sm is True:
            okk = len(tr) == len(co) == len(sn) == 1 and f.same(tr[0][0], s) and f.same(co[0][0], s) and f.decide(is_some(sn[0][0])) is True
            if okk:
                okk = names.index("trim") < names.index("append_on_prefix") if "append_on_prefix" in names else False
            if okk:
                x, v = proj(ds, "Some.0"), proj(sn[0][0], "Some.0")
                ST = sh.adt("SnapshotType")
                if f.decide(isv(x, "Complete", ST)) is True:
                    okk = f.same(v, proj(x, "Complete.0"))
                elif f.decide(isv(x, "Delta", ST)) is True:
                    dec, acc, s0 = sh.c(me0, "decided_idx"), sh.c(me0, "accepted_idx"), sh.c(me0, "stopsign")
                    okk = v.op == "smerge" and f.same(v.args[1], proj(x, "Delta.0"))
                    if okk:
                        stopped = f.decide(is_some(s0)) is True and f.same(dec, acc)
                        running = f.decide(is_some(s0)) is False or f.decide(eq(dec, acc)) is False
                        k = sub(dec, c(1)) if stopped else dec
                        okk = (stopped or running) and snap_upto(f, me0, v.args[0], k, None)
                else:
                    okk = False
        else:
            okk = False
        X.ob("applies-snapshot", okk, "snapshot", "the shipped snapshot is not stored as the compacted prefix up to the sync index", e, f)
        st = [a[0] for n, a in ops if n == "set_stopsign"]
        has = f.decide(is_some(ss))
        if has is True:
            okk = len(st) == 1 and f.decide(is_some(st[0])) is True and f.same(proj(st[0], "Some.0"), proj(ss, "Some.0"))
        elif has is False:
            okk = (len(st) == 1 and f.decide(is_none(st[0])) is True) or (not st and f.decide(is_none(sh.c(me0, "stopsign"))) is True)
        else:
            okk = len(st) == 1 and f.same(st[0], ss)
        X.ob("applies-stopsign", okk, "stopsign", "the receiver's stop-sign does not become the sender's", e, f)

    def ex(st, ret, D):
        if kind == "AcceptSync":
            f = X.inv.strengthen(st.facts)
            if f is not None and f.decide(isv(sh.phase(X.final(st)), "Accept", PHASE)) is True and f.decide(isv(sh.phase(me0), "Accept", PHASE)) is not True:
                X.ob("applies-suffix", any(e.k == "st" and any(n == "append_on_prefix" for n, _ in ops_of(e) or ()) for e, _ in E.flatten_events(st.events())), "missing", "the follower starts accepting without adopting the shipped log", None, f, X.fn.span)
    X.W.walk(ev, ex)
