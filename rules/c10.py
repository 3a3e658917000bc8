"""C10 storage errors are never silently ignored"""
from sp import *
import be

CONFIGS = ["main"]
FLOORS = {"error-surfaces": 100, "no-send-after-error": 40, "no-write-after-error": 20, "backend-error-surfaces": 40}
ASSUMES = ["a storage backend's error is not itself a CompactionErr"]


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    return sp_jobs(P, check) + op_jobs(P, sh) + be.jobs(P, backend)


def op_jobs(P, sh):
    """OmniPaxos methods (user interface) and construction, below the Sequence Paxos entries analysed above"""
    own = {fn.key for fn, _ in entries(P, sh)}
    own |= {fn.key for fn in P.fns.values() if fn.self_ty is not None and fn.self_ty[0] == "adt" and fn.self_ty[1] == sh.BLE}
    out = []
    for fn in P.fns.values():
        if fn.crate != "omnipaxos" or fn.kind == "Closure" or fn.self_ty is None or fn.self_ty[0] != "adt" or not reads_storage(P, fn):
            continue
        if fn.self_ty[1] == sh.OP and not fn.implof:
            out.append((fn, lambda g: g.key in own))
        elif fn.name in ("build", "with") and fn.self_ty[1] in (sh.SP,) or fn.self_ty[1].endswith("::OmniPaxosConfig") and not fn.implof:
            out.append((fn, None))

    def mk(fn, cut):
        def go():
            X = Plain(fn.label())
            r = Run(P, fn, cut=cut)
            X.stats.append(r.stats())
            errors(X, r.outs, lambda f: f, lambda e: False, fn)
            return X.result()
        return go
    return [("api " + fn.label(), mk(fn, cut)) for fn, cut in sorted(out, key=lambda x: x[0].key)]


def reads_storage(P, fn, seen=None):
    seen = set() if seen is None else seen
    if fn.key in seen:
        return False
    seen.add(fn.key)
    for k in called(fn):
        if "::Storage::" in k and k.startswith("omnipaxos::storage::Storage"):
            return True
        g = P.fns.get(k)
        if g is not None and g.crate == "omnipaxos" and reads_storage(P, g, seen):
            return True
    for k, g in P.fns.items():
        if g.parent == fn.key and g.kind.startswith("Closure") and reads_storage(P, g, seen):
            return True
    return False


def surfaces(f, ret, r):
    """the error of result r reaches the caller through the returned value"""
    if ret is r or f.same(ret, r):
        return True
    return f.decide(err_of(ret)) is True


def errors(X, outs, fs, sends, fn, kinds=("st", "sg"), writes=("st",), rule="error-surfaces"):
    memo = {}
    okm = {}

    def isok(f, r):
        k = (id(f), r)
        v = okm.get(k)
        if v is None:
            v = okm[k] = (f.decide(is_some(r) if r.op == "app" and r.args[0].startswith("zerocopy::") else ok_of(r)) is True, f)
        return v[0]

    def left(f, pend):
        return tuple(p for p in pend if not isok(f, p[0]))

    def step(e, pend, keep):
        if e.k == "loop":
            f = fs(e.facts)
            if f is None:
                return pend
            pend = left(f, pend)
            for it in e.d[0].iters:
                d = pend
                for x in it.events:
                    d = step(x, d, keep)
                f = fs(it.facts)
                if f is None:
                    continue
                for r, name, ev in left(f, d):
                    if any(r is q[0] for q in pend):
                        continue
                    X.ob(rule, False, name + "/loop", "the result of %s is not checked before the next iteration" % name, ev, f)
            return pend
        w = e.k in writes
        s = sends(e)
        if pend and (w or s):
            f = fs(e.facts)
            if f is None:
                return pend
            pend = left(f, pend)
            for r, name, ev in pend:
                if s:
                    X.ob("no-send-after-error", False, name, "a message is produced although %s may have failed" % name, e, f)
                if w:
                    X.ob("no-write-after-error", False, name, "storage is written although an earlier %s may have failed" % name, e, f)
        if s:
            X.ob("no-send-after-error", True, "", "")
        if w:
            X.ob("no-write-after-error", True, "", "")
        if e.k in kinds and e.d[0] != "std::fs::metadata":
            return pend + ((e.d[-1], e.d[0], e),)
        return pend

    for st, ret in outs:
        cells, cl = [], st.ev
        while cl is not None and id(cl) not in memo:
            cells.append(cl)
            cl = cl[0]
        pend = memo[id(cl)] if cl is not None else ()
        for cell in reversed(cells):
            pend = step(cell[1], pend, None)
            memo[id(cell)] = pend
        f = fs(st.facts)
        if f is None:
            continue
        bad = [p for p in left(f, pend) if not surfaces(f, ret, p[0])]
        for r, name, ev in bad:
            X.ob(rule, False, name, "%s may fail and the operation still completes as if it had succeeded" % name, ev, f)
        for _ in pend:
            if not bad:
                X.ob(rule, True, "", "")


def check(X):
    errors(X, X.run.outs, X.inv.strengthen, lambda e: bool(X.sent(e)), X.fn)


def backend(X, fn, r):
    errors(X, r.outs, lambda f: f, lambda e: False, fn, ("res",), (), "backend-error-surfaces")
    # an exhausted database iterator is an error unless its status says otherwise
    for st, ret in r.outs:
        f = st.facts
        for l in f.lits:
            pos, t = (True, l) if l.op != "not" else (False, l.args[0])
            it = None
            if t.op == "app" and t.args[0].endswith("db_iterator::valid") and not pos:
                it = t.args[1][0]
            elif t.op == "isv" and t.args[0].op == "app" and t.args[0].args[0].startswith("rocksdb::db_iterator::") and f.decide(is_none(t.args[0])) is True:
                it = t.args[0].args[1][0]
            if it is None:
                continue
            good = f.decide(err_of(ret)) is True or any(x.op == "isv" and x.args[0].op == "app" and x.args[0].args[0].endswith("db_iterator::status") and x.args[0].args[1][0] is it and f.decide(ok_of(x.args[0])) is True for x in f.lits)
            X.ob("backend-error-surfaces", good, "iterator", "a database iterator that stopped because of an error is taken for the end of the log", None, f, fn.span)
