"""C11 multi-part state changes are atomic"""
from sp import *
import be, eff

CONFIGS = ["main"]
FLOORS = {"parts-in-atomic-write": 8, "all-parts": 8, "one-write": 8, "backend-single-commit": 1, "backend-failed-leaves-nothing": 2, "batch-empty": 20}
ASSUMES = ["a RocksDB write of one WriteBatch is atomic", "a backend's write_atomically is the storage interface's atomic write"]
PARTS = ("trim", "set_compacted_idx", "set_snapshot", "append_on_prefix", "set_accepted_round")


def jobs(progs):
    P = progs["main"]
    return sp_jobs(P, check) + be.jobs(P, backend, ctors=False)


def check(X):
    memo = {}

    def names(e):
        ops = ops_of(e)
        return [("?", ())] if ops is None else ops

    def single(e, f):
        """one storage write: is it a part written alone; is it complete"""
        ops = names(e)
        mine = [n for n, _ in ops if n in PARTS or n == "?"]
        if not mine:
            return False
        X.ob("parts-in-atomic-write", e.d[0] == "write_atomically", e.d[0], "%s reaches storage outside an atomic write" % e.d[0], e, f)
        d = {}
        for n, a in ops:
            d.setdefault(n, []).append(a)
        bad = None
        if "?" in d:
            bad = "the list of operations in the atomic write is not known"
        else:
            tr, ci = d.get("trim", []), d.get("set_compacted_idx", [])
            if len(tr) != len(ci) or any(not f.same(a[0], b[0]) for a, b in zip(tr, ci)):
                bad = "the log is trimmed and the compacted index set without each other, or to different indexes"
            elif "set_snapshot" in d and not ci:
                bad = "the snapshot is replaced without the compacted index it stands for"
            elif "append_on_prefix" in d and ("set_accepted_round" not in d or "set_decided_idx" not in d):
                bad = "the log is replaced without the accepted round and decided index it belongs to"
            elif "set_accepted_round" in d and "set_decided_idx" not in d:
                bad = "the accepted round is written without the decided index of the synchronisation"
        X.ob("all-parts", bad is None, bad or "", bad or "", e, f)
        return True

    def step(e, acc, inloop):
        # acc = (multi-part write seen or None, storage writes before it, writes after it)
        if e.k == "loop":
            for it in e.d[0].iters:
                a = acc
                for x in it.events:
                    a = step(x, a, True)
                if a is not acc:
                    acc = a
            return acc
        if e.k != "st":
            return acc
        f = X.fs(e)
        if f is None:
            return acc
        M, n = acc
        if single(e, f):
            X.ob("one-write", not inloop and M is None and n == 0, "second",
                 "the change is split over several storage writes: a crash between them leaves a mixture", e, f)
            return (e, n + 1)
        if M is not None:
            ops = names(e)
            good = X.kind == "Promise" and all(o in ("append_entries", "append_entry", "set_stopsign") for o, _ in ops)
            src = [X.inc] if X.inc is not None else []
            src.append(X.sh.lead(X.me0, "max_promise_sync"))
            good = good and not any(t in src for _, a in ops for v in a for t in subterms(v))
            X.ob("one-write", good, "after", "part of the change (%s) is written separately, after the atomic write" % ", ".join(o for o, _ in ops), e, f)
        return (M, n + 1)

    for st, ret in X.run.outs:
        cells, cl = [], st.ev
        while cl is not None and id(cl) not in memo:
            cells.append(cl)
            cl = cl[0]
        acc = memo[id(cl)] if cl is not None else (None, 0)
        for cell in reversed(cells):
            acc = step(cell[1], acc, False)
            memo[id(cell)] = acc


def empty_batch(v):
    return v.op == "default" or (v.op == "app" and not v.args[1]) or (v.op == "upd" and v.args[0].startswith(eff.WB) and v.args[0].split("::")[-1] == "clear")


def backend(X, fn, r):
    P = r.P
    name = fn.self_ty[1].split("::")[-1]
    db = name in eff.persistent(P)
    if db:
        for n, t in eff.fields_of(P, fn):
            if head(t).startswith("WriteBatch"):
                for st, ret in r.outs:
                    v = proj(st.mem.get("self", T("sym", "self")), n)
                    X.ob("batch-empty", v is proj(T("sym", "self"), n) or empty_batch(v), n,
                         "operations are left in the batch: the next write commits them", None, st.facts, fn.span)
    if fn.name != "write_atomically":
        return
    fields = [n for n, _, _ in P.adts[fn.self_ty[1]]["vars"][P.adts[fn.self_ty[1]]["order"][0]][1]]
    me = T("sym", "self")
    for st, ret in r.outs:
        f = st.facts
        ev = st.events()
        ok, err = f.decide(ok_of(ret)), f.decide(err_of(ret))
        if db:
            ws = eff.writes(ev)
            if err is not True:
                commits = [(e, l) for e, l in ws if e.d[0].split("::")[-1] in ("write", "write_opt")]
                rest = [e for e, l in ws if e.d[0].split("::")[-1] not in ("write", "write_opt")]
                if not ws and not any(e.k == "loop" for e in ev) and f.decide(eq(vlen(r.args[1]), c(0))) is True:
                    continue
                X.ob("backend-single-commit", len(commits) == 1 and not commits[0][1] and not rest, "commit",
                     "an atomic write reaches the database in %d calls (%s) instead of one batch" % (len(ws), ", ".join(sorted({e.d[0].split("::")[-1] for e, _ in ws}))), ws[-1][0] if ws else None, f, fn.span)
            else:
                early = [e for e, l in ws if not any(e2.k == "res" and e2.d[1] == e.d[1:] and f.decide(ok_of(e2.d[2])) is not True for e2 in ev)]
                X.ob("backend-failed-leaves-nothing", not early, "written", "an atomic write that reports an error has already changed the database", early[0] if early else None, f, fn.span)
            fin = st.mem.get("self", me)
            for n in fields:
                v = proj(fin, n)
                if n == "db":
                    continue
                same = v is proj(me, n) or f.same(v, proj(me, n))
                fresh = empty_batch(v)
                if err is True:
                    X.ob("backend-failed-leaves-nothing", same or fresh, n, "a failed atomic write leaves %s changed: the next write commits or builds on it" % n, None, f, fn.span)
        else:
            X.ob("backend-single-commit", err is not True, "mem", "an in-memory atomic write fails half-way", None, f, fn.span)
