"""C17 reads return the right entries with the right status"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"read-result": 40, "no-panic": 3, "read-only": 3}
TECHNIQUE = "path-sensitive dataflow over MIR: the value every read returns, as a term over the stored log, is compared with the specified one in every case of the range against the compacted, decided and accepted indexes"
ASSUMES = ["storage range reads return exactly the requested entries (C12-C14)", "compacted <= decided <= accepted, and compacted excludes the stop-sign (C06, C15)",
           "the range is not empty or inverted"]


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    return [("OmniPaxos::" + n, mk(P, sh, n)) for n in ("read", "read_entries", "read_decided_suffix")]


def mk(P, sh, name):
    def go():
        fn = method(P, "OmniPaxos", name)
        X = SPCtx(P, sh, fn, None, prefix=(sh.seq,))
        check(X, name)
        return result(X)
    return go


def source(t):
    """range of the log that a vector of stored entries holds: (from, to or None)"""
    if t.op == "slice":
        r = source(t.args[0])
        return None if r is None else (add(r[0], t.args[1]), add(r[0], t.args[2]))
    if t.op == "f" and t.args[1] == "Ok.0" and t.args[0].op == "sget":
        g = t.args[0]
        if g.args[0] == "get_entries":
            return g.args[1][0], g.args[1][1]
        if g.args[0] == "get_suffix":
            return g.args[1][0], None
    return None


def check(X, name):
    sh, me0 = X.sh, X.me0
    comp, dec, acc, ss = (sh.c(me0, k) for k in ("compacted_idx", "decided_idx", "accepted_idx", "stopsign"))
    X.inv.rules.append(([is_some(ss)], le(add(comp, c(1)), acc)))
    LE, SE = sh.adt("LogEntry"), sh.adt("SnapshottedEntry")
    end0 = sub(acc, T("ind", ss))

    def norm(f):
        """lengths of range reads replaced by the length of the range"""
        m = {}
        for l in f.lits:
            for t in subterms(l):
                if t.op == "cnt" and source(t.args[0]) is not None and exhaustive(f, t.args[1]):
                    m[t] = vlen(t.args[0])
        out = f
        if m:
            for l in f.lits:
                l2 = subst(l, m)
                if l2 is not l:
                    out = out.add(l2) if out is not None else None
        for l in (out.lits if out is not None else ()):
            for t in subterms(l):
                if out is not None and t.op == "len" and source(t.args[0]) is not None:
                    a, b = source(t.args[0])
                    if b is None:
                        b = sub(acc, ind(ss, out))
                    out = out.add(eq(t, sub(b, a)))
        return out

    def nval(f, t):
        m = {}
        for x in subterms(t):
            if x.op == "cnt" and source(x.args[0]) is not None and exhaustive(f, x.args[1]):
                m[x] = vlen(x.args[0])
        t = subst(t, m) if m else t
        m = {}
        for x in subterms(t):
            if x.op == "len" and source(x.args[0]) is not None:
                a, b = source(x.args[0])
                m[x] = sub(b if b is not None else sub(acc, ind(ss, f)), a)
        return subst(t, m) if m else t

    def compacted_entry(f, v):
        if v.op != "adt" or v.args[0] != LE:
            return False
        snap = [l for l in all_gets if l.args[0] == "get_snapshot"]
        if v.args[1] == "Trimmed":
            none = any(f.decide(is_none(proj(g, "Ok.0"))) is True for g in snap)
            return none and f.same(v.args[2][0][1], comp)
        if v.args[1] == "Snapshotted":
            s = v.args[2][0][1]
            x = proj(s, "snapshot")
            return f.same(proj(s, "trimmed_idx"), comp) and any(x is proj(proj(g, "Ok.0"), "Some.0") and f.decide(is_none(proj(g, "Ok.0"))) is False for g in snap)
        return False

    def stop_entry(f, v):
        if v.op != "adt" or v.args[0] != LE or v.args[1] != "StopSign":
            return False
        a, b = v.args[2][0][1], v.args[2][1][1]
        if not f.same(a, proj(ss, "Some.0")):
            return False
        for l in (eq(dec, acc), lnot(eq(dec, acc))):
            g = X.assume(f, l)
            if g is None:
                continue
            if b is c(1) or b is c(0) or b.op == "c":
                val = bool(b.args[0])
            else:
                val = g.decide(b)
            if val is not (l == eq(dec, acc)):
                return False
        return True

    def label(f, v, e, i):
        """v = the entry value e with the status of log position i"""
        if v.op != "adt" or v.args[0] != LE or v.args[1] not in ("Decided", "Undecided") or v.args[2][0][1] is not e:
            return False
        d = f.decide(lt(i, dec))
        return d is (v.args[1] == "Decided")

    def comp_ok(f, t):
        """(from, to) of a labelled range of entries"""
        if t.op != "comp":
            return None
        r = source(t.args[0])
        if r is None:
            return None
        b, p = T("belem", t.args[0]), T("bpos", t.args[0])
        to = r[1] if r[1] is not None else sub(acc, ind(ss, f))
        g0 = f.add(lt(p, sub(to, r[0])))
        g0 = g0.add(le(c(0), p)) if g0 is not None else None
        if g0 is None:
            return r[0], to
        for cl, v in t.args[1]:
            g = g0
            for l in cl:
                g = g.add(l) if g is not None else None
            if g is not None and not label(g, v, b, add(r[0], p)):
                return None
        if not exhaustive(g0, [cl for cl, _ in t.args[1]]):
            return None
        return r[0], to

    def flat(v):
        if v.op == "vpush":
            a = flat(v.args[0])
            return None if a is None else a + [("1", v.args[1])]
        if v.op == "vapp":
            a, b = flat(v.args[0]), flat(v.args[1])
            return None if a is None or b is None else a + b
        if v.op == "arr":
            return [("1", x) for x in v.args[0]]
        if v.op == "comp":
            return [("*", v)]
        return None

    def want(f, v, a, b):
        """v is exactly the log of [a, b) under f (all comparisons needed are decided by f)"""
        ps = flat(v)
        if ps is None:
            return False
        if f.decide(lt(comp, b)) is False:
            return len(ps) == 1 and ps[0][0] == "1" and compacted_entry(f, ps[0][1])
        at = a
        if f.decide(lt(a, comp)) is True:
            if not ps or ps[0][0] != "1" or not compacted_entry(f, ps[0][1]):
                return False
            ps = ps[1:]
            at = comp
        stop = f.decide(is_some(ss)) is True and f.same(b, acc)
        end = sub(b, c(1)) if stop else b
        if stop:
            if not ps or ps[-1][0] != "1" or not stop_entry(f, ps[-1][1]):
                return False
            ps = ps[:-1]
        for k, x in ps:
            if k == "*":
                r = comp_ok(f, x)
                if r is None or not f.same(r[0], at):
                    return False
                at = r[1]
            else:
                s = x
                r = None
                if s.op == "adt" and s.args[0] == LE:
                    y = s.args[2][0][1]
                    if y.op == "at" and source(y.args[0]) is not None:
                        i = add(source(y.args[0])[0], y.args[1])
                        if f.same(i, at) and label(f, s, y, i):
                            r = add(at, c(1))
                if r is None:
                    return False
                at = r
        return f.same(at, end)

    def one(f, v, i):
        """v is the log entry at i"""
        if f.decide(lt(i, comp)) is True:
            return compacted_entry(f, v)
        if f.decide(is_some(ss)) is True and f.same(add(i, c(1)), acc):
            return stop_entry(f, v)
        if v.op == "at" and v.args[0].op == "comp":
            t, p = v.args
            src = source(t.args[0])
            if src is None:
                return False
            b, bp = T("belem", t.args[0]), T("bpos", t.args[0])
            # filters would shift positions
            if not exhaustive(f, [cl for cl, _ in t.args[1]]):
                return False
            m = {bp: nval(f, p)}
            if not f.same(add(src[0], m[bp]), i):
                return False
            for cl, x in t.args[1]:
                g = f
                for l in cl:
                    g = g.add(subst(l, m)) if g is not None else None
                if g is not None and not label(g, x, b, i):
                    return False
            return True
        if v.op == "adt" and v.args[0] == LE and v.args[1] in ("Decided", "Undecided"):
            y = v.args[2][0][1]
            if y.op == "at" and source(y.args[0]) is not None:
                return f.same(add(source(y.args[0])[0], nval(f, y.args[1])), i) and label(f, v, y, i)
        return False

    def bounds(f):
        """[(facts, a, b)] of the requested range"""
        if name == "read":
            i = X.run.args[1]
            return [(f, i, add(i, c(1)))]
        if name == "read_decided_suffix":
            return [(f, X.run.args[1], dec)]
        out = []
        B = "core::ops::range::Bound"
        r = X.run.args[1]
        s, e = T("bound", r, "start"), T("bound", r, "end")
        for vs in ("Included", "Excluded", "Unbounded"):
            g = f.add(isv(s, vs, B))
            if g is None:
                continue
            a = {"Included": T("deref", proj(s, "Included.0")), "Excluded": add(T("deref", proj(s, "Excluded.0")), c(1)), "Unbounded": c(0)}[vs]
            for ve in ("Included", "Excluded", "Unbounded"):
                h = g.add(isv(e, ve, B))
                if h is None:
                    continue
                b = {"Included": add(T("deref", proj(e, "Included.0")), c(1)), "Excluded": T("deref", proj(e, "Excluded.0")), "Unbounded": acc}[ve]
                out.append((h, a, b))
        return out

    def cases(f, a, b):
        """splits the facts by everything the specification distinguishes"""
        if name == "read_decided_suffix":
            dom = [f]
        else:
            dom = [f.add(lt(a, b))]
        for l in (le(b, acc), le(b, comp), lt(a, comp), is_some(ss), eq(b, acc), lt(a, b), eq(dec, acc), lt(a, dec)):
            nx = []
            for g in dom:
                if g is None:
                    continue
                for k in (l, lnot(l)):
                    h = X.assume(g, k)
                    if h is not None:
                        nx.append(h)
            dom = nx
        return dom

    all_gets = set()
    outs = []
    for st, ret in X.run.outs:
        for l in st.facts.lits:
            for t in subterms(l):
                if t.op == "sget":
                    all_gets.add(t)
        for t in subterms(ret):
            if t.op == "sget":
                all_gets.add(t)
        outs.append((st, ret))
    for st, ret in outs:
        f0 = X.inv.strengthen(st.facts)
        if f0 is None or storage_failed(f0):
            continue
        X.ob("read-only", X.final(st) is me0 and not any(e.k in ("st", "w", "push", "app", "upd", "havoc") and e.d[0] == "self" for e, _ in E.flatten_events(st.events())), "state", "a read changes the server's state", None, f0, X.fn.span)
        f0 = norm(f0)
        if f0 is None:
            continue
        for f1, a, b in bounds(f0):
            for f in cases(f1, a, b):
                f = norm(f)
                if f is None:
                    continue
                some_ = f.decide(is_some(ret))
                if f.decide(le(b, acc)) is False or f.decide(lt(a, b)) is False:
                    X.ob("read-result", some_ is False, "out", "a read outside the log does not return None", None, f, X.fn.span)
                    continue
                v = proj(ret, "Some.0")
                if name == "read":
                    X.ob("read-result", some_ is True and one(f, v, a), "one", "reading an index does not return the entry there with its status (%s)" % show(ret, 4), None, f, X.fn.span)
                else:
                    X.ob("read-result", some_ is True and want(f, v, a, b), "range", "the result (%s) is not exactly the log of the range with each entry's status" % show(ret, 4), None, f, X.fn.span)
    bad = []
    for st, msg, span, stack, key in X.run.ex.panics:
        f0 = X.inv.strengthen(st.facts)
        if f0 is None or storage_failed(f0):
            continue
        for f1, a, b in bounds(f0):
            for f in cases(f1, a, b):
                if norm(f) is not None:
                    bad.append((f, msg, span, stack))
    for f, msg, span, stack in bad[:3]:
        X.ob("no-panic", False, "panic", "a read of a range with start below end can panic (%s)" % msg, None, f, span, stack)
    if not bad:
        for _ in range(3):
            X.ob("no-panic", True, "panic", "")
