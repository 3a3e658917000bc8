"""C13 atomic batches perform every listed operation, in order, unaltered"""
from sp import *
import be, eff
from eff import *

CONFIGS = ["main"]
FLOORS = {"single": 20, "pair": 200, "any-position": 20, "whole-list": 2}


def jobs(progs):
    P = progs["main"]
    out = []
    for name, ms in sorted(be.backends(P).items()):
        if "write_atomically" not in ms:
            raise Anchor("%s does not implement write_atomically" % name)
        ks = op_kinds(P)
        for k in ks:
            out.append(("%s %s" % (name, k[0]), mk(P, name, ms, k, ks)))
        out.append(("%s any list" % name, mkgen(P, name, ms)))
    return out


def summary(P, fn, seq, db):
    """[(facts, effects, fields)] of the successful partitions"""
    out = []
    fl = fields_of(P, fn)
    for st, ret in seq.outs:
        ev = st.events()
        me = st.mem["self"]
        out.append((st.facts, Eff(ev).run(ev) if db else (), [(n, proj(me, n)) for n, t in fl if not head(t).startswith(("WriteBatch", "PhantomData"))]))
    return out


def differs(a, b):
    """first difference between two compatible partitions"""
    f = compatible(a[0], b[0])
    if f is None:
        return None, None
    if not same_eff(f, a[1], b[1]):
        return f, "the database is changed differently"
    for (n, x), (_, y) in zip(a[2], b[2]):
        if not same_seq(f, x, y):
            return f, "%s ends up different" % n
    return f, ""


def compare(X, rule, what, A, B, fn):
    hit = 0
    for b in B:
        for a in A:
            f, d = differs(a, b)
            if f is None:
                continue
            hit += 1
            X.ob(rule, d == "", what, "%s: %s than by the individual operations" % (what, d), None, f, fn.span)
    X.ob(rule, hit > 0, what, "%s: the batch never succeeds" % what, None, None, fn.span)


def args_for(i, k):
    return [T("sym", "a%d_%d" % (i, j)) for j in range(k)]


def mk(P, name, ms, k1, ks):
    def go():
        X = Plain("%s::write_atomically([%s, ..])" % (name, k1[0]))
        db = name in persistent(P)
        wa = ms["write_atomically"]
        a1 = args_for(1, k1[1])
        A = Seq(P, [(wa, [arr([op_val(P, k1[0], a1)])])])
        B = Seq(P, [(ms[OPS[k1[0]]], a1)])
        X.stats.append(A.stats(X.name))
        compare(X, "single", "[%s]" % k1[0], summary(P, wa, A, db), summary(P, wa, B, db), wa)
        for k2 in ks:
            a2 = args_for(2, k2[1])
            A = Seq(P, [(wa, [arr([op_val(P, k1[0], a1), op_val(P, k2[0], a2)])])])
            B = Seq(P, [(ms[OPS[k1[0]]], a1), (ms[OPS[k2[0]]], a2)])
            X.stats.append(A.stats(X.name))
            compare(X, "pair", "[%s, %s]" % (k1[0], k2[0]), summary(P, wa, A, db), summary(P, wa, B, db), wa)
        return X.result()
    return go


def arr(xs):
    return T("arr", tuple(xs))


def mkgen(P, name, ms):
    """a list of any length: one generic iteration per operation kind"""
    def go():
        X = Plain("%s::write_atomically(any list)" % name)
        db = name in persistent(P)
        wa = ms["write_atomically"]
        r = Run(P, wa)
        X.stats.append(r.stats())
        ops = r.args[1]
        OPN = op_adt(P)
        refs = {}
        seen = set()
        for st, ret in r.outs:
            f = st.facts
            if f.decide(err_of(ret)) is True:
                continue
            ev = st.events()
            top = [e.d[0] for e in ev if e.k == "loop"]
            lps = [lp for lp in top if lp.it is not None and models.canon_src(lp.it) is ops]
            X.ob("whole-list", len(lps) == 1 and len(top) == 1 and T("done", lps[0].lid) not in (), "loop", "the operations are not performed by one pass over the whole list", None, f, wa.span)
            if len(lps) != 1:
                continue
            lp = lps[0]
            # success means the pass was completed: no early way out
            X.ob("whole-list", f.decide(eq(vlen(ops), c(0))) is True or not any(l.op == "not" and l.args[0] is T("done", lp.lid) for l in f.lits), "complete", "the pass over the operations can end early and still report success", None, f, wa.span)
            if id(lp) in seen:
                continue
            seen.add(id(lp))
            el = [t for it in lp.iters for l in it.facts.lits for t in subterms(l) if t.op == "elem" and t.args[-1] == lp.lid]
            if not el:
                X.ob("any-position", False, "elem", "iterations do not look at their operation", None, f, wa.span)
                continue
            el = el[0]
            bk = [k for k in lp.init if isinstance(lp.init[k], Term) and any(u.op == "upd" and str(u.args[0]).startswith(WB) for it in lp.iters for u in subterms(it.upd[k]))]
            covered = set()
            for it in lp.iters:
                kinds = [k for k, _ in op_kinds(P) if it.facts.decide(isv(el, k, OPN)) is not False]
                for k in kinds:
                    covered.add(k)
                    fk = it.facts.add(isv(el, k, OPN))
                    if fk is None:
                        continue
                    n = dict(op_kinds(P))[k]
                    av = [proj(proj(el, "%s.%d" % (k, j)), "") if False else proj(el, "%s.%d" % (k, j)) for j in range(n)]
                    base = lp.base if lp.base is not None else T("sym", "self")
                    if k not in refs:
                        refs[k] = summary(P, wa, Seq(P, [(ms[OPS[k]], av)], base), db)
                    evs = it.events
                    E_ = Eff(evs)
                    E_.loops.update(loops_of(ev))
                    effs = E_.run(evs)
                    good = True
                    for key in bk:
                        b = E_.batch(it.upd[key])
                        phi = T("phi", lp.lid, key)
                        if b and b[0] == ("batch", phi):
                            effs = effs + b[1:]
                        else:
                            good = False
                    mine = (fk, effs, [(nm, proj(it.end, nm)) for nm, t in fields_of(P, wa) if not head(t).startswith(("WriteBatch", "PhantomData"))])
                    hit = 0
                    for b in refs[k]:
                        f2, d = differs(mine, b)
                        if f2 is None:
                            continue
                        hit += 1
                        X.ob("any-position", good and d == "", k, "%s inside a batch: %s than by the individual operation" % (k, d or "the batch is rebuilt"), None, f2, wa.span)
                    X.ob("any-position", hit > 0, k, "%s inside a batch matches no outcome of the individual operation" % k, None, fk, wa.span)
            for k, _ in op_kinds(P):
                X.ob("any-position", k in covered, k, "%s inside a batch is never performed" % k, None, f, wa.span)
        return X.result()
    return go
