"""Database effects of a persistent-backend method, in a normal form that does not depend on how the calls are arranged:
a sequence of ("put", column family, key, value), ("del", column family, from, to), ("for", source, {(guards, effects)})."""
from be import *

WB = "rocksdb::write_batch::"
DBP = "rocksdb::db::"
UNKNOWN = ("unknown",)


def canon_elem(t, lid, extra=None):
    m = dict(extra or {})
    for x in subterms(t):
        if x.op in ("elem", "pos") and x.args[-1] == lid:
            m[x] = T("b" + x.op, x.args[0])
    return subst(t, m) if m else t


def loops_of(events, out=None):
    out = {} if out is None else out
    for e in events:
        if e.k == "loop":
            out[e.d[0].lid] = e.d[0]
            for it in e.d[0].iters:
                loops_of(it.events, out)
    return out


def prim(name, vals):
    """primitive write (vals without the receiver) -> effect"""
    n = name.split("::")[-1]
    if n in ("put", "put_opt"):
        return ("put", None, vals[0], vals[1])
    if n in ("put_cf", "put_cf_opt"):
        return ("put", vals[0], vals[1], vals[2])
    if n in ("delete_range_cf", "delete_range_cf_opt"):
        return ("del", vals[0], vals[1], vals[2])
    if n in ("delete", "delete_opt"):
        return ("del1", None, vals[0])
    if n in ("delete_cf", "delete_cf_opt"):
        return ("del1", vals[0], vals[1])
    return ("other", name) + tuple(vals)


class Eff:
    def __init__(self, events):
        self.loops = loops_of(events)

    def phi_map(self, lp):
        """counters of a loop as functions of the position"""
        m = {}
        if lp.it is None:
            return m
        src = models.canon_src(lp.it)
        for key, old in lp.init.items():
            phi = T("phi", lp.lid, key)
            d = {sub(it.upd[key], phi) for it in lp.iters}
            if len(d) == 1 and d.pop() is c(1):
                pos = T("bpos", src) if src.op != "range" else sub(T("belem", src), src.args[0])
                m[phi] = add(old, pos)
        return m

    def batch(self, t):
        """the effects gathered in a write-batch value"""
        if t.op == "default" or (t.op == "app" and not t.args[1]):
            return ()
        if t.op == "upd" and t.args[0].startswith(WB) and t.args[1] == 0:
            prev = self.batch(t.args[2])
            n = t.args[0].split("::")[-1]
            if n == "clear":
                return ()
            return prev + (prim(t.args[0], t.args[3][1:]),)
        if t.op == "final":
            phi = t.args[-1]
            lp = self.loops.get(phi.args[0])
            if lp is None:
                return (UNKNOWN,)
            return self.batch(lp.init[phi.args[1]]) + self.loop(lp, phi)
        if t.op == "phi":
            return (("batch", t),)
        if t.op in ("f", "sym"):
            return ()          # the batch is empty between operations (C11 batch-empty)
        return (UNKNOWN,)

    def loop(self, lp, phi):
        if lp.it is None:
            return (UNKNOWN,)
        src = models.canon_src(lp.it)
        m = self.phi_map(lp)
        body = set()
        for it in lp.iters:
            b = self.batch(it.upd[phi.args[1]])
            if not b or b[0] != ("batch", phi):
                return (UNKNOWN,)
            body.add(self.bind(b[1:], lp.lid, m))
        if len(body) == 1:
            b = body.pop()
            return (("for", src, b),) if b else ()
        return (("for", src, frozenset(body)),)

    def bind(self, effs, lid, m):
        def go(x):
            if isinstance(x, Term):
                return canon_elem(x, lid, m)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        return go(effs)

    def run(self, events):
        """effects on the database of an event sequence"""
        out = ()
        for e in events:
            if e.k == "loop":
                lp = e.d[0]
                bodies = {self.bind(self.run(it.events), lp.lid, self.phi_map(lp)) for it in lp.iters}
                if bodies == {()}:
                    continue
                if lp.it is None:
                    out += (UNKNOWN,)
                else:
                    out += (("for", models.canon_src(lp.it), bodies.pop() if len(bodies) == 1 else frozenset(bodies)),)
            elif e.k == "ext" and e.d[0].startswith(DBP):
                n = e.d[0].split("::")[-1]
                if e.d[0] in models.DBPURE or e.d[0].startswith(models.DBREAD) or n in ("open", "open_cf", "open_cf_descriptors", "list_cf"):
                    continue
                if n in ("write", "write_opt", "write_without_wal"):
                    out += self.batch(e.d[2])
                else:
                    out += (prim(e.d[0], e.d[2:]),)
        return out


def writes(events, loop=False):
    """[(event, inside a loop)] of the calls that change the database"""
    out = []
    for e in events:
        if e.k == "loop":
            for it in e.d[0].iters:
                out += [(x, True) for x, _ in writes(it.events)]
        elif e.k == "ext" and e.d[0].startswith(DBP) and e.d[0] not in models.DBPURE and not e.d[0].startswith(models.DBREAD) and not e.d[0].split("::")[-1].startswith(("open", "list_cf")):
            out.append((e, loop))
    return out


def persistent(P):
    """backends that write a database"""
    return {n: ms for n, ms in backends(P).items() if any(any(k.startswith("rocksdb::") for k in called(f)) for f in reach(P, ms.values()))}


def reach(P, fns):
    seen, todo = {}, list(fns)
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen[f.key] = f
        for k in called(f):
            g = P.fns.get(k)
            if g is not None and g.crate in P.local_crates:
                todo.append(g)
        todo += [g for g in P.fns.values() if g.parent == f.key and g.kind.startswith("Closure")]
    return list(seen.values())


# ---- running sequences of methods on one backend value ---------------------------------------------
class Seq:
    """calls executed one after the other on the same receiver; outs = partitions in which every call succeeded"""

    def __init__(self, P, calls, start=None, lid0=10000):
        self.P = P
        self.ex = E.Exec(P, None, 6_000_000)
        self.ex.lidc = lid0          # loop numbers distinct from those of terms passed in
        st = E.State()
        st.mem["self"] = start if start is not None else T("sym", "self")
        cur = [st]
        rets = None
        for fn, args in calls:
            nxt = []
            for s in cur:
                a = [T("ref", "self", ())] + list(args)
                for o, ret in self.ex.exec_fn(s, fn, {}, a, ((fn.label(), fn.span),), 0):
                    if o.facts.decide(ok_of(ret)) is False:
                        continue
                    f = o.facts.add(ok_of(ret))
                    if f is None:
                        continue
                    o.facts = f
                    nxt.append((o, ret))
            cur = [o for o, _ in nxt]
            rets = nxt
        self.outs = rets

    def stats(self, name):
        return {"entry": name, "partitions": len(self.outs), "steps": self.ex.steps, "calls": self.ex.calls_seen,
                "loops": self.ex.loops_seen, "functions": len(self.ex.fns_seen), "aborting_paths": len(self.ex.panics), "seconds": 0}


def op_adt(P):
    c = [p for p in P.adts if p.endswith("::StorageOp") and p.startswith("omnipaxos::")]
    if len(c) != 1:
        raise Anchor("enum StorageOp not found")
    return c[0]


def op_kinds(P):
    """[(variant, arity)]; every variant must have a corresponding method"""
    a = P.adts[op_adt(P)]
    out = []
    for v in a["order"]:
        if v not in OPS:
            raise Anchor("StorageOp::%s has no known individual operation" % v)
        out.append((v, len(a["vars"][v][1])))
    return out


def op_val(P, kind, args):
    return adt(op_adt(P), kind, [(str(i), x) for i, x in enumerate(args)])


def compatible(f, g):
    """conjunction of two fact sets; None if contradictory"""
    for l in g.lits:
        f = f.add(l)
        if f is None:
            return None
    return f


def fields_of(P, fn):
    a = P.adts[fn.self_ty[1]]
    return [(n, t) for n, t, _ in a["vars"][a["order"][0]][1]]


def segments(f, v):
    """a sequence value as a list of slices and single elements, provably empty parts dropped"""
    op = v.op
    if op == "arr":
        return [("e", x) for x in v.args[0]]
    if op == "vpush":
        return segments(f, v.args[0]) + [("e", v.args[1])]
    if op == "vapp":
        return segments(f, v.args[0]) + segments(f, v.args[1])
    if op == "slice":
        b, lo, hi = v.args
        if f.decide(lt(lo, hi)) is False:
            return []
        return [("s", b, lo, hi)]
    if f.decide(lt(c(0), vlen(v))) is False:
        return []
    return [("s", v, c(0), vlen(v))]


def same_seq(f, a, b):
    if a is b or f.same(a, b):
        return True
    x, y = segments(f, a), segments(f, b)
    return len(x) == len(y) and all(p[0] == q[0] and all(u is w or f.same(u, w) for u, w in zip(p[1:], q[1:])) for p, q in zip(x, y))


def empty_del(f, e):
    """deleting the keys from k up to k deletes nothing"""
    return isinstance(e, tuple) and len(e) == 4 and e[0] == "del" and same_eff(f, e[2], e[3])


def same_eff(f, x, y):
    """equality of effect sequences under facts"""
    if isinstance(x, Term) and isinstance(y, Term):
        if x is y or f.same(x, y):
            return True
        if x.op == y.op and len(x.args) == len(y.args) and x.op in ("app", "deref", "f", "rec", "adt"):
            return all(same_eff(f, p, q) for p, q in zip(x.args, y.args))
        return False
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            x, y = (tuple(e for e in z if not empty_del(f, e)) for z in (x, y))
        return len(x) == len(y) and all(same_eff(f, p, q) for p, q in zip(x, y))
    return x == y
