"""Shared machinery of the leader-election rules."""
from sp import *

BLE = "BallotLeaderElection"


def entries_(P):
    """interface methods of the election component (called by the server)"""
    return [fn for fn in sorted(callers_outside(P, BLE), key=lambda f: f.key) if fn.argc and fn.locals[1][0] == "ref"]


class BCtx:
    def __init__(self, P, sh, fn, facts=(), suffix=""):
        self.P, self.sh, self.fn = P, sh, fn
        self.name = fn.label() + suffix
        self.run = Run(P, fn, facts, name=self.name)
        self.me0 = T("sym", "self")
        self.out = None
        for n, t, _ in sh.fields(sh.BLE):
            if head(t) == "Vec" and t[2] and head(t[2][0]) == "BLEMessage":
                self.out = n
        if self.out is None:
            raise Anchor("BallotLeaderElection has no outgoing message buffer")
        self.findings, self.count = {}, {}

    def ob(self, *a, **k):
        return SPCtx.ob(self, *a, **k)

    def result(self):
        return {"findings": [f.data() for f in self.findings.values()], "counts": self.count, "stats": self.run.stats()}

    def final(self, st):
        return st.mem.get("self", self.me0)

    def sends(self, st):
        """[(kind, payload, to, from, fan or None, facts)] put into the outgoing buffer along a partition; None if not known"""
        out = []
        for e in st.events():
            if e.k == "loop":
                lp = e.d[0]
                src = models.canon_src(lp.it) if lp.it is not None else None
                for it in lp.iters:
                    for x, ls in E.flatten_events(it.events):
                        r = self.one(x)
                        if r is None:
                            return None
                        for k in r:
                            out.append(k + ((e, lp, src, it, ls), it.facts))
            else:
                r = self.one(e)
                if r is None:
                    return None
                out += [k + (None, e.facts) if len(k) == 4 else k for k in r]
        return out

    def one(self, e):
        if e.k not in ("push", "app", "w", "upd", "havoc") or e.d[0] != "self" or tuple(e.d[1])[:1] != (self.out,):
            return []
        if tuple(e.d[1]) != (self.out,):
            return None
        if e.k == "push":
            return [bmsg(e.d[2])]
        if e.k == "app":
            v = e.d[2]
            if v.op == "arr":
                return [bmsg(x) for x in v.args[0]]
            if v.op == "comp":
                out = []
                for cl, x in v.args[1]:
                    f = e.facts
                    for l in cl:
                        f = f.add(l) if f is not None else None
                    if f is not None:
                        out.append(bmsg(x) + ((e, None, v.args[0], cl, ()), f))
                return out
        return None


def bmsg(v):
    m = proj(v, "msg")
    if m.op == "adt":
        return (m.args[1], m.args[2][0][1] if m.args[2] else UNIT, proj(v, "to"), proj(v, "from"))
    return ("?", m, proj(v, "to"), proj(v, "from"))


def to_all(me, sent, kind, f):
    """exactly one message of the kind to every peer: None or what is wrong"""
    peers = proj(me, "peers")
    ss = [x for x in sent if x[0] == kind]
    if any(x[4] is None for x in ss):
        return "a message is sent outside the loop over the peers"
    if not ss:
        return None if f.same(vlen(peers), c(0)) else "no message is sent"
    if len({id(x[4][0]) for x in ss}) != 1 or len(ss) != 1:
        return "%d messages are sent per peer" % len(ss)
    k, p, to, frm, (e, lp, src, it, ls), g = ss[0]
    if ls:
        return "it is sent in a nested loop"
    if src is None or not (src is peers or f.same(src, peers)):
        return "it is not a loop over the peers"
    if lp is not None:
        if lp.early:
            return "the loop over the peers may stop early"
        if len(lp.iters) != 1 or [l for l in it.delta if not loop_noise(l)]:
            return "some peers are left out"
        el = T("elem", src, lp.lid)
    else:
        if it:
            return "some peers are left out"
        el = T("belem", src)
    if not g.same(to, el):
        return "it is addressed to %s" % show(to, 4)
    return None
