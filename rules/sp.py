"""Shared machinery of the Sequence Paxos rules: entries, incoming/outgoing messages, obligations."""
from api import *
import models

BALLOT_FIELD = {"PrepareReq": "n", "Prepare": "n", "Promise": "n", "AcceptSync": "n", "AcceptDecide": "n", "Accepted": "n",
                "NotAccepted": "n", "Decide": "n", "AcceptStopSign": "n"}
KINDS = ("PrepareReq", "Prepare", "Promise", "AcceptSync", "AcceptDecide", "Accepted", "NotAccepted", "Decide",
         "ProposalForward", "Compaction", "AcceptStopSign", "ForwardStopSign")
LOGOPS = ("append_entry", "append_entries", "append_on_prefix", "set_stopsign", "set_accepted_round", "set_decided_idx")


RUNS = None          # tools/all.py shares the partitions of an entry between properties


class Msg:
    __slots__ = ("kind", "p", "to", "frm", "raw", "bound")

    def __init__(self, kind, p, to, frm, raw, bound=None):
        self.kind, self.p, self.to, self.frm, self.raw, self.bound = kind, p, to, frm, raw, bound

    def __getitem__(self, k):
        return proj(self.p, k)


def parse_msg(v, facts):
    """Message value -> Msg (kind '?' if the variant is not known)"""
    if v.op == "adt" and v.args[0].endswith("::Message"):
        if v.args[1] == "BLE":
            return Msg("BLE", v.args[2][0][1], None, None, v)
        b = v.args[2][0][1]
    else:
        b = proj(v, "SequencePaxos.0")
    m = proj(b, "msg")
    if m.op == "adt":
        return Msg(m.args[1], m.args[2][0][1] if m.args[2] else UNIT, proj(b, "to"), proj(b, "from"), v)
    return Msg("?", m, proj(b, "to"), proj(b, "from"), v)


class SPCtx:
    """one entry point of Sequence Paxos under one rule set"""

    def __init__(self, P, sh, fn, kind, facts=(), prefix=()):
        self.P, self.sh, self.kind = P, sh, kind
        name = fn.label() + ("(%s)" % kind if kind else "")
        if RUNS is None:
            self.run = Run(P, fn, facts, name=name)
        else:
            rk = (id(P), name)
            if rk not in RUNS:
                RUNS[rk] = Run(P, fn, facts, name=name)
            self.run = RUNS[rk]
        self.name = name
        self.fn = fn
        self.prefix = prefix
        me = T("sym", "self")
        self.me0 = get(me, prefix)
        self.root = "self"
        self.inc = None
        self.frm = None
        if kind:
            m = self.run.args[1]
            self.inc = proj(proj(m, "msg"), kind + ".0")
            self.frm = proj(m, "from")
        s = sh
        r0, p0 = s.role(self.me0), s.phase(self.me0)
        self.leader0 = isv(r0, "Leader", ROLE)
        self.inv = Inv([
            ([self.leader0], eq(s.lead(self.me0, "n_leader"), s.c(self.me0, "promise"))),
            ([self.leader0], eq(proj(s.lead(self.me0, "n_leader"), "pid"), proj(self.me0, "pid"))),
            ([], le(s.c(self.me0, "decided_idx"), s.c(self.me0, "accepted_idx"))),
            ([], le(s.c(self.me0, "compacted_idx"), s.c(self.me0, "decided_idx"))),
        ])
        self.findings = {}
        self.count = {}
        self.W = Walker(self.run, sh, self.me0, prefix)

    # -- obligations ---------------------------------------------------------------------
    def ob(self, rule, holds, key, msg, e=None, facts=None, span=None, stack=()):
        """one proof obligation; a failed one is a finding"""
        a = self.count.setdefault(rule, [0, 0])
        a[0] += 1
        if holds:
            a[1] += 1
            return True
        k = (rule, key)
        if k not in self.findings:
            f = facts if facts is not None else (e.facts if e is not None else None)
            self.findings[k] = Finding(rule, "%s|%s|%s" % (rule, self.name, key), "%s: %s" % (self.name, msg),
                                       e.span if e is not None else span, e.stack if e is not None else stack, f)
        return False

    def fs(self, e):
        """facts at an event with the entry invariants; None = infeasible"""
        return self.inv.strengthen(e.facts)

    def final(self, st):
        return get(st.mem.get("self", T("sym", "self")), self.prefix)

    def assume(self, f, lit):
        f = f.add(lit)
        return self.inv.strengthen(f) if f is not None else None

    def sp(self, e):
        return get(e.env, self.prefix)

    # -- events ----------------------------------------------------------------------------
    def sent(self, e):
        """messages put into the outgoing buffer by this event"""
        if e.k not in ("push", "app") or e.d[0] != self.root or tuple(e.d[1]) != self.prefix + (self.sh.out,):
            return []
        if e.k == "push":
            return [parse_msg(e.d[2], e.facts)]
        out = []
        v = e.d[2]
        if v.op == "comp":
            for cl, x in v.args[1]:
                m = parse_msg(x, e.facts)
                m.bound = (v.args[0], cl)
                out.append(m)
        elif v.op == "arr":
            out = [parse_msg(x, e.facts) for x in v.args[0]]
        else:
            out.append(Msg("?", v, None, None, v))
        return out

    def patched(self, e):
        """in-place change of a message already in the outgoing buffer: (kind, field, value, index)"""
        if e.k not in ("w", "push", "app", "upd") or e.d[0] != self.root:
            return None
        p = tuple(e.d[1])
        b = self.prefix + (self.sh.out,)
        if p[:len(b)] != b or len(p) == len(b):
            return None
        if not isinstance(p[len(b)], tuple):
            return None
        rest = p[len(b) + 1:]
        kind, field = "?", None
        for k in rest:
            if "." in k and k.split(".")[0] in KINDS:
                kind = k.split(".")[0]
        if rest and "." not in rest[-1]:
            field = rest[-1]
        return kind, field, e.d[2], p[len(b)][1]

    def wrote(self, e):
        """path (relative to the SequencePaxos value) written by this event, or None"""
        if e.k not in ("w", "push", "app", "upd", "havoc") or e.d[0] != self.root:
            return None
        p = tuple(e.d[1])
        if p[:len(self.prefix)] != self.prefix:
            return None
        return p[len(self.prefix):]

    def cache_write(self, e):
        """(field, value) when the event writes a field of the state cache"""
        p = self.wrote(e)
        if p is None or len(p) < 3 or p[:2] != (self.sh.ist, self.sh.sc):
            return None
        return p[2], e.d[2], p[3:]

    def touches(self, p, *path):
        """does a write to p change (part of) path"""
        if p is None:
            return False
        n = min(len(p), len(path))
        return p[:n] == tuple(path)[:n]


def entries(P, sh):
    """[(fn, kind or None)] analysed at the Sequence Paxos level"""
    out = []
    for fn in sorted(callers_outside(P, "SequencePaxos"), key=lambda f: f.key):
        if fn.argc == 0 or fn.locals[1][0] != "ref":
            continue           # constructor
        msg_arg = fn.argc >= 2 and head(fn.locals[2]) == "PaxosMessage"
        if msg_arg:
            for k in P.adts[sh.MSG]["order"]:
                out.append((fn, k))
        else:
            out.append((fn, None))
    if not any(k for _, k in out):
        raise Anchor("no Sequence Paxos entry point takes a PaxosMessage")
    return out


def make(P, sh, fn, kind):
    facts = ()
    if kind:
        m = T("sym", fn.names.get(2, "arg1"))
        facts = (isv(proj(m, "msg"), kind, sh.MSG),)
    return SPCtx(P, sh, fn, kind, facts)


def result(X):
    return {"findings": [f.data() for f in X.findings.values()], "counts": X.count, "stats": X.run.stats()}


def sp_jobs(P, check, only=None):
    """one job per Sequence Paxos entry (and incoming message kind)"""
    sh = Shape(P)

    def mk(fn, kind):
        def go():
            X = make(P, sh, fn, kind)
            check(X)
            return result(X)
        return go
    return [(fn.label() + ("(%s)" % k if k else ""), mk(fn, k)) for fn, k in entries(P, sh) if only is None or only(fn, k)]


def storage_failed(f):
    """the path is one on which a storage call reported an error"""
    for l in f.lits:
        a, want = (l.args[0], "Ok") if l.op == "not" else (l, "Err")
        if a.op == "isv" and a.args[0].op in ("sset", "sget") and a.args[1] == want:
            return True
    return False


def peel(v, base):
    """pieces appended to base: [('1', value) | ('*', comp term)], or None"""
    out = []
    while v is not base:
        if v.op == "vpush":
            out.append(("1", v.args[1]))
            v = v.args[0]
        elif v.op == "vapp":
            out.append(("*", v.args[1]))
            v = v.args[0]
        else:
            return None
    return out[::-1]


# ---- sequences of entries -----------------------------------------------------------------------
def seq(v, f):
    """a vector as a list of pieces: ('1', element) | ('*', vector); vectors known to be empty are dropped"""
    if v.op == "arr":
        return [("1", x) for x in v.args[0]]
    if v.op == "vpush":
        return seq(v.args[0], f) + [("1", v.args[1])]
    if v.op == "vapp":
        return seq(v.args[0], f) + seq(v.args[1], f)
    if v.op == "vins" and is_c(v.args[1]) and v.args[1].args[0] == 0:
        return [("1", v.args[2])] + seq(v.args[0], f)
    if f is not None and f.same(vlen(v), c(0)):
        return []
    return [("*", v)]


def cat(*ps):
    out = []
    for p in ps:
        for k, v in p:
            if k == "*" and out and out[-1][0] == "*" and v.op == "slice" and out[-1][1].op == "slice" and v.args[0] is out[-1][1].args[0] and v.args[1] is out[-1][1].args[2]:
                w = out[-1][1]
                out[-1] = ("*", T("slice", w.args[0], w.args[1], v.args[2]))
            else:
                out.append((k, v))
    return [("*", v.args[0]) if k == "*" and v.op == "slice" and is_c(v.args[1]) and v.args[1].args[0] == 0 and v.args[2] is vlen(v.args[0]) else (k, v) for k, v in out]


def same_seq_(a, b, f):
    return len(a) == len(b) and all(x[0] == y[0] and (x[1] is y[1] or f.same(x[1], y[1])) for x, y in zip(a, b))


def show_seq(a):
    return " ++ ".join(("[%s]" if k == "1" else "%s") % show(v, 5) for k, v in a) or "[]"


def written(X, st, f):
    """entries appended to storage along a partition, in order; None if not known.  Adopting a synchronised log does not count."""
    out = []
    for e in st.events():
        if e.k == "st":
            ops = ops_of(e)
            if ops is None:
                return None
            for n, a in ops:
                if n == "append_entry":
                    out.append(("1", a[0]))
                elif n == "append_entries":
                    out += seq(a[0], f)
        elif e.k == "loop":
            lp = e.d[0]
            w = loop_written(lp, f)
            if w is None:
                return None
            out += w
    return out


def loop_written(lp, f):
    has = False
    for it in lp.iters:
        for x, _ in E.flatten_events(it.events):
            if x.k == "st" and any(n in ("append_entry", "append_entries") for n, _ in (ops_of(x) or (("append_entry", ()),))):
                has = True
    if not has:
        return []
    # one entry of a vector per iteration, for every element
    src, els = each_element(lp)
    if src is None:
        return None
    for it in lp.iters:
        got = []
        for x, ls in E.flatten_events(it.events):
            if x.k == "st":
                ops = ops_of(x)
                if ops is None or ls:
                    return None
                for n, a in ops:
                    if n == "append_entry":
                        got.append(a[0])
                    elif n == "append_entries":
                        if a[0].op != "arr":
                            return None
                        got += list(a[0].args[0])
        if len(got) != 1 or got[0] not in els:
            return None
    return seq(src, f)


def each_element(lp):
    """(vector, its generic elements) of a complete loop over a whole vector, else (None, ())"""
    if lp.it is None or lp.early or lp.it.op != "it":
        return None, ()
    if models.plain(lp.it) and lp.it.args[0].op != "comp":
        src = models.canon_src(lp.it)
        return src, (T("elem", src, lp.lid),)
    leaves, todo = [], [lp.it.args[0]]
    while todo:
        v = todo.pop()
        if v.op == "vapp":
            todo += [v.args[1], v.args[0]]
        elif v.op == "comp" and len(v.args[1]) == 1 and not next(iter(v.args[1]))[0]:
            b = v.args[0]
            leaves.append(subst(next(iter(v.args[1]))[1], {T("belem", b): T("elem", b, lp.lid), T("bpos", b): T("pos", b, lp.lid)}))
        elif models.plain(models.mk_it(v, "val")):
            leaves.append(T("elem", v, lp.lid))
        else:
            return None, ()
    return lp.it.args[0], tuple(leaves)


# ---- fan-out: one message per follower / peer ---------------------------------------------------
class Fan:
    """a loop (or extend) that may put messages into the outgoing buffer"""

    def __init__(self, src, el, pos, f0, alts, early, e):
        self.src, self.el, self.pos, self.f0, self.alts, self.early, self.e = src, el, pos, f0, alts, early, e


class Alt:
    def __init__(self, lits, f, msgs, patches, events):
        self.lits, self.f, self.msgs, self.patches, self.events = lits, f, msgs, patches, events


def fans(X, st):
    """[Fan] of a partition, in order"""
    out = []
    for e in st.events():
        if e.k == "loop":
            lp = e.d[0]
            src = models.canon_src(lp.it) if lp.it is not None else None
            alts = []
            for it in lp.iters:
                ms, pt, evs = [], [], []
                for x in it.events:
                    if x.k == "loop":
                        q = nested_append(X, x.d[0])
                        if q is not None:
                            if pt and isinstance(pt[-1][1], Appended) and pt[-1][0][:2] == q[:2] and pt[-1][0][3] is q[3]:
                                q = q[:2] + (vapp(pt.pop()[0][2], q[2]), q[3])
                            pt.append((q, Appended(x)))
                            continue
                    for y, ls in E.flatten_events([x]):
                        for m in X.sent(y):
                            if ls:
                                m.bound = ("nested",)
                            ms.append((m, y))
                        p = X.patched(y)
                        if p is not None:
                            pt.append((p, y))
                        evs.append(y)
                lits = [l for l in it.delta if not loop_noise(l)]
                alts.append(Alt(lits, it.facts, ms, pt, evs))
            if src is not None and src.op == "range":
                src, alts = by_index(X, src, lp, alts)
            f0 = lp.bfacts
            fan = Fan(src, T("elem", src, lp.lid) if src is not None else None, T("pos", src, lp.lid) if src is not None else None, f0, alts, lp.early, e)
            fan.lp = lp
            out.append(fan)
        elif e.k == "app" and e.d[0] == X.root and tuple(e.d[1]) == X.prefix + (X.sh.out,) and e.d[2].op == "comp":
            src = e.d[2].args[0]
            alts = []
            for cl, x in e.d[2].args[1]:
                m = parse_msg(x, e.facts)
                f = e.facts
                for l in cl:
                    f = f.add(l) if f is not None else None
                if f is not None:
                    alts.append(Alt(list(cl), f, [(m, e)], [], [e]))
            fan = Fan(src, T("belem", src), T("bpos", src), e.facts, alts, [], e)
            fan.lp = None
            out.append(fan)
    return out


class Appended:
    """a nested loop that appends a whole vector to a place, seen as one event"""

    def __init__(self, e):
        self.k, self.e, self.facts, self.span, self.stack = "app", e, e.facts, e.span, e.stack


def nested_append(X, lp):
    """(kind, field, vector, index) of an inner loop that pushes every element of a vector to a field of a queued message"""
    src, els = each_element(lp)
    if src is None:
        return None
    out = None
    for it in lp.iters:
        got = [(X.patched(x), x) for x, _ in E.flatten_events(it.events) if X.patched(x) is not None or X.sent(x)]
        if len(got) != 1 or got[0][0] is None or got[0][1].k != "push" or got[0][0][2] not in els:
            return None
        k, fld, _, ix = got[0][0]
        if out is not None and out != (k, fld, src, ix):
            return None
        out = (k, fld, src, ix)
    return out


def by_index(X, src, lp, alts):
    """a loop over 0..v.len() that reads v[i], for a filtered vector v, as a loop over what v was filtered from"""
    i = T("elem", src, lp.lid)
    vs = set()
    for a in alts:
        for m, x in a.msgs:
            vs |= {t for t in subterms(m.raw) if t.op == "at" and t.args[0].op == "comp" and t.args[1] is i}
    if len(vs) != 1:
        return src, alts
    t, = vs
    base, cls = t.args[0].args
    if len(cls) != 1 or vlen(t.args[0]) is not src.args[1] or src.args[0] is not c(0):
        return src, alts
    (cl, v), = cls
    bound = {T("belem", base): T("elem", base, lp.lid), T("bpos", base): T("pos", base, lp.lid)}
    sub_ = {t: subst(v, bound)}
    cl = [subst(l, bound) for l in cl]
    out = []
    for a in alts:
        f = lp.bfacts
        lits = list(cl) + [subst(l, sub_) for l in a.lits if not (l.op == "lt" and l.args[0] is i)]
        for l in lits:
            f = f.add(l) if f is not None else None
        lits = [l for l in lits if not loop_noise(l)]
        if f is None or any(contains(l, i) for l in lits):
            return src, alts
        ms = []
        for m, x in a.msgs:
            n = parse_msg(subst(m.raw, sub_), f)
            n.bound = m.bound
            ms.append((n, x))
        ps = [(tuple(subst(y, sub_) if isinstance(y, Term) else y for y in q), x) for q, x in a.patches]
        if any(isinstance(y, Term) and contains(y, i) for q, _ in ps for y in q):
            return src, alts
        out.append(Alt(lits, f, ms, ps, a.events))
    return base, out


def loop_noise(l):
    """literals that say nothing about which elements are visited: loop control, index bounds"""
    a = l.args[0] if l.op == "not" else l
    if a.op == "done":
        return True
    if l.op != "lt":
        return False
    b = l.args[1]
    return b.op == "len" or [(t.op, k) for t, k in lin_of(b)[1]] == [("len", 1)]


def member(X, fan, me, f):
    """server id a fan-out step is about, and its entry in the table of promises"""
    if fan.src is None:
        return None
    tab = X.sh.lead(me, "promises_meta")
    if fan.src is tab or f.same(fan.src, tab):
        return add(fan.pos, c(1)), fan.el
    peers = proj(me, "peers")
    if fan.src is peers or f.same(fan.src, peers):
        return fan.el, T("at", tab, sub(fan.el, c(1)))
    return None


def covered(X, fan, want, acting):
    """every element satisfying the literals `want` is handled by one of the alternatives `acting`"""
    f = fan.f0
    for l in want:
        f = f.add(l) if f is not None else None
    if f is None:
        return True
    if exhaustive(f, [a.lits for a in acting]):
        return True
    lp = fan.lp
    if lp is None or lp.it is None or fan.src is None or fan.src.op == "range":
        return False
    # the elements the source leaves out do not qualify
    it = lp.it
    while it.op in ("map", "cloned", "inspect", "enumerate", "zipn", "filter", "filter_map"):
        it = it.args[0]
    if it.op != "it":
        return False
    v = it.args[0]
    while v.op == "comp" and total_comp(v):
        v = v.args[0]
    if v.op == "comp":
        base, cls = v.args
        if base is not fan.src:
            return False
        m = {T("belem", base): fan.el, T("bpos", base): fan.pos}
        if not exhaustive(f, [[subst(l, m) for l in cl if not loop_noise(l)] for cl, _ in cls]):
            return False
    elif v is not fan.src:
        return False

    def never(g):
        g = X.inv.strengthen(g)
        for l in want:
            g = g.add(l) if g is not None else None
        return g is None or X.inv.strengthen(g) is None
    # neither do those a filter skips, nor those for which an iteration does nothing
    return all(never(g) for g in lp.skips) and all(never(a.f) for a in fan.alts if a not in acting)


class Cast:
    """where and how messages of one kind leave a partition"""

    def __init__(self, X, st, want_msg, want_patch=None):
        self.X = X
        self.direct, self.steps = [], []        # [(Msg, event)], [(Fan, acting alternatives)]
        fs = fans(X, st)
        inside = set()
        for fan in fs:
            acting = []
            for a in fan.alts:
                a.hit = [("m", m, x) for m, x in a.msgs if want_msg(m)] + [("p", p, x) for p, x in a.patches if want_patch is not None and want_patch(p)]
                if a.hit:
                    acting.append(a)
            inside.add(id(fan.e))
            if acting:
                self.steps.append((fan, acting))
        for e in st.events():
            if id(e) in inside:
                continue
            for m in X.sent(e):
                if want_msg(m):
                    self.direct.append(("m", m, e))
            p = X.patched(e)
            if p is not None and want_patch is not None and want_patch(p):
                self.direct.append(("p", p, e))

    def none(self):
        return not self.direct and not self.steps

    def problem(self, to_whom, content, me=None):
        """None when there is exactly one fan-out that hits every wanted member exactly once with the right content.
        to_whom(pid, entry, me, f) -> literals selecting the members; content(hit, f, pid, entry) -> bool"""
        X = self.X
        if self.direct:
            return "a message is sent outside the loop over the servers"
        if len(self.steps) != 1:
            return "%d loops send it" % len(self.steps)
        fan, acting = self.steps[0]
        if fan.early:
            return "the loop over the servers may stop early"
        f0 = X.inv.strengthen(fan.f0)
        if f0 is None:
            return None
        fan.f0 = f0
        me = me if me is not None else X.sp(fan.e)
        mb = member(X, fan, me, f0)
        if mb is None:
            return "it is not a loop over the servers (%s)" % (show(fan.src, 5) if fan.src is not None else "?")
        pid, entry = mb
        want = to_whom(pid, entry, me, f0)
        for a in acting:
            f = X.inv.strengthen(a.f)
            if f is None:
                continue
            if len(a.hit) != 1:
                return "a server gets %d of them" % len(a.hit)
            k, m, x = a.hit[0]
            if k == "m":
                if m.bound:
                    return "it is sent in a nested loop"
                if not f.same(m.to, pid):
                    return "it is addressed to %s instead of the server the step is about" % show(m.to, 5)
            for w in want:
                if f.decide(w) is not True:
                    return "it is sent to a server that need not satisfy %s" % show(w, 6)
            if not content(a.hit[0], f, pid, entry):
                return "its content is not the expected one"
        if not covered(X, fan, want, acting):
            return "some of the servers it is meant for are left out"
        return None


def promised_followers(X):
    PS = X.sh.adt("PromiseState")

    def go(pid, entry, me, f):
        return [isv(entry, "Promised", PS), lnot(eq(pid, proj(me, "pid")))]
    return go


# ---- quorum facts -----------------------------------------------------------------------------
def cnt_terms(f):
    out = set()
    for l in f.lits:
        for t in subterms(l):
            if t.op == "cnt":
                out.add(t)
    return out


def quorum_size(sh, me, f, which):
    """[(variant fact, size term)] of the configured quorum that the facts leave possible"""
    q = sh.lead(me, "quorum")
    Q = sh.adt("Quorum")
    out = []
    for v in sh.P.adts[Q]["order"]:
        d = f.decide(isv(q, v, Q))
        if d is False:
            continue
        if v == "Majority":
            out.append(proj(q, "Majority.0"))
        else:
            out.append(proj(proj(q, v + ".0"), which + "_quorum_size"))
    return out


def has_quorum(sh, me, f, which, src, pred):
    """facts |- (configured quorum size) <= #{x in src | clauses implying pred(x)}"""
    sizes = quorum_size(sh, me, f, which)
    ts = [t for t in cnt_terms(f) if t.args[0] is src or f.same(t.args[0], src)]
    for q in sizes:
        hit = False
        for t in ts:
            if f.decide(le(q, t)) is not True:
                continue
            good = True
            for cl in t.args[1]:
                g = f
                for l in cl:
                    g = g.add(l) if g is not None else None
                if g is not None and not pred(g, T("belem", t.args[0]), T("bpos", t.args[0])):
                    good = False
                    break
            if good:
                hit = True
                break
        if not hit:
            return False
    return bool(sizes)


def promise_max(sh, f, me, t):
    """t is the maximum of the decided indexes in the table of promises"""
    if t.op != "vmax" or t.args[0].op != "comp":
        return False
    src, cls = t.args[0].args
    tab = sh.lead(me, "promises_meta")
    if not (src is tab or f.same(src, tab)):
        return False
    b = T("belem", src)
    PS = sh.adt("PromiseState")
    for cl, x in cls:
        if x is not proj(proj(b, "Promised.0"), "decided_idx"):
            return False
        if cl != frozenset([isv(b, "Promised", PS)]):
            return False
    return True


def promise_max_terms(sh, f, me):
    out = set()
    for l in f.lits:
        for t in subterms(l):
            if t.op == "vmax" and promise_max(sh, f, me, t):
                out.add(t)
    return out


# ---- contexts without a SequencePaxos receiver ---------------------------------------------------
class Plain:
    def __init__(self, name):
        self.name = name
        self.findings, self.count, self.stats = {}, {}, []

    def ob(self, rule, holds, key, msg, e=None, facts=None, span=None, stack=()):
        return SPCtx.ob(self, rule, holds, key, msg, e, facts, span, stack)

    def result(self):
        s = None
        if self.stats:
            s = dict(self.stats[0])
            s["entry"] = self.name
            for o in self.stats[1:]:
                for k in o:
                    if k != "entry":
                        s[k] += o[k]
        return {"findings": [f.data() for f in self.findings.values()], "counts": self.count, "stats": s}


def method(P, adt, name):
    fn = P.method(adt, name)
    if fn is None:
        c2 = [f for f in P.by_name.get(name, []) if f.self_ty is not None and f.self_ty[0] == "adt" and f.self_ty[1].endswith("::" + adt)]
        fn = c2[0] if c2 else None
    if fn is None:
        raise Anchor("%s::%s not found" % (adt, name))
    return fn
