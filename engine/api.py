"""What the rules see: entry points, partitions (paths), field access by role, the durable-state tracker, findings."""
import sys, os, time, glob, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import mir, exec as E
from terms import *

OPTION, RESULT = "core::option::Option", "core::result::Result"


class Anchor(Exception):
    """a construct the rules are anchored to is missing"""


class Finding:
    def __init__(self, rule, key, msg, span=None, stack=(), facts=None):
        self.rule, self.key, self.msg, self.span = rule, key, msg, span
        self.stack = tuple(stack)
        self.facts = sorted(show(l, 6) for l in facts.lits)[:60] if facts is not None else []

    def data(self):
        return {"rule": self.rule, "key": self.key, "message": self.msg, "site": self.span,
                "path": ["%s @ %s" % s for s in self.stack], "facts": self.facts}


def load(config):
    import extract
    d = extract.extract([config])[config]
    b = os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_%s.json" % config)
    return mir.Program(sorted(glob.glob(d + "/*.json")), json.load(open(b)) if os.path.exists(b) else None)


# ---- program-level lookups -------------------------------------------------------------
def head(t):
    return mir.ty_head(t).split("::")[-1]


class Shape:
    """paths of the interesting places inside the protocol structs; places are found through types, leaves by name"""

    def __init__(self, P):
        self.P = P
        self.SP = self.adt("SequencePaxos")
        self.OP = self.adt("OmniPaxos")
        self.BLE = self.adt("BallotLeaderElection")
        self.IS = self.adt("InternalStorage")
        self.SC = self.adt("StateCache")
        self.LS = self.adt("LeaderState")
        self.MSG = self.adt("PaxosMsg")
        self.seq = self.field(self.OP, "SequencePaxos")
        self.ble = self.field(self.OP, "BallotLeaderElection")
        self.ist = self.field(self.SP, "InternalStorage")
        self.ls = self.field(self.SP, "LeaderState")
        self.sc = self.field(self.IS, "StateCache")
        self.out = None
        self.state = None
        for n, t, _ in self.fields(self.SP):
            if head(t) == "Vec" and t[2] and head(t[2][0]) == "Message":
                self.out = n
            if t[0] == "tuple" and [head(x) for x in t[1]] == ["Role", "Phase"]:
                self.state = n
        if self.out is None or self.state is None:
            raise Anchor("SequencePaxos has no outgoing message buffer / (Role, Phase) state")
        self.cache = {}
        for n, t, _ in self.fields(self.SC):
            self.cache[n] = (self.ist, self.sc, n)
        for n in ("promise", "accepted_round", "decided_idx", "accepted_idx", "compacted_idx", "stopsign", "batched_entries", "batch_size"):
            if n not in self.cache:
                raise Anchor("StateCache has no field " + n)

    def adt(self, name):
        c = [p for p in self.P.adts if p.split("::")[-1] == name and p.startswith("omnipaxos")]
        if len(c) != 1:
            raise Anchor("type %s not found (or not unique)" % name)
        return c[0]

    def fields(self, path):
        a = self.P.adts[path]
        return a["vars"][a["order"][0]][1]

    def field(self, path, tyname):
        for n, t, _ in self.fields(path):
            if head(t) == tyname:
                return n
        raise Anchor("%s has no field of type %s" % (path, tyname))

    # value access; me is the SequencePaxos value
    def c(self, me, name):
        return get(me, self.cache[name])

    def lead(self, me, name):
        return get(me, (self.ls, name))

    def role(self, me):
        return get(me, (self.state, "0"))

    def phase(self, me):
        return get(me, (self.state, "1"))


def get(v, path):
    for k in path:
        v = proj(v, k)
    return v


ROLE, PHASE = "omnipaxos::sequence_paxos::Role", "omnipaxos::sequence_paxos::Phase"


def callers_outside(P, adt_last, crate="omnipaxos"):
    """methods of an ADT called from code that is not itself a method of that ADT (its interface), with callers"""
    own = {}
    for fn in P.fns.values():
        if fn.self_ty is not None and fn.self_ty[0] == "adt" and fn.self_ty[1].split("::")[-1] == adt_last and fn.kind != "Closure" and fn.crate in P.local_crates and not fn.implof:
            own[fn.key] = fn
    out = {}

    def belongs(fn):
        f = fn
        while f is not None:
            if f.key in own:
                return True
            f = P.fns.get(f.parent) if f.kind.startswith("Closure") else None
        return False
    for fn in P.fns.values():
        if fn.crate not in P.local_crates or belongs(fn):
            continue
        for k in called(fn):
            if k in own:
                out.setdefault(k, set()).add(fn.key)
    return {own[k]: v for k, v in out.items()}


def called(fn):
    for ss, t in fn.blocks:
        for s in ss:
            if s[0] == "=":
                for o in operands(s[2]):
                    if o[0] == "k" and "fn" in o[2]:
                        yield o[2]["fn"].get("r", o[2]["fn"]["d"])
        if t[0] == "call":
            for o in [t[1]] + list(t[2]):
                if o[0] == "k" and "fn" in o[2]:
                    yield o[2]["fn"].get("r", o[2]["fn"]["d"])


def operands(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "agg":
        return rv[2]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    return []


# ---- running an entry ---------------------------------------------------------------------
class Run:
    """all partitions of one entry point"""

    def __init__(self, P, fn, facts=(), cut=None, budget=6_000_000, args=None, name=None, tsub=None):
        self.P, self.fn = P, fn
        self.name = name or fn.label()
        self.ex = E.Exec(P, cut, budget)
        st = E.State()
        self.args = []
        for i in range(fn.argc):
            ty = fn.locals[i + 1]
            n = fn.names.get(i + 1, "arg%d" % i)
            if args and n in args:
                a = args[n]
            else:
                a = T("ref", n, ()) if ty[0] == "ref" else T("sym", n)
                if ty[0] == "ref":
                    st.mem[n] = T("sym", n)
            self.args.append(a)
        for l in facts:
            f = st.facts.add(l)
            if f is not None:
                st.facts = f
        t = time.time()
        self.outs = self.ex.exec_fn(st, fn, tsub or {}, list(self.args), ((fn.label(), fn.span),), 0)
        self.time = time.time() - t

    def stats(self):
        return {"entry": self.name, "partitions": len(self.outs), "steps": self.ex.steps, "calls": self.ex.calls_seen,
                "loops": self.ex.loops_seen, "functions": len(self.ex.fns_seen), "aborting_paths": len(self.ex.panics),
                "seconds": round(self.time, 2)}


def ok_of(r):
    return isv(r, "Ok", RESULT)


def err_of(r):
    return isv(r, "Err", RESULT)


def is_some(x):
    return isv(x, "Some", OPTION)


def is_none(x):
    return isv(x, "None", OPTION)


# ---- durable state -----------------------------------------------------------------------------
OPS = {"SetPromise": "set_promise", "SetDecidedIndex": "set_decided_idx", "SetAcceptedRound": "set_accepted_round",
       "SetCompactedIdx": "set_compacted_idx", "Trim": "trim", "SetStopsign": "set_stopsign", "SetSnapshot": "set_snapshot",
       "AppendEntry": "append_entry", "AppendEntries": "append_entries", "AppendOnPrefix": "append_on_prefix"}
SETS = {"set_promise": "promise", "set_decided_idx": "decided_idx", "set_accepted_round": "accepted_round",
        "set_compacted_idx": "compacted_idx", "set_stopsign": "stopsign", "set_snapshot": "snapshot"}
FIELDS = ("promise", "accepted_round", "decided_idx", "compacted_idx", "stopsign")


def ops_of(e):
    """the elementary storage operations of a storage-write event: [(name, args)], None if the list is not known"""
    name, vals, res = e.d
    if name != "write_atomically":
        return [(name, vals)]
    v = vals[0]
    if v.op != "arr":
        return None
    out = []
    for o in v.args[0]:
        if o.op != "adt" or o.args[1] not in OPS:
            return None
        out.append((OPS[o.args[1]], tuple(x for _, x in o.args[2])))
    return out


def ind(ss, facts):
    """1 if a stop-sign value is present else 0"""
    if ss.op == "adt":
        return c(1 if ss.args[1] == "Some" else 0)
    d = facts.decide(is_some(ss))
    if d is True:
        return c(1)
    if d is False:
        return c(0)
    return T("ind", ss)


class Dur:
    """value numbers of what storage holds, along a partition"""
    __slots__ = ("v", "log", "res", "snap")

    def __init__(self, v, log, res=()):
        self.v, self.log, self.res = v, log, res

    @staticmethod
    def initial(sh, me):
        v = {f: sh.c(me, f) for f in FIELDS}
        v["snapshot"] = T("stored", "snapshot")
        return Dur(v, sub(sh.c(me, "accepted_idx"), T("ind", v["stopsign"])))

    def acc(self, facts):
        """stored log length incl. compacted prefix and stop-sign"""
        r = add(self.log, ind(self.v["stopsign"], facts))
        m = {}
        for t in subterms(r):
            if t.op == "ind":
                i = ind(t.args[0], facts)
                if i is not t:
                    m[t] = i
        return subst(r, m) if m else r

    def apply(self, e):
        if e.k == "havoc" or (e.k == "call"):
            return self
        if e.k != "st":
            return self
        v, log = dict(self.v), self.log
        ops = ops_of(e)
        if ops is None:
            u = e.d[2]
            v = {k: T("unk", k, u) for k in v}
            log = T("unk", "log", u)
        else:
            for name, a in ops:
                if name in SETS:
                    v[SETS[name]] = a[0]
                elif name == "append_entry":
                    log = add(log, c(1))
                elif name == "append_entries":
                    log = add(log, vlen(a[0]))
                elif name == "append_on_prefix":
                    log = add(a[0], vlen(a[1]))
        return Dur(v, log, self.res + (e.d[2],))


class Inv:
    """facts about the state at entry that every operation preserves: guard literals -> conclusion"""

    def __init__(self, rules):
        self.rules = rules
        self.memo = {}

    def strengthen(self, facts):
        r = self.memo.get(id(facts))
        if r is not None:
            return r[1]
        f = facts
        for _ in range(2):
            for guards, concl in self.rules:
                if f is not None and all(f.decide(g) is True for g in guards):
                    f = f.add(concl)
            if f is None:
                break
        self.memo[id(facts)] = (facts, f)
        return f


def in_sync(sh, D, me, facts, f):
    if f == "accepted_idx":
        a, b = norm_ind(sh.c(me, f), facts), D.acc(facts)
        return facts.same(a, b)
    return same_opt(facts, sh.c(me, f), D.v[f]) if f == "stopsign" else facts.same(sh.c(me, f), D.v[f])


def same_opt(f, a, b):
    """equal as optional values"""
    if a is b or f.same(a, b):
        return True
    if f.decide(is_none(a)) is True:
        return f.decide(is_none(b)) is True
    if f.decide(is_some(a)) is True and f.decide(is_some(b)) is True:
        return f.same(proj(a, "Some.0"), proj(b, "Some.0"))
    return False


def norm_ind(t, facts):
    m = {}
    for x in subterms(t):
        if x.op == "ind":
            i = ind(x.args[0], facts)
            if i is not x:
                m[x] = i
    return subst(t, m) if m else t


class Walker:
    """visits every event of every partition once, with the durable state at that point"""

    def __init__(self, run, sh, me0, prefix=()):
        self.run, self.sh, self.me0, self.prefix = run, sh, me0, prefix
        self.memo = {}
        self.loopmemo = {}
        self.keep = []
        self.visited = 0

    def sp(self, env):
        return get(env, self.prefix) if env is not None else None

    def walk(self, on_event, on_exit=None, on_iter=None):
        self.on_event, self.on_iter = on_event, on_iter
        D0 = Dur.initial(self.sh, self.me0)
        for st, ret in self.run.outs:
            cells, cl = [], st.ev
            while cl is not None and id(cl) not in self.memo:
                cells.append(cl)
                cl = cl[0]
            D = self.memo[id(cl)] if cl is not None else D0
            for cell in reversed(cells):
                e = cell[1]
                if e.k == "loop":
                    D = self.loop(e, D)
                else:
                    self.visited += 1
                    on_event(e, D, ())
                    D = D.apply(e)
                self.memo[id(cell)] = D
            if on_exit is not None:
                on_exit(st, ret, D)

    def loop(self, e, D, outer=()):
        lp = e.d[0]
        sh = self.sh
        pre = self.sp(e.env)
        sync = ()
        if pre is not None:
            sync = tuple(f for f in FIELDS + ("accepted_idx",) if in_sync(sh, D, pre, e.facts if not outer else e.facts, f))
        key = (lp.lid, id(lp), sync)
        r = self.loopmemo.get(key)
        if r is None:
            base = self.sp(lp.base)
            if base is not None:
                v = {f: (sh.c(base, f) if f in sync else T("unk", f, c(lp.lid))) for f in FIELDS}
                v["snapshot"] = D.v["snapshot"]
                log = sub(sh.c(base, "accepted_idx"), T("ind", v["stopsign"])) if "accepted_idx" in sync else T("unk", "log", c(lp.lid))
                D2 = Dur(v, log, ())
            else:
                D2 = D
            touched, dl = set(), []
            for it in lp.iters:
                d = D2
                for x in it.events:
                    if x.k == "loop":
                        d = self.loop(x, d, outer + ((lp, it),))
                    else:
                        self.visited += 1
                        self.on_event(x, d, outer + ((lp, it),))
                        d = d.apply(x)
                for f in d.v:
                    if d.v[f] is not D2.v[f]:
                        touched.add(f)
                dl.append(sub(d.log, D2.log))
                if self.on_iter is not None:
                    self.on_iter(lp, it, d)
            r = self.loopmemo[key] = (touched, dl)
        touched, dl = r
        if not touched and all(x is c(0) for x in dl):
            return D
        import models
        v = dict(D.v)
        for f in touched:
            v[f] = T("unk", f, c(lp.lid))
        log = D.log
        if any(x is not c(0) for x in dl):
            k = {x for x in dl}
            if len(k) == 1 and is_c(dl[0]) and lp.it is not None and not lp.early:
                log = add(log, mul(vlen(models.canon_src(lp.it)), dl[0].args[0]))
            else:
                log = T("unk", "log", c(lp.lid))
        return Dur(v, log, D.res)


def mul(t, k):
    kk, d = lin_of(t)
    return mk_lin(kk * k, {x: n * k for x, n in d})
