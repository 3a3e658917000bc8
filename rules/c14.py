"""C14 memory storage honours the storage contract"""
from sp import *
import be
from eff import *

CONFIGS = ["main"]
FLOORS = {"own-getter": 6, "others-unchanged": 40, "initial": 7, "append": 2, "prefix": 1, "trim": 1, "range": 1, "suffix": 1, "length": 1}
ASSUMES = ["positions passed to the log operations are not below the trimmed prefix (the caller's side: C15, C09)"]
OPTIONAL = ("promise", "accepted_round")          # getter returns Option, setter takes the bare value
GET = {"promise": "get_promise", "accepted_round": "get_accepted_round", "decided_idx": "get_decided_idx", "compacted_idx": "get_compacted_idx",
       "stopsign": "get_stopsign", "snapshot": "get_snapshot"}
SELF = T("sym", "self")


def jobs(progs):
    P = progs["main"]
    db = persistent(P)
    out = []
    for name, ms in sorted(be.backends(P).items()):
        if name not in db:
            out.append((name, mk(P, name, ms)))
    return out


def opt(v):
    return adt(OPTION, "Some", [("0", v)])


def okv(v):
    return adt(RESULT, "Ok", [("0", v)])


def payload(ret):
    return ret.args[2][0][1] if ret.op == "adt" and ret.args[1] == "Ok" else proj(ret, "Ok.0")


def mk(P, name, ms):
    def go():
        X = Plain(name)

        def run(m, args):
            if m not in ms:
                raise Anchor("%s does not implement %s" % (name, m))
            s = Seq(P, [(ms[m], args)])
            X.stats.append(s.stats("%s::%s" % (name, m)))
            return s
        F, TO, I, A0, ES = (T("sym", n) for n in ("from", "to", "idx", "entry", "entries"))
        getters = {}
        for it, g in GET.items():
            getters[g] = run(g, [])
        getters["get_log_len"] = run("get_log_len", [])
        ge = run("get_entries", [F, TO])
        gs = run("get_suffix", [F])
        sp_ = ms["get_entries"].span
        # the view of the log: what the complete range read returns determines the sequence and its logical start
        views = set()
        for st, ret in ge.outs:
            v = payload(ret)
            if v.op == "slice":
                b = sub(F, v.args[1])
                views.add((v.args[0], b))
        X.ob("range", len(views) == 1, "view", "range reads are not a slice of one stored sequence from one logical start", None, None, sp_)
        if len(views) != 1:
            return X.result()
        L, B = views.pop()

        def at(f, *lits):
            for l in lits:
                f = f.add(l) if f is not None else None
            return f
        for st, ret in ge.outs:
            f = at(st.facts, le(B, F), le(F, TO), le(sub(TO, B), vlen(L)))
            if f is None:
                continue
            want = T("slice", L, sub(F, B), sub(TO, B))
            X.ob("range", same_seq(f, payload(ret), want), "entries", "a range read does not return exactly the stored entries of the range", None, f, sp_)
        for st, ret in gs.outs:
            f = at(st.facts, le(B, F), le(sub(F, B), vlen(L)))
            if f is None:
                continue
            want = T("slice", L, sub(F, B), vlen(L))
            X.ob("suffix", same_seq(f, payload(ret), want), "entries", "a suffix read does not return exactly the stored entries from the given index", None, f, ms["get_suffix"].span)
        for st, ret in getters["get_log_len"].outs:
            X.ob("length", st.facts.same(payload(ret), vlen(L)), "len", "the reported log length is not the number of stored entries", None, st.facts, ms["get_log_len"].span)

        def observe(g, me, f):
            """values a getter can return in state me, under f"""
            out = []
            for st, ret in getters[g].outs:
                h = f
                m = {SELF: me}
                for l in st.facts.lits:
                    h = h.add(subst(l, m)) if h is not None else None
                if h is not None:
                    out.append((h, subst(payload(ret), m)))
            return out

        def unchanged(me, f, names, what, span, log=True):
            for g in names:
                for h, v in observe(g, me, f):
                    ok = False
                    for h0, v0 in observe(g, SELF, h):
                        ok = v is v0 or h0.same(v, v0)
                        if not ok:
                            break
                    X.ob("others-unchanged", ok, "%s/%s" % (what, g), "%s changes what %s returns" % (what, g), None, h, span)
            if log:
                l2, b2 = subst(L, {SELF: me}), subst(B, {SELF: me})
                X.ob("others-unchanged", same_seq(f, l2, L) and f.same(b2, B), "%s/log" % what, "%s changes the stored log or its position" % what, None, f, span)
        items = set(GET.values())
        for it, g in GET.items():
            m = "set_" + it
            v = T("sym", "v_" + it)
            s = run(m, [v])
            sp1 = ms[m].span
            X.ob("own-getter", bool(s.outs), m + "/ok", "%s never succeeds" % m, None, None, sp1)
            for st, ret in s.outs:
                me = st.mem["self"]
                want = opt(v) if it in OPTIONAL else v
                for h, x in observe(g, me, st.facts):
                    X.ob("own-getter", x is want or h.same(x, want), m, "the value given to %s is not what %s returns" % (m, g), None, h, sp1)
                unchanged(me, st.facts, sorted(items - {g}), m, sp1)
        for m, args, tail in (("append_entry", [A0], [("e", A0)]), ("append_entries", [ES], None)):
            for st, ret in run(m, args).outs:
                me, f = st.mem["self"], st.facts
                want = vpush(L, A0) if tail else vapp(L, ES)
                X.ob("append", same_seq(f, subst(L, {SELF: me}), want) and f.same(subst(B, {SELF: me}), B), m, "%s does not put exactly the given entries after the stored ones" % m, None, f, ms[m].span)
                unchanged(me, f, sorted(items), m, ms[m].span, log=False)
        for st, ret in run("append_on_prefix", [I, ES]).outs:
            me = st.mem["self"]
            f = at(st.facts, le(B, I), le(sub(I, B), vlen(L)))
            if f is None:
                continue
            want = vapp(T("slice", L, c(0), sub(I, B)), ES)
            X.ob("prefix", same_seq(f, subst(L, {SELF: me}), want) and f.same(subst(B, {SELF: me}), B), "prefix", "append_on_prefix does not keep exactly the prefix below the index followed by the entries", None, f, ms["append_on_prefix"].span)
            unchanged(me, f, sorted(items), "append_on_prefix", ms["append_on_prefix"].span, log=False)
        for st, ret in run("trim", [I]).outs:
            me = st.mem["self"]
            f0 = at(st.facts, le(B, I))
            if f0 is None:
                continue
            f = at(f0, le(sub(I, B), vlen(L)))
            if f is not None:
                X.ob("trim", same_seq(f, subst(L, {SELF: me}), T("slice", L, sub(I, B), vlen(L))), "kept", "trim does not keep exactly the entries from the index on", None, f, ms["trim"].span)
            f = at(f0, lt(vlen(L), sub(I, B)))
            if f is not None:
                X.ob("trim", same_seq(f, subst(L, {SELF: me}), T("arr", ())), "all", "trim beyond the log does not empty it", None, f, ms["trim"].span)
            X.ob("trim", f0.same(subst(B, {SELF: me}), I), "base", "after trim the log does not start at the trimmed index", None, f0, ms["trim"].span)
            unchanged(me, f0, sorted(items), "trim", ms["trim"].span, log=False)
        # fresh storage
        ctor = [fn for fn in P.fns.values() if fn.name == "default" and fn.self_ty is not None and fn.self_ty[0] == "adt" and fn.self_ty[1] == ms["trim"].self_ty[1] and fn.kind != "Closure"]
        if not ctor:
            raise Anchor("%s has no default constructor" % name)
        for st, ret in Run(P, ctor[0]).outs:
            for it, g in GET.items():
                for h, x in observe(g, ret, st.facts):
                    if it in ("decided_idx", "compacted_idx"):
                        ok = h.same(x, c(0))
                    else:
                        ok = h.decide(is_none(x)) is True
                    X.ob("initial", ok, g, "a fresh storage does not report the initial value for %s" % g, None, h, ctor[0].span)
            m = {SELF: ret}
            X.ob("initial", st.facts.same(vlen(subst(L, m)), c(0)) and st.facts.same(subst(B, m), c(0)), "log", "a fresh storage does not start with an empty log at index 0", None, st.facts, ctor[0].span)
        return X.result()
    return go
