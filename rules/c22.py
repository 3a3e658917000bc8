"""C22 invalid configurations are always rejected"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"accepts-only-valid": 4, "rejects-only-invalid": 8, "nothing-changed": 2, "no-overflow": 1, "reconfigure": 2}
TECHNIQUE = "path-condition analysis over MIR: every path that accepts entails each validity condition, every path that rejects contradicts one, rejecting paths have no effects"


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    out = []
    for adt_, name in (("ClusterConfig", "validate"), ("ServerConfig", "validate"), ("OmniPaxosConfig", "validate"), ("OmniPaxosConfig", "build"), ("ClusterConfig", "build_for_server")):
        fn = method(P, adt_, name)
        out.append((fn.label(), (lambda fn, a: lambda: validates(P, sh, fn, a))(fn, adt_)))
    try:
        fn = method(P, "OmniPaxosConfig", "with_toml")
        out.append((fn.label(), lambda: toml(P, sh, fn)))
    except Anchor:
        pass
    out.append(("OmniPaxos::reconfigure", lambda: reconfigure(P, sh)))
    return out


# ---- linear conditions ---------------------------------------------------------------------------------
def norm(l):
    """lt/le literal as (coefficients, constant): sum + constant >= 0"""
    neg = l.op == "not"
    a = l.args[0] if neg else l
    if a.op not in ("lt", "le"):
        return None
    x, y = a.args
    d = sub(x, y) if neg else sub(y, x)
    k, co = lin_of(d)
    if (a.op == "lt") != neg:
        k -= 1
    return tuple(sorted(((repr(t), n) for t, n in co))), k


def holds(f, lit):
    """True / False / None, also for sums of several variables"""
    d = f.decide(lit)
    if d is not None:
        return d
    if f.add(lnot(lit)) is None:
        return True
    if f.add(lit) is None:
        return False
    w = norm(lit)
    n = norm(lnot(lit))
    if w is None:
        return None
    for l in f.lits:
        h = norm(l)
        if h is None:
            continue
        if h[0] == w[0] and h[1] <= w[1]:
            return True
        if h[0] == n[0] and h[1] <= n[1]:
            return False
    return None


def cluster_rules(cc):
    """[(name, guard, literal)]"""
    nodes, fq = proj(cc, "nodes"), proj(cc, "flexible_quorum")
    n, r, w = vlen(nodes), proj(proj(fq, "Some.0"), "read_quorum_size"), proj(proj(fq, "Some.0"), "write_quorum_size")
    s = is_some(fq)
    return [("at least two nodes", None, le(c(2), n)), ("configuration id not 0", None, lnot(eq(proj(cc, "configuration_id"), c(0)))),
            ("quorums overlap", s, lt(n, add(r, w))), ("read quorum at least 2", s, le(c(2), r)), ("read quorum at most the cluster", s, le(r, n)),
            ("write quorum at least 2", s, le(c(2), w)), ("write quorum at most the cluster", s, le(w, n)), ("read quorum at least the write quorum", s, le(w, r))]


def server_rules(sc):
    nz = lambda k: lnot(eq(proj(sc, k), c(0)))
    return [("pid not 0", None, nz("pid")), ("buffer size not 0", None, nz("buffer_size")), ("batch size not 0", None, nz("batch_size")),
            ("election timeout not 0", None, nz("election_tick_timeout")), ("resend timeout not 0", None, nz("resend_message_tick_timeout"))]


def joint_rules(cc, sc):
    nodes = proj(cc, "nodes")
    return [("own pid among the nodes", None, T("any", nodes, frozenset([frozenset([eq(proj(sc, "pid"), T("belem", nodes))])])))]


def member_known(f, lit):
    """membership is also known from one concrete element, or through the mirrored comparison"""
    if lit.op != "any":
        return None
    src, (cl,) = lit.args
    (q,) = cl
    for l in f.lits:
        a = l.args[0] if l.op == "not" else l
        if a.op == "any" and a.args[0] is src and len(a.args[1]) == 1:
            (x,) = a.args[1]
            if len(x) == 1 and f.same(*[y for y in (list(x)[0], q)]):
                return l.op != "not"
        if l.op == "eq":
            for x, y in (l.args, l.args[::-1]):
                if x.op in ("elem", "at") and x.args[0] is src and q is eq(y, T("belem", src)):
                    return True
    return None


def cases(f, rules):
    """split on the guards"""
    gs = []
    for _, g, _ in rules:
        if g is not None and g not in gs:
            gs.append(g)
    out = [f]
    for g in gs:
        nxt = []
        for x in out:
            d = x.decide(g)
            if d is not None:
                nxt.append(x)
            else:
                nxt += [y for y in (x.add(g), x.add(lnot(g))) if y is not None]
        out = nxt
    return out


def verdict(X, f, ok, rules, span, what):
    for g in cases(f, rules):
        st = []
        for name, guard, lit in rules:
            if guard is not None and g.decide(guard) is not True:
                st.append((name, True))
                continue
            h = holds(g, lit)
            if h is None:
                h = member_known(g, lit)
            st.append((name, h))
        if ok:
            bad = [n for n, h in st if h is not True]
            X.ob("accepts-only-valid", not bad, what + "-" + (bad[0] if bad else ""), "%s accepts a configuration without: %s" % (what, ", ".join(bad)), None, g, span)
        else:
            X.ob("rejects-only-invalid", any(h is False for n, h in st), what, "%s rejects a configuration although every rule may be satisfied" % what, None, g, span)


def parts(r, adt_, name, sh):
    """(cluster config, server config) terms among the arguments"""
    a = r.args[0]
    me = T("sym", a.args[0]) if a.op == "ref" else a
    if adt_ == "OmniPaxosConfig":
        return proj(me, "cluster_config"), proj(me, "server_config")
    if adt_ == "ServerConfig":
        return None, me
    sc = None
    for i in range(1, r.fn.argc):
        if head(r.fn.locals[i + 1]) == "ServerConfig":
            sc = r.args[i]
    return me, sc


def validates(P, sh, fn, adt_):
    X = Plain(fn.label())
    r = Run(P, fn, cut=lambda f: f.self_ty is not None and f.self_ty[0] == "adt" and f.self_ty[1] in (sh.SP, sh.BLE))
    X.stats.append(r.stats())
    cc, sc = parts(r, adt_, fn.name, sh)
    rules = (cluster_rules(cc) if cc is not None else []) + (server_rules(sc) if sc is not None else []) + (joint_rules(cc, sc) if cc is not None and sc is not None else [])
    for st, ret in r.outs:
        f = st.facts
        ok = f.decide(ok_of(ret))
        if ok is None:
            X.ob("accepts-only-valid", False, "result", "the result of %s is not known" % fn.name, None, f, fn.span)
            continue
        verdict(X, f, ok, rules, fn.span, fn.label())
        if not ok:
            ef = [e for e, _ in E.flatten_events(st.events()) if e.k in ("st", "push", "app") or (e.k == "call") or (e.k in ("w", "upd", "havoc") and e.d[0] == "self")]
            X.ob("nothing-changed", not ef, fn.label(), "%s has effects although it rejects the configuration" % fn.label(), ef[0] if ef else None, f, fn.span)
    # sizes given by the caller are added only once they are known to be small
    for f, a, b in r.ex.sums:
        if not (from_input(a, r) and from_input(b, r)):
            continue
        X.ob("no-overflow", bounded(f, a) and bounded(f, b), fn.label(), "%s + %s may overflow and panic instead of returning an error" % (show(a, 4), show(b, 4)), None, f, fn.span)
    for f, a, b in r.ex.diffs:
        if from_input(a, r) or from_input(b, r):
            X.ob("no-overflow", f.decide(le(b, a)) is True, fn.label() + "-", "%s - %s may underflow and panic instead of returning an error" % (show(a, 4), show(b, 4)), None, f, fn.span)
    X.ob("no-overflow", True, "scanned", "", None, None, fn.span)
    for p in r.ex.panics:
        if p[1].startswith("assert") and "Bounds" not in p[1]:
            X.ob("no-overflow", False, "assert", "validation may panic (%s)" % p[1], None, p[0].facts, p[2])
    return X.result()


def from_input(t, r):
    return any(x.op == "sym" for x in subterms(t)) and t.op == "f"


def bounded(f, t):
    lens = {x for l in f.lits for x in subterms(l) if x.op == "len"}
    return any(f.decide(le(t, x)) is True for x in lens)


def toml(P, sh, fn):
    X = Plain(fn.label())
    r = Run(P, fn)
    X.stats.append(r.stats())
    for st, ret in r.outs:
        f = st.facts
        if f.decide(ok_of(ret)) is False:
            continue
        me = proj(ret, "Ok.0")
        cc, sc = proj(me, "cluster_config"), proj(me, "server_config")
        verdict(X, f, True, cluster_rules(cc) + server_rules(sc) + joint_rules(cc, sc), fn.span, fn.label())
    return X.result()


def reconfigure(P, sh):
    fn = method(P, "OmniPaxos", "reconfigure")
    X = Plain(fn.label())
    ours = {f.key for t in ("SequencePaxos", "BallotLeaderElection") for f in callers_outside(P, t)}
    r = Run(P, fn, cut=lambda f: f.key in ours)
    X.stats.append(r.stats())
    me0 = T("sym", "self")
    cc = [a for i, a in enumerate(r.args) if head(fn.locals[i + 1]) == "ClusterConfig"][0]
    md = [a for i, a in enumerate(r.args) if i and a is not cc]
    PE = sh.adt("ProposeErr")
    rules = cluster_rules(cc)
    for st, ret in r.outs:
        f = st.facts
        calls = [e for e, _ in E.flatten_events(st.events()) if e.k == "call"]
        if calls:
            verdict(X, f, True, rules, fn.span, "OmniPaxos::reconfigure")
            e = calls[0]
            good = len(calls) == 1 and e.d[0].endswith("SequencePaxos::reconfigure") and f.same(e.d[2][1], cc) and all(f.same(x, y) for x, y in zip(e.d[2][2:], md))
            X.ob("reconfigure", good, "passed", "a valid new configuration is not proposed as it is", e, f, fn.span)
            X.ob("reconfigure", ret.op == "ret" or any(t.op == "ret" for t in subterms(ret)), "result", "the outcome of proposing a configuration is not returned", e, f, fn.span)
        else:
            verdict(X, f, False, rules, fn.span, "OmniPaxos::reconfigure")
            er = proj(ret, "Err.0")
            good = f.decide(ok_of(ret)) is False and f.decide(isv(er, "ConfigError", PE)) is True and f.same(proj(er, "ConfigError.1"), cc) and all(f.same(proj(er, "ConfigError.2"), m) for m in md)
            X.ob("reconfigure", good, "error", "a rejected configuration is not handed back as a configuration error", None, f, fn.span)
            me = st.mem.get("self", me0)
            ef = [e for e, _ in E.flatten_events(st.events()) if e.k in ("st", "push", "app") or (e.k in ("w", "upd", "havoc") and e.d[0] == "self")]
            X.ob("nothing-changed", me is me0 and not ef, "reconfigure", "a rejected reconfiguration changes the server", ef[0] if ef else None, f, fn.span)
    return X.result()
