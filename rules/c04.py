"""C04 restart rebuilds exactly the stored state and rejoins through recovery"""
from sp import *

CONFIGS = ["main"]
FLOORS = {"restored": 50, "recovery-role": 8, "recovery-requests": 8, "stored-promise": 8, "fresh-ballot": 8, "wiring": 50}


def jobs(progs):
    P = progs["main"]
    sh = Shape(P)
    return [("build", lambda: build(P, sh))]


def reads(st):
    """{getter: result terms}; creating a server stores nothing but the promise itself (checked), so any read of the other items is of the stored value"""
    out = {}
    for e in st.events():
        if e.k == "sg":
            out.setdefault(e.d[0], [])
            if e.d[2] not in out[e.d[0]]:
                out[e.d[0]].append(e.d[2])
    return out


def same_opt(f, v, opt, default):
    """v is the content of the stored option, or the default when nothing is stored"""
    s = f.decide(is_some(opt))
    if s is True:
        return f.same(v, proj(opt, "Some.0"))
    if s is False:
        return f.same(v, default)
    return False


def neq(a, b):
    return lnot(eq(a, b))


def zero(P, path):
    a = P.adts[path]
    return T("adt", path, "", tuple((n, c(0)) for n, _, _ in a["vars"][a["order"][0]][1]))


def ballot_fields(P, sh):
    B = sh.adt("Ballot")
    a = P.adts[B]
    return [n for n, _, _ in a["vars"][a["order"][0]][1]]


def build(P, sh):
    X = Plain("OmniPaxosConfig::build")
    fn = method(P, "OmniPaxosConfig", "build")
    r = Run(P, fn)
    X.stats.append(r.stats())
    cfg = r.args[0]
    cc, sc = proj(cfg, "cluster_config"), proj(cfg, "server_config")
    pid, nodes = proj(sc, "pid"), proj(cc, "nodes")
    zb = zero(P, sh.adt("Ballot"))
    bf = ballot_fields(P, sh)
    fresh_n, rec_n = set(), set()
    for st, ret in r.outs:
        if st.facts.decide(err_of(ret)) is True:
            continue
        f = st.facts
        op = proj(ret, "Ok.0")
        sp_, ble = proj(op, sh.seq), proj(op, sh.ble)
        rd = reads(st)
        prom = rd.get("get_promise", [UNIT])[0]
        po = proj(prom, "Ok.0")
        stored = f.decide(is_some(po))
        X.ob("stored-promise", stored is not None and f.decide(ok_of(prom)) is True, "read", "the server is created without reading the stored promise", facts=f, span=fn.span)
        pv = proj(po, "Some.0") if stored else zb
        # -- cache equals storage
        cache = {n: sh.c(sp_, n) for n in sh.cache}
        for fld, g in (("promise", "get_promise"), ("accepted_round", "get_accepted_round"), ("decided_idx", "get_decided_idx"), ("compacted_idx", "get_compacted_idx"), ("stopsign", "get_stopsign")):
            good = False
            for v in [proj(t, "Ok.0") for t in rd.get(g, ())]:
              if fld in ("promise", "accepted_round"):
                good = good or same_opt(f, cache[fld], v, zb)
              elif fld == "stopsign":
                good = good or f.same(cache[fld], v) or (f.decide(is_none(v)) is True and f.decide(is_none(cache[fld])) is True)
              else:
                good = good or f.same(cache[fld], v)
            X.ob("restored", good, fld, "after a restart the in-memory %s (%s) is not the stored one" % (fld, show(cache[fld], 4)), facts=f, span=fn.span)
        lens = [proj(t, "Ok.0") for t in rd.get("get_log_len", ())]
        accs = [add(add(l, cache["compacted_idx"]), ind(cache["stopsign"], f)) for l in lens]
        X.ob("restored", any(f.same(norm_ind(cache["accepted_idx"], f), a) for a in accs), "accepted_idx", "after a restart the accepted index (%s) is not compacted index + stored log length + stop-sign" % show(cache["accepted_idx"], 4), facts=f, span=fn.span)
        X.ob("restored", cache["batched_entries"] is T("arr", ()) or f.same(vlen(cache["batched_entries"]), c(0)), "batch", "a new server starts with batched entries", facts=f, span=fn.span)
        # -- the only storage write repeats the stored promise
        for e in st.events():
            if e.k == "st":
                ops = ops_of(e)
                ok_ = ops is not None and all(n == "set_promise" and e.facts.same(a[0], pv) for n, a in ops)
                X.ob("stored-promise", ok_, "write:%s" % (ops[0][0] if ops else "?"), "creating a server writes %s to storage" % show(e.d, 4), e)
            elif e.k == "loop":
                for it in e.d[0].iters:
                    for x in it.events:
                        if x.k == "st":
                            X.ob("stored-promise", False, "write-loop", "creating a server writes to storage in a loop", x)
        # -- role, outgoing
        out = proj(sp_, sh.out)
        if stored:
            X.ob("recovery-role", f.decide(isv(sh.role(sp_), "Follower", ROLE)) is True and f.decide(isv(sh.phase(sp_), "Recover", PHASE)) is True, "role", "a server with a stored promise does not start as a recovering follower", facts=f, span=fn.span)
            X.ob("recovery-requests", asks_all(f, out, nodes, pid, pv) or (out is EMPTY and f.same(vlen(proj(sp_, "peers")), c(0))), "requests", "a recovering server does not ask every peer for a Prepare (%s)" % show(out, 8)[:300], facts=f, span=fn.span)
        else:
            X.ob("recovery-role", f.decide(isv(sh.role(sp_), "Follower", ROLE)) is True and f.decide(isv(sh.phase(sp_), "None", PHASE)) is True, "role0", "a fresh server does not start as an idle follower", facts=f, span=fn.span)
            X.ob("recovery-requests", f.same(vlen(out), c(0)), "idle", "a fresh server sends Sequence Paxos messages before anything happened", facts=f, span=fn.span)
        X.ob("restored", f.same(sh.lead(sp_, "n_leader"), pv), "n_leader", "the leader ballot of a new server is not its stored promise", facts=f, span=fn.span)
        # -- BLE
        cur, led = proj(ble, "current_ballot"), proj(ble, "leader")
        for k, v in (("pid", pid), ("config_id", proj(cc, "configuration_id")), ("priority", proj(sc, "leader_priority"))):
            X.ob("wiring", f.same(proj(cur, k), v), "ballot-" + k, "the election ballot's %s is not the configured one" % k, facts=f, span=fn.span)
        is_default = (not stored) or all(f.same(proj(pv, k), c(0)) for k in bf)
        n = proj(cur, "n")
        if is_default:
            X.ob("fresh-ballot", is_c(n) and n.args[0] >= 1, "initial-round", "a fresh server starts election with round %s" % show(n), facts=f, span=fn.span)
            X.ob("fresh-ballot", all(f.same(proj(led, k), proj(cur, k)) for k in bf) or all(f.same(proj(led, k), c(0)) for k in bf), "initial-leader", "a fresh server starts with a leader it has not heard of", facts=f, span=fn.span)
        else:
            X.ob("fresh-ballot", f.same(n, c(0)) or f.decide(lt(proj(pv, "n"), n)) is True, "recovery-round", "a recovered server takes part in leader election with round %s, which it may have used before" % show(n), facts=f, span=fn.span)
            X.ob("fresh-ballot", all(f.same(proj(led, k), proj(pv, k)) for k in bf), "recovered-leader", "the leader known after recovery is not the stored promise", facts=f, span=fn.span)
        # -- identity and configuration reach both components
        for nm, comp_ in (("Sequence Paxos", sp_), ("BLE", ble)):
            X.ob("wiring", f.same(proj(comp_, "pid"), pid), nm + "-pid", "%s does not use the configured pid" % nm, facts=f, span=fn.span)
            X.ob("wiring", peers_of(f, proj(comp_, "peers"), nodes, pid), nm + "-peers", "%s's peers are not the other nodes of the configuration" % nm, facts=f, span=fn.span)
        X.ob("wiring", f.same(proj(ble, "configuration_id"), proj(cc, "configuration_id")), "config-id", "BLE does not use the configured configuration id", facts=f, span=fn.span)
        X.ob("wiring", f.same(cache["batch_size"], proj(sc, "batch_size")), "batch-size", "the configured batch size is not used", facts=f, span=fn.span)
        for q, nm in ((sh.lead(sp_, "quorum"), "Sequence Paxos"), (proj(ble, "quorum"), "BLE")):
            X.ob("wiring", quorum_ok(f, q, cc, nodes, pid), nm + "-quorum", "%s's quorum is not the configured one (%s)" % (nm, show(q, 5)), facts=f, span=fn.span)
        for tab in ("promises_meta", "follower_seq_nums", "accepted_indexes", "latest_accept_meta"):
            t = sh.lead(sp_, tab)
            X.ob("wiring", covers_all(f, vlen(t), nodes, pid), "table-" + tab, "the leader's %s table does not have a slot for every node (%s)" % (tab, show(t, 6)[:200]), facts=f, span=fn.span)
    return X.result()


def peers_of(f, v, nodes, pid):
    if v.op != "comp" or v.args[0] is not nodes:
        return False
    b = T("belem", nodes)
    return v.args[1] == frozenset([(frozenset([neq(pid, b)]), b)])


def asks_all(f, out, nodes, pid, pv):
    if out.op != "comp" or out.args[0] is not nodes or len(out.args[1]) != 1:
        return False
    (cl, x), = out.args[1]
    b = T("belem", nodes)
    m = parse_msg(x, f)
    return cl == frozenset([neq(pid, b)]) and m.kind == "PrepareReq" and m.to is b and f.same(m.frm, pid) and f.same(m["n"], pv)


def quorum_ok(f, q, cc, nodes, pid):
    fq = proj(cc, "flexible_quorum")
    s = f.decide(is_some(fq))
    if q.op != "adt":
        return False
    if q.args[1] == "Majority":
        k, d = lin_of(q.args[2][0][1])
        if s is not False or k != 1 or len(d) != 1 or d[0][1] != 1 or d[0][0].op != "div":
            return False
        a, two = d[0][0].args
        n = T("cnt", nodes, frozenset([frozenset([neq(pid, T("belem", nodes))])]))
        return two is c(2) and (a is add(n, c(1)) or a is vlen(nodes))
    fl = proj(fq, "Some.0")
    v = q.args[2][0][1]
    return s is True and all(f.same(proj(v, k), proj(fl, k)) for k in ("read_quorum_size", "write_quorum_size"))


def covers_all(f, n, nodes, pid):
    """table length is at least every node id (slots are pid-1)"""
    def is_max(t):
        if t.op == "vmax":
            s = t.args[0]
            if s is nodes:
                return "all"
            if peers_of(f, s, nodes, pid):
                return "peers"
        return None
    b = T("belem", nodes)
    if f.decide(le(pid, n)) is True and f.decide(eq(vlen(T("comp", nodes, frozenset([(frozenset([neq(pid, b)]), b)]))), c(0))) is True:
        return True
    tops = [t for l in f.lits for t in subterms(l) if t.op == "vmax"] + [t for t in subterms(n) if t.op == "vmax"]
    for t in tops:
        k = is_max(t)
        if k == "all" and f.decide(le(t, n)) is True:
            return True
        if k == "peers" and f.decide(le(t, n)) is True and f.decide(le(pid, n)) is True:
            return True
    return False
