"""C12 persistent storage reads back exactly what was written, under any path"""
from sp import *
import be, c13, c27
from eff import *
from c14 import GET, OPTIONAL, opt, payload

CONFIGS = ["main"]
FLOORS = {"one-key": 6, "distinct-keys": 1, "reads-back": 6, "unwritten": 6, "append": 2, "prefix": 2, "trim": 1, "range": 2, "length": 1, "reopen": 3, "durable": 10, "batched": 10, "settings": 5, "location": 3, "stored-types": 3}
ASSUMES = ["bincode::deserialize inverts bincode::serialize, zerocopy read_from inverts as_bytes, from_be_bytes inverts to_be_bytes",
           "RocksDB orders keys bytewise; put, delete_range, get and iterators have their documented meaning"]
SELF = T("sym", "self")
INVERSE = {"bincode::serialize": ("bincode::deserialize", "Ok.0"), "ne_bytes": ("zerocopy::FromBytes::read_from", "Some.0")}


def jobs(progs):
    P = progs["main"]
    db = persistent(P)
    if not db:
        raise Anchor("no storage backend on a database")
    return [(n, mk(P, n, ms)) for n, ms in sorted(db.items())] + [("database settings", lambda: settings(P)), ("database location", lambda: location(P)), ("stored types", lambda: stored_types(P, db))]


# database settings and calls under which stored data is refused, dropped or not logged; {name: harmless value of the last argument}
REFUSE = {"set_error_if_exists": FALSE, "create_if_missing": TRUE, "create_missing_column_families": TRUE, "set_manual_wal_flush": FALSE, "set_unordered_write": FALSE,
          "set_avoid_flush_during_shutdown": FALSE}
DROP = ("destroy", "drop_cf", "delete_file_in_range", "delete_file_in_range_cf", "set_compaction_filter", "set_compaction_filter_factory", "set_fifo_compaction_options",
        "set_merge_operator", "set_merge_operator_associative", "set_wal_recovery_mode", "set_comparator", "set_comparator_with_ts", "open_with_ttl", "open_cf_with_ttl", "open_cf_descriptors_with_ttl", "open_for_read_only", "open_cf_for_read_only",
        "open_as_secondary", "open_cf_as_secondary", "disable_wal", "set_ttl", "set_inplace_update_support")


def adts_in(t, out):
    if isinstance(t, (tuple, list)):
        if len(t) > 1 and t[0] == "adt" and isinstance(t[1], str):
            out.add(t[1])
        for x in t:
            adts_in(x, out)


def stored_types(P, db):
    """the library's own types among what is stored are written and read back whole (C27's analysis)"""
    todo, seen = set(), set()
    for ms in db.values():
        for m in ms.values():
            for t in m.locals[1:1 + m.argc]:
                adts_in(t, todo)
    ser, de = c27.impls(P, "Serialize", "serialize"), c27.impls(P, "Deserialize", "deserialize")
    X = Plain("stored types")
    while todo:
        a = todo.pop()
        if a in seen or a not in ser or a not in P.adts:
            continue
        seen.add(a)
        r = c27.one(P, a, ser[a], de.get(a), de)
        X.stats.append(r["stats"])
        n = sum(v[0] for v in r["counts"].values())
        if not r["findings"]:
            X.ob("stored-types", n > 0, a, "", None, None, ser[a].span)
        for f in r["findings"]:
            X.ob("stored-types", False, a + f["key"], f["message"], None, None, ser[a].span)
        for v in P.adts[a]["vars"].values():
            for _, t, _ in v[1]:
                adts_in(t, todo)
    return X.result()


def settings(P):
    """nothing in the storage crate configures the database to refuse, expire, reorder or not log data"""
    X = Plain("database settings")
    for fn in P.fns.values():
        if fn.crate not in P.local_crates or "storage" not in fn.crate:
            continue
        hit = {k.split("::")[-1] for k in called(fn) if k.startswith("rocksdb::")}
        bad = sorted(hit & set(DROP))
        X.ob("settings", not bad, fn.label(), "%s calls %s: stored data can be dropped, expired, reordered or refused" % (fn.label(), ", ".join(bad)), None, None, fn.span)
        if hit & set(REFUSE):
            for st, ret in Run(P, fn).outs:
                for e, _ in E.flatten_events(st.events()):
                    if e.k == "ext" and e.d[0].startswith("rocksdb::") and REFUSE.get(e.d[0].split("::")[-1]) is not None:
                        n = e.d[0].split("::")[-1]
                        X.ob("settings", e.d[-1] is REFUSE[n], fn.label() + "/" + n, "%s sets %s to %s: existing data cannot be reopened, a first start fails or a crash loses writes" % (fn.label(), n, show(e.d[-1], 2)), e, st.facts, fn.span)
    return X.result()


def location(P):
    """the database is opened where, and with the options, the user's configuration says"""
    X = Plain("database location")
    fns = [fn for fn in P.fns.values() if fn.crate in P.local_crates and "storage" in fn.crate]
    me = T("sym", "self")
    byn = {fn.label(): fn for fn in fns}
    cfgs = set()
    for fn in fns:
        for i in range(fn.argc):
            t = fn.locals[i + 1]
            t = t[1] if t[0] == "ref" else t
            if t[0] == "adt" and t[1] in P.adts and "path" in {x[0] for v in P.adts[t[1]]["vars"].values() for x in v[1]}:
                r = Run(P, fn)
                X.stats.append(r.stats())
                cfgs.add(t[1])
                cfg = r.args[i] if r.args[i].op == "sym" else T("sym", fn.names.get(i + 1))
                for st, ret in r.outs:
                    for e, _ in E.flatten_events(st.events()):
                        if e.k == "ext" and e.d[0].startswith("rocksdb::db::open"):
                            parts = [x for a in e.d[1:] if isinstance(a, Term) for x in subterms(a)]
                            for f_ in sorted({x[0] for v in P.adts[t[1]]["vars"].values() for x in v[1]}):
                                X.ob("location", proj(cfg, f_) in parts, f_, "the database is opened without regard to the configured %s" % f_, e, st.facts, fn.span)
    for c_ in cfgs:
        n_ = c_.split("::")[-1]
        ms = {fn.name: fn for fn in fns if fn.label() == n_ + "::" + fn.name}
        for n, fn in ms.items():
            if n.startswith("set_") and "get_" + n[4:] in ms and fn.argc == 2:
                g = Run(P, ms["get_" + n[4:]])
                r = Run(P, fn)
                X.stats.append(r.stats())
                for st, ret in r.outs:
                    for st2, v in g.outs:
                        while v.op == "vref":
                            v = v.args[0]
                        if v.op == "ref" and v.args[0] == "self":
                            v = get(me, v.args[1])
                        path, x = [], v
                        while x.op == "f":
                            path.append(x.args[1])
                            x = x.args[0]
                        if x is not me:
                            continue
                        X.ob("location", st.facts.same(get(st.mem["self"], tuple(path[::-1])), r.args[1]), n, "%s::%s does not set what get_%s returns" % (n_, n, n[4:]), None, st.facts, fn.span)
            elif n.startswith("with"):
                r = Run(P, fn)
                X.stats.append(r.stats())
                for i in range(fn.argc):
                    nm = fn.names.get(i + 1)
                    if nm in {x[0] for v in P.adts[c_]["vars"].values() for x in v[1]}:
                        for st, ret in r.outs:
                            X.ob("location", st.facts.same(proj(ret, nm), r.args[i]), n + "/" + nm, "%s::%s ignores the given %s" % (n_, n, nm), None, st.facts, fn.span)
    return X.result()


def strip(t):
    while True:
        if t.op == "app" and t.args[0] in ("bytes", "as_bytes", "as_ref") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "deref":
            t = t.args[0]
        else:
            return t


def cfname(t):
    """name of the column family a handle stands for; None = default family"""
    if t is None:
        return "default"
    for x in subterms(t):
        if x.op == "app" and x.args[0] == DBP + "cf_handle":
            return x.args[1][1]
    return t


def encoding(t):
    """(codec, encoded value)"""
    u = strip(t)
    if u.op == "f" and u.args[1] == "Ok.0" and u.args[0].op == "app":
        u = u.args[0]
    if u.op == "app" and len(u.args[1]) == 1:
        return u.args[0], u.args[1][0]
    return None, t


def simp(t, memo=None):
    """apply decode(encode(v)) = v"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, Term):
            return simp(x, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    na = tuple(go(x) for x in t.args)
    r = rebuild(t.op, na) if na != t.args else t
    if r.op == "f" and r.args[0].op == "app" and r.args[0].args[1]:
        a = r.args[0]
        codec, v = encoding(a.args[1][0])
        inv = INVERSE.get(codec)
        if inv is not None and a.args[0] == inv[0] and r.args[1] == inv[1]:
            r = v
    if r.op == "app" and r.args[0] in ("from_be_bytes", "from_ne_bytes", "from_le_bytes") and r.args[1]:
        x = strip(r.args[1][0])
        if x.op == "arr" and x.args[0] and all(y.op == "at" and y.args[1] is c(i) for i, y in enumerate(x.args[0])):
            bs = {strip(y.args[0]) for y in x.args[0]}
            if len(bs) == 1:
                x = bs.pop()
        want = {"from_be_bytes": ("to_be_bytes",), "from_ne_bytes": ("ne_bytes", "to_ne_bytes"), "from_le_bytes": ("to_le_bytes",)}[r.args[0]]
        if x.op == "app" and x.args[0] in want:
            r = x.args[1][0]
    memo[t] = r
    return r


def reads(t):
    """[(read value, column family name, key)] of database lookups inside a term"""
    out = []
    for x in subterms(t):
        if x.op == "f" and x.args[1] == "Some.0" and x.args[0].op == "f" and x.args[0].args[1] == "Ok.0":
            a = x.args[0].args[0]
            if a.op == "app" and a.args[0].startswith(DBP + "get"):
                v = a.args[1]
                if "_cf" in a.args[0]:
                    out.append((x, cfname(v[1]), v[2]))
                else:
                    out.append((x, "default", v[1]))
    return out


def lookups(f):
    """database lookups the facts say something about: {(family, key): present?}"""
    out = {}
    for l in f.lits:
        for x in subterms(l):
            if x.op == "app" and x.args[0].startswith(DBP + "get"):
                v = x.args[1]
                k = (cfname(v[1]), v[2]) if "_cf" in x.args[0] else ("default", v[1])
                o = proj(x, "Ok.0")
                out[k] = True if f.decide(is_some(o)) is True else (False if f.decide(is_none(o)) is True else None)
    return out


def batched(X, P, name, ms):
    """an operation listed in an atomic write changes the database like the direct operation"""
    wa = ms["write_atomically"]
    for k, n in op_kinds(P):
        a = c13.args_for(1, n)
        A = Seq(P, [(wa, [T("arr", (op_val(P, k, a),))])])
        X.stats.append(A.stats("%s::write_atomically([%s])" % (name, k)))
        c13.compare(X, "batched", "[%s] in an atomic write" % k, c13.summary(P, wa, A, True), c13.summary(P, wa, Seq(P, [(ms[OPS[k]], a)]), True), wa)


def mk(P, name, ms):
    def go():
        X = Plain(name)

        def run(m, args, start=None):
            if m not in ms:
                raise Anchor("%s does not implement %s" % (name, m))
            s = Seq(P, [(ms[m], args)], start)
            X.stats.append(s.stats("%s::%s" % (name, m)))
            for st, ret in s.outs:
                ev = st.events()
                for e, l in writes(ev):
                    n = e.d[0].split("::")[-1]
                    X.ob("durable", "without_wal" not in n, m, "%s writes without the write-ahead log: a crash loses it" % m, e)
                for e, _ in E.flatten_events(ev):
                    if e.k == "ext" and "disable_wal" in e.d[0]:
                        X.ob("durable", False, m, "%s disables the write-ahead log" % m, e)
            return s
        F, TO, I, A0, ES = (T("sym", n) for n in ("from", "to", "idx", "entry", "entries"))
        keys, enc = {}, {}
        for it, g in GET.items():
            m = "set_" + it
            v = T("sym", "v_" + it)
            s = run(m, [v])
            X.ob("one-key", bool(s.outs), m + "/ok", "%s never succeeds" % m, None, None, ms[m].span)
            for st, ret in s.outs:
                ev = st.events()
                ef = Eff(ev).run(ev)
                good = len(ef) == 1 and ef[0][0] == "put" and ef[0][2].op == "str"
                X.ob("one-key", good, m, "%s does not write exactly one item under a fixed key" % m, None, st.facts, ms[m].span)
                me = st.mem["self"]
                X.ob("one-key", me is SELF or all(proj(me, n) is proj(SELF, n) for n, _ in fields_of(P, ms[m])), m + "/self", "%s changes the log cursor or other state" % m, None, st.facts, ms[m].span)
                if not good:
                    continue
                k = (cfname(ef[0][1]), ef[0][2])
                X.ob("one-key", it not in keys or keys[it] == k, m + "/paths", "%s uses different keys on different paths" % m, None, st.facts, ms[m].span)
                keys[it], enc[it] = k, ef[0][3]
        for a in keys:
            dup = [b for b in keys if b != a and keys[b] == keys[a]]
            X.ob("distinct-keys", not dup, a, "%s and %s are stored under the same key" % (a, dup), None, None, ms["set_" + a].span)
        for it, g in GET.items():
            if it not in keys:
                continue
            v = T("sym", "v_" + it)
            seen = False
            for st, ret in run(g, []).outs:
                f = st.facts
                val = payload(ret)
                rs = reads(val)
                lk = lookups(f)
                X.ob("reads-back", set(lk) == {keys[it]}, g + "/key", "%s looks up another key than set_%s writes" % (g, it), None, f, ms[g].span)
                present = lk.get(keys[it])
                if rs:
                    seen = True
                    val2 = simp(subst(val, {r: enc[it] for r, _, _ in rs}))
                    want = opt(v) if it in OPTIONAL else v
                    X.ob("reads-back", val2 is want or f.same(val2, want), g, "%s does not decode what set_%s encodes (gives %s)" % (g, it, show(val2, 4)), None, f, ms[g].span)
                else:
                    X.ob("reads-back", present is not True, g + "/ignored", "%s ignores a stored value" % g, None, f, ms[g].span)
                    ok = f.same(val, c(0)) if it in ("decided_idx", "compacted_idx") else f.decide(is_none(val)) is True
                    X.ob("unwritten", ok, g, "%s does not report the initial value when nothing is stored" % g, None, f, ms[g].span)
            X.ob("reads-back", seen, g + "/never", "%s never returns a stored value" % g, None, None, ms[g].span)
        # ---- the log ------------------------------------------------------------------------------
        nk = [n for n, t in fields_of(P, ms["append_entry"]) if t == ("prim", "usize") or (isinstance(t, (tuple, list)) and "usize" in str(t))]
        if len(nk) != 1:
            raise Anchor("%s has no single log cursor" % name)
        nk = nk[0]
        N = proj(SELF, nk)
        logcf = None

        def is_key(t, want, f):
            u = strip(t)
            return u.op == "app" and u.args[0] == "to_be_bytes" and (u.args[1][0] is want or f.same(u.args[1][0], want))

        def is_entry(t, want):
            cdc, v = encoding(t)
            return cdc == "bincode::serialize" and v is want

        def appended(ef, f, start, src):
            """effects put exactly the elements of src at start, start+1, .."""
            if src is None:
                return len(ef) == 1 and ef[0][0] == "put" and is_key(ef[0][2], start, f) and is_entry(ef[0][3], A0)
            if not ef:
                return f.decide(lt(c(0), vlen(src))) is False
            if len(ef) != 1 or ef[0][0] != "for" or ef[0][1] is not src or not isinstance(ef[0][2], tuple) or len(ef[0][2]) != 1:
                return False
            p = ef[0][2][0]
            return p[0] == "put" and is_key(p[2], add(start, T("bpos", src)), f) and is_entry(p[3], T("belem", src))

        def cfs(ef):
            out = set()
            for x in ef:
                if x[0] == "for":
                    for b in (x[2] if isinstance(x[2], frozenset) else [x[2]]):
                        out |= cfs(b)
                elif x[0] in ("put", "del", "del1"):
                    out.add(cfname(x[1]))
            return out
        for m, args, src, n in (("append_entry", [A0], None, c(1)), ("append_entries", [ES], ES, vlen(ES))):
            for st, ret in run(m, args).outs:
                ev, f = st.events(), st.facts
                ef = Eff(ev).run(ev)
                X.ob("append", appended(ef, f, N, src), m, "%s does not store exactly the given entries at the next log positions (big-endian keys)" % m, None, f, ms[m].span)
                X.ob("append", f.same(proj(st.mem["self"], nk), add(N, n)), m + "/next", "%s does not advance the next log position by the number of entries" % m, None, f, ms[m].span)
                s = cfs(ef)
                if s:
                    logcf = logcf or set(s)
                    X.ob("append", s == logcf and len(s) == 1 and "default" not in s, m + "/cf", "log entries go to different column families", None, f, ms[m].span)
        logcf = logcf or set()
        for st, ret in run("append_on_prefix", [I, ES]).outs:
            ev, f = st.events(), st.facts
            ef = Eff(ev).run(ev)
            end = add(I, vlen(ES))
            dels = [(i, x) for i, x in enumerate(ef) if x[0] == "del"]
            rest = tuple(x for x in ef if x[0] != "del")
            X.ob("prefix", appended(rest, f, I, ES), "entries", "append_on_prefix does not store exactly the entries from the given position on", None, f, ms["append_on_prefix"].span)
            good = True
            covered = f.decide(le(N, end)) is True
            for i, x in dels:
                lo, hi = strip(x[2]), strip(x[3])
                if lo.op != "app" or hi.op != "app" or lo.args[0] != "to_be_bytes" or hi.args[0] != "to_be_bytes":
                    good = False
                    continue
                lo, hi = lo.args[1][0], hi.args[1][0]
                good = good and f.decide(le(I, lo)) is True
                if i > 0:
                    good = good and f.decide(le(end, lo)) is True
                if f.decide(le(lo, end)) is True and f.decide(le(N, hi)) is True:
                    covered = True
            X.ob("prefix", good, "kept", "append_on_prefix removes entries of the kept prefix or the entries just stored", None, f, ms["append_on_prefix"].span)
            X.ob("prefix", covered, "removed", "append_on_prefix leaves entries of the overwritten suffix in the log", None, f, ms["append_on_prefix"].span)
            X.ob("prefix", f.same(proj(st.mem["self"], nk), end), "next", "append_on_prefix does not set the next log position to the end of the new log", None, f, ms["append_on_prefix"].span)
            X.ob("prefix", cfs(ef) <= logcf, "cf", "append_on_prefix works on another column family than appends", None, f, ms["append_on_prefix"].span)
        for st, ret in run("trim", [I]).outs:
            ev, f = st.events(), st.facts
            ef = Eff(ev).run(ev)
            good = len(ef) == 1 and ef[0][0] == "del" and is_key(ef[0][2], c(0), f) and is_key(ef[0][3], I, f)
            X.ob("trim", good, "range", "trim does not remove exactly the entries below the index", None, f, ms["trim"].span)
            X.ob("trim", f.same(proj(st.mem["self"], nk), N), "next", "trim moves the next log position", None, f, ms["trim"].span)
            X.ob("trim", cfs(ef) == logcf, "cf", "trim works on another column family than appends", None, f, ms["trim"].span)

        def range_read(val, st, f, lo, hi):
            if f.decide(lt(lo, hi)) is False:
                return same_seq(f, val, T("arr", ()))
            if val.op != "comp" or val.args[0].op != "range" or not f.same(val.args[0].args[0], lo) or not f.same(val.args[0].args[1], hi) or len(val.args[1]) != 1:
                return False
            (cl, x), = val.args[1]
            if cl:
                return False
            if not (x.op == "f" and x.args[1] == "Ok.0" and x.args[0].op == "app" and x.args[0].args[0] == "bincode::deserialize"):
                return False
            y = strip(x.args[0].args[1][0])
            rr = [r for r in reads(x) if r[0] is y]
            if rr:
                return {rr[0][1]} == logcf and is_key(rr[0][2], T("belem", val.args[0]), f)
            if not (y.op == "f" and y.args[1] == "Some.0" and y.args[0].op == "app" and y.args[0].args[0].endswith("db_iterator::value")):
                return False
            phi = y.args[0].args[1][0]
            if phi.op != "phi":
                return False
            lp = loops_of(st.events()).get(phi.args[0])
            if lp is None:
                lp = next((l for l in run.loops if l.lid == phi.args[0]), None)
            if lp is None or phi.args[1] not in lp.init:
                return False
            i0 = lp.init[phi.args[1]]
            ok = i0.op == "upd" and i0.args[0].endswith("db_iterator::seek") and is_key(i0.args[3][1], lo, f)
            base = i0.args[2] if ok else i0
            ok = ok and base.op == "app" and base.args[0] == DBP + "raw_iterator_cf" and {cfname(base.args[1][1])} == logcf
            for it in lp.iters:
                u = it.upd[phi.args[1]]
                ok = ok and u.op == "upd" and u.args[0].endswith("db_iterator::next") and u.args[2] is phi
            return ok
        run.loops = []
        for m, args, hi in (("get_entries", [F, TO], TO), ("get_suffix", [F], N)):
            hit = 0
            for st, ret in run(m, args).outs:
                f = st.facts
                for l in (le(F, hi), le(hi, N)):
                    f = f.add(l) if f is not None else None
                if f is None:
                    continue
                hit += 1
                X.ob("range", range_read(payload(ret), st, f, F, hi), m, "%s does not return exactly the stored entries of the range, in order" % m, None, f, ms[m].span)
            X.ob("range", hit > 0, m + "/ok", "%s never succeeds on a stored range" % m, None, None, ms[m].span)
        ck = keys.get("compacted_idx")
        for st, ret in run("get_log_len", []).outs:
            f = st.facts
            v = payload(ret)
            rs = [r for r in reads(v) if (r[1], r[2]) == ck]
            cv = T("sym", "v_compacted_idx")
            v2 = simp(subst(v, {r[0]: enc["compacted_idx"] for r in rs})) if ck else v
            lk = lookups(f)
            want = sub(N, cv) if rs else N
            ok = f.same(v2, want) and (bool(rs) or lk.get(ck) is False)
            X.ob("length", ok, "len", "the log length is not the next log position minus the stored compacted index", None, f, ms["get_log_len"].span)
        # ---- reopening --------------------------------------------------------------------------------
        batched(X, P, name, ms)
        K = T("sym", "last_key")
        ctors = be.others(P, name)
        for fn in ctors:
            r = Run(P, fn)
            X.stats.append(r.stats())
            for st, ret in r.outs:
                f = st.facts
                if head(fn.ret if hasattr(fn, "ret") else fn.locals[0]) != name:
                    continue
                v = proj(ret, nk)
                valid, it = None, None
                for l in f.lits:
                    pos, t = (True, l) if l.op != "not" else (False, l.args[0])
                    if t.op == "app" and t.args[0].endswith("db_iterator::valid"):
                        valid, it = pos, t.args[1][0]
                    elif t.op == "isv" and t.args[0].op == "app" and t.args[0].args[0].endswith(("db_iterator::key", "db_iterator::item")) and valid is None:
                        valid, it = f.decide(is_none(t.args[0])) is False, t.args[0].args[1][0]
                X.ob("reopen", it is not None and it.op == "upd" and it.args[0].endswith("seek_to_last") and {cfname(it.args[2].args[1][1])} == logcf, fn.name + "/last",
                     "%s does not look for the last stored log entry" % fn.name, None, f, fn.span)
                if it is None:
                    continue
                if valid:
                    ks = [x for x in subterms(v) if x.op == "app" and x.args[0].endswith("db_iterator::key") and x.args[1][0] is it]
                    bytes_ = {proj(k, "Some.0"): T("app", "to_be_bytes", (K,)) for k in ks}
                    v2 = simp(subst(v, bytes_))
                    X.ob("reopen", f.same(v2, add(K, c(1))), fn.name + "/next", "%s does not continue right after the last stored entry (next position %s)" % (fn.name, show(v2, 4)), None, f, fn.span)
                else:
                    rs = [r for r in reads(v) if (r[1], r[2]) == ck]
                    lk = lookups(f)
                    if rs:
                        v2 = simp(subst(v, {r[0]: enc["compacted_idx"] for r in rs}))
                        X.ob("reopen", f.same(v2, T("sym", "v_compacted_idx")), fn.name + "/compacted", "%s of an empty log does not continue at the compacted index" % fn.name, None, f, fn.span)
                    else:
                        X.ob("reopen", f.same(v, c(0)) and lk.get(ck) is False, fn.name + "/empty", "%s of an empty log ignores the stored compacted index" % fn.name, None, f, fn.span)
        return X.result()
    return go
