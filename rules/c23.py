"""C23 UniCache encoder and decoder stay in lock-step"""
from sp import *

CONFIGS = ["uni"]
FLOORS = {"encode": 6, "decode": 6, "new": 2, "lfu": 4, "snapshot": 2, "wire": 6, "derive": 2, "encoded-batch": 10, "shipped": 2, "cache-sent": 1, "cache-used": 5}
TECHNIQUE = 'transfer functions of every cache implementation (as terms over the library cache operations) compared with one reference step for encoder and decoder; structural check of the snapshot sent to followers and of its wire format; the expansion of the derive macro on a witness type; path-sensitive dataflow of the cache and the encoded batch through Sequence Paxos, all over MIR'
ASSUMES = ["lru::LruCache and linked_hash_set::LinkedHashSet behave as documented", "storage writes succeed (the core panics otherwise)",
           "only the owner of a ballot sends AcceptSync and AcceptDecide with it, to other servers (C20), each handled once and in order (C10)", "the encoding type can represent as many values as the cache has places"]
FC, UC = "omnipaxos::unicache::FieldCache", "omnipaxos::unicache::UniCache"
ENC, DEC, NEW = UC + "::try_encode", UC + "::decode", UC + "::new"


def jobs(progs):
    P = progs["uni"]
    out = []
    for tr, ty, _, items in P.impls:
        if tr == FC and ty[0] == "adt" and ty[1].startswith("omnipaxos::"):
            out.append((ty[1].split("::")[-1], lambda ty=ty, items=items: field_cache(P, ty, items)))
    if not out:
        raise Anchor("no implementation of the field cache trait")
    out.append(("LFUCache", lambda: lfu(P)))
    out.append(("wire format", lambda: wire(P)))
    out.append(("derived cache", lambda: derive(P)))
    out.append(("SequencePaxos::with", lambda: start(P)))
    return out + sp_jobs(P, proto)


# ---- small term helpers ------------------------------------------------------------------
def last(n):
    return n.split("::")[-1]


def und(t):
    while True:
        if t.op in ("deref", "vref"):
            t = t.args[0]
        elif t.op == "ref" and isinstance(t.args[0], tuple) and t.args[0][0] == "D":
            t = get(T("deref", t.args[0][1]), t.args[1]) if t.args[1] else t.args[0][1]
        else:
            return t


def res(t):
    """(operation, argument values) of an opaque call result"""
    if t.op == "app":
        return last(t.args[0]), t.args[1]
    if t.op == "ret":
        return last(t.args[0]), t.args[2]
    return None, ()


def is_res(t, names):
    n, a = res(t)
    return n in names


def chain(t, base):
    """operations applied to a cache since base: [(operation, cache before, arguments)]"""
    out = []
    while t is not base:
        if t.op != "upd":
            return None
        out.append((last(t.args[0]), t.args[2], t.args[3]))
        t = t.args[2]
    return out[::-1]


def subterms_of(f, more):
    s = {}
    for l in list(f.lits) + list(more):
        for t in subterms(l):
            s[t.id] = t
    return [s[k] for k in sorted(s)]


LOOK = ("get", "get_mut", "peek", "peek_mut", "get_key_value")
HAS = ("contains", "contains_key")
TOUCH = ("get", "get_mut", "promote", "get_key_value")
INS = ("push", "put", "set", "insert")
EVICT = ("pop_lru", "evict_and_return_key", "evict_and_return_value", "evict")
IDLE = ("peek_mut", "iter_mut", "peek_lru")


class Cache:
    """the symbolic effect of a path on one cache"""

    def __init__(self, f, base, end, extra=()):
        self.f, self.base, self.end = f, base, end
        self.terms = [t for t in subterms_of(f, (end,) + tuple(extra))]
        ch = chain(end, base)
        self.ops = None
        if ch is None:
            return
        ops, at = [], {base: 0}
        cur = base
        for n, old, a in ch:
            k = a[1] if len(a) > 1 else None
            if n in IDLE:
                pass
            elif n in TOUCH:
                r = [t for t in self.terms if is_res(t, (n,)) and res(t)[1][:1] == (old,) and res(t)[1][1:2] == (k,)]
                d = None
                for t in r:
                    d = f.decide(is_some(t)) if d is None else d
                here = ops and ops[-1][0] == "insert" and f.same(ops[-1][1], k)
                if here and end.args[0].startswith("lru::"):
                    continue            # already the most recently used entry
                if d is None:
                    d = True if here else self.member(k) if self.still(old) else None
                if d is None:
                    ops = None
                    break
                if d:
                    ops.append(("touch", k))
            elif n in EVICT:
                ops.append(("evict", n, old))
            elif n in INS:
                ops.append(("insert", a[1], a[2] if len(a) > 2 else None))
            else:
                ops.append((n,) + tuple(a[1:]))
        self.ops = ops

    def still(self, t):
        """the cache with the same keys as at the start"""
        ch = chain(t, self.base)
        return ch is not None and all(n in TOUCH + IDLE for n, _, _ in ch)

    def looks(self, k):
        return [t for t in self.terms if is_res(t, LOOK) and len(res(t)[1]) > 1 and self.still(res(t)[1][0]) and self.f.same(res(t)[1][1], k)]

    def member(self, k):
        for t in self.looks(k):
            d = self.f.decide(is_some(t))
            if d is not None:
                return d
        for t in self.terms:
            if is_res(t, HAS) and len(res(t)[1]) > 1 and self.still(res(t)[1][0]) and self.f.same(res(t)[1][1], k):
                d = self.f.decide(t)
                if d is not None:
                    return d
        return None

    def full(self, size):
        """whether the cache holds as many entries as it may"""
        for t in self.terms:
            n, a = res(t)
            if n == "len" and a and self.still(a[0]):
                for l, v in ((eq(t, size), True), (lt(t, size), False)):
                    d = self.f.decide(l)
                    if d is not None:
                        return v if d else not v
        return None

    def value_of(self, t, k):
        """t is the value stored for k"""
        t = und(t)
        return any(t is proj(q, "Some.0") or und(t) is und(proj(q, "Some.0")) for q in self.looks(k))

    def evicted(self, t, old, part):
        """t is the key / the value of the entry evicted from the cache old"""
        t = und(t)
        for x in self.terms + list(subterms(t)):
            n, a = res(x)
            if a and a[0] is old:
                r = proj(x, "Some.0")
                if n == "pop_lru" and t is proj(r, "0" if part == "key" else "1"):
                    return True
                if n == "peek_lru" and t is und(proj(r, "0" if part == "key" else "1")):
                    return True
                if n == "evict_and_return_" + part and t is r:
                    return True
        return False


def inner(P, ty, path=()):
    """the path to the library cache below newtype wrappers, and its type"""
    while ty[0] == "adt" and ty[1].startswith("omnipaxos::") and ty[1] in P.adts:
        vs = list(P.adts[ty[1]]["vars"].values())
        if len(vs) != 1 or len(vs[0][1]) != 1:
            break
        n, t, _ = vs[0][1][0]
        m = dict(zip(gens(P, ty[1]), ty[2]))
        import mir
        ty = mir.subst(t, m)
        path = path + (n,)
    return path, ty


def gens(P, adt_):
    return [g if isinstance(g, str) else g[0] for g in P.adts[adt_]["gen"]]


class Roles:
    """which field of a cache implementation plays which part, by type"""

    def __init__(self, P, ty):
        self.path = ty[1]
        K, V = ty[2][0], ty[2][1]
        g = gens(P, ty[1])
        if len(P.adts[ty[1]]["vars"]) != 1:
            raise Anchor("a cache implementation is not a struct")
        import mir
        m = dict(zip(g, ty[2]))
        self.enc = self.dec = self.code = self.size = None
        for n, t, _ in list(P.adts[ty[1]]["vars"].values())[0][1]:
            t = mir.subst(t, m)
            p, it = inner(P, t, (n,))
            if it[0] == "adt" and it[2][:2] == (K, V):
                self.enc = p
            elif it[0] == "adt" and it[2][:2] == (V, K):
                self.dec = p
            elif t == V:
                self.code = (n,)
            elif t == ("prim", "usize"):
                self.size = (n,)
        if None in (self.enc, self.dec, self.code, self.size):
            raise Anchor("the parts of %s are not recognised" % last(ty[1]))


def cut_caches(P):
    """the library caches that live in the repository are analysed on their own"""
    ks = {f.key for f in P.fns.values() if f.self_ty is not None and f.self_ty[0] == "adt" and last(f.self_ty[1]) == "LFUCache" and f.kind != "Closure" and f.name in ("get", "get_mut", "set", "len", "contains", "evict", "evict_and_return_key", "evict_and_return_value", "remove", "is_empty", "iter")}
    return lambda fn: fn.key in ks


def succ(t, code0):
    """code0 + 1"""
    if t is add(code0, c(1)):
        return True
    if t.op == "app" and last(t.args[0]) == "add" and len(t.args[1]) == 2:
        a = list(t.args[1])
        return any(x is code0 and is_res(y, ("one",)) for x, y in (a, a[::-1]))
    return False


def field_cache(P, ty, items):
    nm = last(ty[1])
    X = Plain(nm)
    R = Roles(P, ty)
    sp_ = {k: P.fns[v] for k, v in items.items() if v in P.fns}
    if not all(k in sp_ for k in ("new", "try_encode", "decode")):
        raise Anchor("an operation of %s is not found" % nm)
    for k in ("try_encode", "decode"):
        r = Run(P, sp_[k], cut=cut_caches(P))
        X.stats.append(r.stats())
        for st, ret in r.outs:
            step(X, R, r, st, ret, k == "try_encode", sp_[k])
    r = Run(P, sp_["new"])
    X.ob("new", bool(r.outs), nm + "possible", "no cache can be created: every path of its constructor panics", None, None, sp_["new"].span)
    X.stats.append(r.stats())
    for st, ret in r.outs:
        size = T("sym", sp_["new"].names.get(1, "arg0"))
        f = st.facts
        good = all(fresh(f, get(ret, p), size) for p in (R.enc, R.dec))
        X.ob("new", good, nm + "cap", "encoder and decoder are not created empty with the configured capacity", None, f, sp_["new"].span)
        X.ob("new", get(ret, R.size) is size and get(ret, R.code).op in ("default", "c"), nm + "init", "the cache does not start with the configured size and the first code", None, f, sp_["new"].span)
    snapshot(X, P, R, ty, nm)
    return X.result()


def fresh(f, t, size, empty_only=False):
    """an empty library cache that can hold size entries"""
    n, a = res(t)
    if n == "unbounded":
        return True
    if n == "new" and len(a) == 1:
        q = und(a[0])
        z = [x for x in subterms(q) if is_res(x, ("new", "new_unchecked"))]
        return q is size or any(res(x)[1] == (size,) for x in z)
    if t.op == "adt" and last(t.args[0]) == "LFUCache":
        return (proj(t, "capacity") is size or f.decide(lt(proj(t, "capacity"), size)) is False) and all(is_res(proj(t, k), ("new", "default", "with_capacity")) or proj(t, k).op == "default" for k in ("values", "frequency_bin"))
    return False


def step(X, R, r, st, ret, encode, fn):
    """one encoding or decoding step against the reference step"""
    f = st.facts
    me0 = T("sym", "self")
    me = st.mem.get("self", me0)
    arg = T("sym", fn.names.get(2, "arg1"))
    size0, code0, size1, code1 = get(me0, R.size), get(me0, R.code), get(me, R.size), get(me, R.code)
    mine, other = (R.enc, R.dec) if encode else (R.dec, R.enc)
    rule = "encode" if encode else "decode"
    w = "encoding" if encode else "decoding"
    X.ob(rule, get(me, other) is get(me0, other) and size1 is size0, rule + "other", "%s changes the %s or the size" % (w, "decoder" if encode else "encoder"), None, f, fn.span)
    C = Cache(f, get(me0, mine), get(me, mine), (ret, code1))
    if C.ops is None:
        X.ob(rule, False, rule + "unknown", "the effect of %s on its cache is not determined on some path" % w, None, f, fn.span)
        return
    ME = "omnipaxos::unicache::MaybeEncoded"
    if encode:
        hit = C.member(arg)
        key = arg
        if hit is None:
            X.ob(rule, False, rule + "look", "a field is encoded without looking it up", None, f, fn.span)
            return
    else:
        hit = f.decide(isv(arg, "Encoded", ME))
        if hit is None:
            X.ob(rule, False, rule + "look", "decoding does not distinguish codes from values", None, f, fn.span)
            return
        key = proj(arg, "Encoded.0" if hit else "NotEncoded.0")
    show_ops = ", ".join(o[0] for o in C.ops) or "nothing"
    if hit:
        X.ob(rule, len(C.ops) == 1 and C.ops[0][0] == "touch" and f.same(C.ops[0][1], key) and code1 is code0, rule + "hit", "a hit does not count as exactly one use of the entry (cache operations: %s)" % show_ops, None, f, fn.span)
        if encode:
            X.ob(rule, ret.op == "adt" and ret.args[1] == "Encoded" and C.value_of(proj(ret, "Encoded.0"), key), rule + "ret", "a hit does not yield the code of the field", None, f, fn.span)
        else:
            X.ob(rule, C.value_of(ret, key), rule + "ret", "a code is not decoded to the value stored for it", None, f, fn.span)
        return
    if encode:
        X.ob(rule, ret.op == "adt" and ret.args[1] == "NotEncoded" and f.same(proj(ret, "NotEncoded.0"), arg), rule + "miss-ret", "a miss does not yield the field itself", None, f, fn.span)
    else:
        X.ob(rule, f.same(ret, key), rule + "miss-ret", "a plain value is not decoded to itself", None, f, fn.span)
    full = C.full(size0)
    if full is None:
        X.ob(rule, False, rule + "full", "a miss does not distinguish whether the cache holds `size` entries (cache operations: %s)" % show_ops, None, f, fn.span)
        return
    kinds = [o[0] for o in C.ops]
    if full:
        good = kinds == ["evict", "insert"] and code1 is code0
        if good:
            ev, ins = C.ops
            k, v = (ins[1], ins[2])
            a, b = (k, v) if encode else (v, k)
            good = f.same(a, key) and b is not None and C.evicted(b, ev[2], "value" if encode else "key")
        X.ob(rule, good, rule + "evict", "a miss in a full cache does not replace the evicted entry by the field under the evicted code (cache operations: %s)" % show_ops, None, f, fn.span)
    else:
        good = kinds == ["insert"]
        if good:
            k, v = C.ops[0][1], C.ops[0][2]
            a, b = (k, v) if encode else (v, k)
            good = f.same(a, key) and b is not None and succ(b, code0) and succ(code1, code0)
        X.ob(rule, good, rule + "add", "a miss in a cache with room does not add the field under the next code and remember that code (cache operations: %s)" % show_ops, None, f, fn.span)


# ---- the snapshot sent to followers ---------------------------------------------------------
def loops_in(st):
    return [e.d[0] for e in st.events() if e.k == "loop"]


def filled(st, t):
    """(source iterator, value before the loop, operation, arguments with the element) of a collection filled by one unconditional operation per element"""
    if t.op == "final":
        phi = t.args[2]
    elif t.op == "phi":
        phi = t
    else:
        return None
    lid, key = phi.args
    for lp in loops_in(st):
        if lp.lid != lid:
            continue
        if len(lp.iters) != 1 or lp.skips:
            return None
        u = lp.iters[0].upd.get(key)
        if u is None or u.op != "upd" or u.args[2] is not phi:
            return None
        return lp, lp.init.get(key), last(u.args[0]), u.args[3]
    return None


def complete(st, lp):
    """on this path the loop has run to its end"""
    return not lp.early or (lp.it is not None and lnot(T("any", models.canon_src(lp.it), frozenset(E.canon_clause(d, lp.lid) for d in lp.early))) in st.facts.lits)


def src_of(it):
    """(collection, reversed) an iterator runs through as a whole"""
    rev = False
    while True:
        if it.op == "it":
            it = it.args[0]
        elif it.op == "rev":
            rev, it = not rev, it.args[0]
        elif is_res(it, ("iter",)) and len(res(it)[1]) == 1:
            return res(it)[1][0], rev
        else:
            return None, rev


def snapshot(X, P, R, ty, nm):
    fn = [f for f in P.fns.values() if f.name == "clone" and f.self_ty is not None and f.self_ty[0] == "adt" and f.self_ty[1] == ty[1]]
    if len(fn) != 1:
        raise Anchor("%s has no clone" % nm)
    fn = fn[0]
    r = Run(P, fn)
    X.stats.append(r.stats())
    me0 = T("sym", "self")
    e0, size0 = get(me0, R.enc), get(me0, R.size)
    for st, ret in r.outs:
        f = st.facts
        X.ob("snapshot", get(ret, R.size) is size0 and get(ret, R.code) is get(me0, R.code), nm + "copy", "the cache sent to followers has another size or next code", None, f, fn.span)
        d = get(ret, R.dec)
        why = mirrored(P, st, f, d, e0, size0)
        X.ob("snapshot", why is None, nm + "dec", "the decoder sent to followers does not hold the encoder's entries in the encoder's eviction order: %s" % why, None, f, fn.span)


def mirrored(P, st, f, d, e0, size0):
    """None if d maps back the entries of the encoder e0, with the same eviction order"""
    if d.op == "adt" and last(d.args[0]) == "LFUCache":
        cap, mn = proj(d, "capacity"), proj(d, "min_frequency")
        if not (cap is proj(e0, "capacity") or cap is size0):
            return "its capacity differs"
        if mn is not proj(e0, "min_frequency"):
            return "the lowest frequency differs"
        v, b = proj(d, "values"), proj(d, "frequency_bin")
        x = per_elem(st, f, v, "values", e0)
        if x is None:
            return "its values are not made from all of the encoder's values"
        src, y = x
        key, val = und(proj(src, "0")), und(proj(src, "1"))
        if y.op != "tup" or not same_(und(proj(y, "0")), proj_d(src, "1", "value")) or not same_(und(proj(proj(y, "1"), "value")), key) or not same_(proj(proj(y, "1"), "count"), proj_d(src, "1", "count")):
            return "an entry is not code -> (field, same frequency)"
        x = per_elem(st, f, b, "frequency_bin", e0)
        if x is None:
            return "its frequencies are not made from all of the encoder's"
        src, y = x
        if y.op != "tup" or not same_(und(proj(y, "0")), und(proj(src, "0"))):
            return "an entry gets another frequency"
        s = proj(y, "1")
        if s.op == "adt":
            s = s.args[2][0][1]
        if s.op != "coll" or s.args[1].op != "comp":
            return "the order within a frequency is not kept"
        w = s.args[1]
        base, cl = w.args
        if not (is_res(base, ("iter",)) and len(cl) == 1):
            return "the order within a frequency is not kept"
        (g, el), = cl
        k = T("belem", base)
        t = und(el)
        if g or not (t.op == "f" and t.args[1] == "value"):
            return "the codes within a frequency are not those of its fields"
        q = und(t.args[0])
        ok_ = any((is_res(z, ("index", "get", "get_key_value")) and same_(und(res(z)[1][1]), und(k)) and res(z)[1][0] is proj(e0, "values")) for z in subterms(q))
        if q.op == "at":
            ok_ = ok_ or (q.args[0] is proj(e0, "values") and same_(und(q.args[1]), und(k)))
        return None if ok_ else "the codes within a frequency are not those of its fields"
    x = filled(st, d)
    if x is None:
        return "it is not filled with one entry per encoder entry"
    lp, init, op, a = x
    if lp.it is None or not complete(st, lp):
        return "the loop over the encoder's entries may stop early"
    src, rev = src_of(lp.it)
    if src is not e0:
        return "it is not filled from the encoder"
    if not fresh(f, init, size0):
        return "it does not start empty with room for `size` entries"
    if op not in ("push", "put"):
        return "entries are not inserted"
    if any(l.op not in ("not", "lt") or not noise(l, lp.lid) for l in lp.iters[0].delta):
        return "some entries are left out"
    base = lp.it
    while base.op == "it":
        base = base.args[0]
    el = T("elem", base, lp.lid)
    if not (und(a[1]) is und(proj(el, "1")) and und(a[2]) is und(proj(el, "0"))):
        return "an entry is not inserted as code -> field"
    if not rev:
        return "the entries are inserted most recently used first"
    return None


def noise(l, lid):
    return any(t.op in ("done", "pos") and t.args[-1] == lid for t in subterms(l))


def same_(a, b):
    return a is b or (a.op == b.op == "f" and a.args[1] == b.args[1] and same_(und(a.args[0]), und(b.args[0])))


def proj_d(src, k, field):
    return T("f", und(proj(src, k)), field)


def per_elem(st, f, t, field, e0):
    """(bound element, value made of it) when t collects one value per element of the encoder's field"""
    x = filled(st, t)
    if x is not None:
        lp, init, op, a = x
        if lp.it is None or not complete(st, lp) or op != "insert" or len(a) != 3 or not is_res(init, ("new", "default", "with_capacity")) and init.op != "default":
            return None
        if src_of(lp.it)[0] is not proj(e0, field) or any(l.op not in ("not", "lt") or not noise(l, lp.lid) for l in lp.iters[0].delta):
            return None
        base = lp.it
        while base.op == "it":
            base = base.args[0]
        return T("elem", base, lp.lid), tup(a[1:])
    if t.op != "coll" or t.args[1].op != "comp":
        return None
    base, cl = t.args[1].args
    if not (is_res(base, ("iter",)) and res(base)[1] == (proj(e0, field),)) or len(cl) != 1:
        return None
    (g, el), = cl
    return None if g else (T("belem", base), el)


# ---- the LFU cache kept in the repository -----------------------------------------------------
def lfu(P):
    X = Plain("LFUCache")
    fns = {f.name: f for f in P.fns.values() if f.self_ty is not None and f.self_ty[0] == "adt" and last(f.self_ty[1]) == "LFUCache" and f.kind != "Closure" and not f.implof}
    for n in ("get", "get_mut", "set", "evict_and_return_key", "evict_and_return_value", "len"):
        if n not in fns:
            if n == "get_mut":
                continue
            raise Anchor("LFUCache::%s not found" % n)
        fn = fns[n]
        r = Run(P, fn)
        X.stats.append(r.stats())
        for st, ret in r.outs:
            M = Lfu(st)
            f = st.facts
            if M.bad:
                X.ob("lfu", False, n + "unknown", "LFUCache::%s changes the cache in a way the analysis cannot follow (%s)" % (n, M.bad), None, f, fn.span)
                continue
            why = {"get": got, "get_mut": got, "set": was_set, "evict_and_return_key": evicted, "evict_and_return_value": evicted, "len": length}[n](M, f, ret, fn, n)
            X.ob("lfu", why is None, n, "LFUCache::%s: %s" % (n, why), None, f, fn.span)
    return X.result()


class Lfu:
    """mutations of the two maps of an LFU cache on one path"""

    def __init__(self, st):
        self.me0 = T("sym", "self")
        self.me = st.mem.get("self", self.me0)
        self.bad = None
        self.mut = []
        self.st = st
        for e, loops in E.flatten_events(st.events()):
            if loops or e.k == "loop":
                self.bad = "a loop"
            elif e.k == "ext":
                n, a = e.d[0], list(e.d[1:])
                if n.startswith("linked_hash_set::"):
                    b = self.bin(a[0]) if a else None
                    k = last(n)
                    if k in ("insert", "remove", "pop_front", "pop_back", "insert_if_absent", "clear", "refresh", "take", "retain"):
                        if b is None:
                            self.bad = "a set that is not a frequency bin"
                        self.mut.append(("bin-" + k, b) + tuple(a[1:]))
                elif "hash::map::" in n or "hash_map" in n:
                    k = last(n)
                    w = self.which(a[0]) if a else None
                    if k in ("insert", "remove", "clear", "retain", "drain", "remove_entry"):
                        if w is None:
                            self.bad = "a map that is not part of the cache"
                        self.mut.append((k, w) + tuple(a[1:]))
            elif e.k in ("w", "upd", "havoc", "push", "app"):
                root, path = e.d[0], e.d[1]
                if e.k == "upd" and e.d[2].op == "upd":
                    continue            # the effect of a library call, handled above
                if root == "self" or (root.op == "sym" if hasattr(root, "op") else False):
                    if path and path[-1] == "min_frequency":
                        self.mut.append(("min", e.d[2]))
                    else:
                        self.bad = "a write to " + ".".join(str(p) for p in path)
                elif isinstance(root, tuple) and root[0] == "D":
                    q = self.value_ref(root[1])
                    if q is None:
                        self.bad = "a write through an unknown reference"
                    else:
                        self.mut.append(("val", q, path, e.d[2]))

    def which(self, t):
        while t.op == "upd":
            t = t.args[2]
        if t.op == "f" and t.args[0] is self.me0:
            return t.args[1]
        return None

    def entry_key(self, t):
        """(map, key) for a reference into a map"""
        t = und(t)
        if t.op == "f" and t.args[1] in ("Some.0", "Occupied.0"):
            t = t.args[0]
        n, a = res(t)
        if n in ("get_mut", "get") and len(a) == 2:
            return self.which(a[0]), a[1]
        if n in ("or_default", "or_insert_with", "or_insert"):
            n2, a2 = res(a[0])
            if n2 == "entry":
                return self.which(a2[0]), a2[1]
        return None

    def bin(self, t):
        while t.op == "upd":
            t = t.args[2]
        if t.op == "f":
            t = t.args[0]
        q = self.entry_key(t)
        return q[1] if q is not None and q[0] == "frequency_bin" else None

    def value_ref(self, t):
        q = self.entry_key(t)
        return q[1] if q is not None and q[0] == "values" else None

    def queries(self, f):
        return [t for t in subterms_of(f, ()) if res(t)[0] is not None]


def contradicts(M, f, key):
    """the path assumes the key both present and absent although no entry comes or goes on it"""
    if any(m[0] in ("insert", "remove") for m in M.mut):
        return False
    return len(set(knowns(M, f, key))) > 1


def known(M, f, key):
    for d in knowns(M, f, key):
        return d
    return None


def knowns(M, f, key):
    for t in M.queries(f):
        n, a = res(t)
        if len(a) == 2 and M.which(a[0]) == "values" and f.same(a[1], key):
            if n in ("get", "get_mut"):
                d = f.decide(is_some(t))
            elif n == "contains_key":
                d = f.decide(t)
            else:
                continue
            if d is not None:
                yield d


def count_of(M, t, key):
    t = und(t)
    return t.op == "f" and t.args[1] == "count" and M.value_ref(t.args[0]) is not None and M.value_ref(t.args[0]) is key


def got(M, f, ret, fn, n):
    key = T("sym", fn.names.get(2, "arg1"))
    if M.mut == [] and f.decide(is_none(ret)) is True:
        return None if known(M, f, key) is not True else "an entry that is present is not found"
    if contradicts(M, f, key):
        return None
    hit = known(M, f, key)
    if hit is None:
        return "a key is not looked up"
    if not hit:
        return None if not M.mut and f.decide(is_some(ret)) is not True else "a miss changes the cache"
    v = und(proj(ret, "Some.0"))
    if not (v.op == "f" and v.args[1] == "value" and M.value_ref(v.args[0]) is not None and f.same(M.value_ref(v.args[0]), key)):
        return "the value returned is not the one stored for the key"
    rem = [m for m in M.mut if m[0] == "bin-remove"]
    ins = [m for m in M.mut if m[0] == "bin-insert"]
    val = [m for m in M.mut if m[0] == "val"]
    mn = [m for m in M.mut if m[0] == "min"]
    if len(M.mut) != len(rem) + len(ins) + len(val) + len(mn) or (len(rem), len(ins), len(val)) != (1, 1, 1) or len(mn) > 1:
        return "a use does not move the key from one frequency to the next"
    old = rem[0][1]
    if not count_of(M, old, key) or not f.same(und(rem[0][2]), key):
        return "the key is not taken out of its frequency"
    if not (f.same(ins[0][1], add(old, c(1))) and f.same(und(ins[0][2]), key)) or M.mut.index(ins[0]) < M.mut.index(rem[0]):
        return "the key is not moved to the next frequency"
    if not (val[0][1] is key or f.same(val[0][1], key)) or val[0][2][-1:] != ("count",) or not f.same(val[0][3], add(old, c(1))):
        return "the use count is not increased by one"
    mf = proj(M.me0, "min_frequency")
    empty = None
    for t in M.queries(f):
        q, a = res(t)
        if q in ("is_empty", "len") and len(a) == 1 and a[0].op == "upd" and last(a[0].args[0]) == "remove" and M.bin(a[0]) is old:
            d = f.decide(t if q == "is_empty" else eq(t, c(0)))
            empty = d if empty is None else empty
    at = f.decide(eq(old, mf))
    up = at is True and empty is True
    if mn:
        return None if up and (f.same(mn[0][1], add(mf, c(1))) or f.same(mn[0][1], add(old, c(1)))) else "the lowest frequency is changed although entries with it are left"
    return None if at is False or empty is False else "the lowest frequency is not increased when its last entry leaves"


def popped(M, f, mut):
    """the key taken off the front of the lowest frequency, given its two mutations"""
    if len(mut) != 2 or mut[0][0] != "bin-pop_front" or mut[1][0] != "remove" or mut[1][1] != "values":
        return None
    if not f.same(mut[0][1], proj(M.me0, "min_frequency")):
        return None
    k = und(mut[1][2])
    if k.op == "f" and k.args[1] == "Some.0" and is_res(k.args[0], ("pop_front",)):
        b = M.bin(res(k.args[0])[1][0])
        if b is not None and f.same(b, mut[0][1]):
            return k
    return None


def evicted(M, f, ret, fn, n):
    if not M.mut:
        return None if f.decide(is_some(ret)) is not True else "nothing is removed"
    k = popped(M, f, M.mut)
    if k is None:
        return "the entry removed is not the first one of the lowest frequency"
    v = und(proj(ret, "Some.0"))
    if n.endswith("_key"):
        return None if f.decide(is_some(ret)) is not False and v is k else "the key returned is not that of the entry removed"
    if v.op == "f" and v.args[1] == "value":
        q = und(v.args[0])
        if q.op == "f" and q.args[1] == "Some.0" and is_res(q.args[0], ("remove",)) and und(res(q.args[0])[1][1]) is k:
            return None
    if v.op == "f" and is_none(ret) in f.lits:
        return None
    return "the value returned is not that of the entry removed" if f.decide(is_none(ret)) is not True else None


def was_set(M, f, ret, fn, n):
    key, val = T("sym", fn.names.get(2, "arg1")), T("sym", fn.names.get(3, "arg2"))
    if True in knowns(M, f, key):
        return None                     # never used by the caches: they only set keys that are absent
    mut = list(M.mut)
    if mut and mut[0][0] == "bin-pop_front":
        if popped(M, f, mut[:2]) is None:
            return "the entry removed to make room is not the first one of the lowest frequency"
        full = None
        for t in M.queries(f):
            q, a = res(t)
            if q == "len" and len(a) == 1 and M.which(a[0]) == "values":
                full = f.decide(lt(t, proj(M.me0, "capacity")))
        if full is not False:
            return "an entry is removed although there is room"
        mut = mut[2:]
    ins = [m for m in mut if m[0] == "insert"]
    b = [m for m in mut if m[0] == "bin-insert"]
    mn = [m for m in mut if m[0] == "min"]
    if len(mut) != 3 or (len(ins), len(b), len(mn)) != (1, 1, 1):
        return "a new entry is not added to the values and to one frequency"
    i = ins[0]
    if i[1] != "values" or not f.same(und(i[2]), key) or not f.same(proj(i[3], "value"), val) or not f.same(proj(i[3], "count"), c(1)):
        return "a new entry is not stored with its value and one use"
    if not (f.same(b[0][1], c(1)) and f.same(und(b[0][2]), key)):
        return "a new entry does not start at frequency one"
    return None if f.same(mn[0][1], c(1)) else "the lowest frequency is not one after a new entry"


def length(M, f, ret, fn, n):
    q, a = res(ret)
    return None if not M.mut and q == "len" and len(a) == 1 and M.which(a[0]) == "values" else "the length is not the number of values"


# ---- serialisation -------------------------------------------------------------------------
def wire(P):
    X = Plain("wire format")
    pre = "omnipaxos::unicache::"
    # structs that are sent: every field is written
    sers = [f for f in P.fns.values() if f.name == "serialize" and f.key.startswith(pre) and f.self_ty is not None and f.self_ty[0] == "adt" and f.kind != "Closure"]
    for fn in sers:
        a = fn.self_ty[1]
        nm = last(a)
        r = Run(P, fn)
        X.stats.append(r.stats())
        if fn.derived:
            vs = P.adts[a]["vars"]
            if len(vs) != 1:
                continue
            want = [n for n, t, _ in list(vs.values())[0][1]]
            for st, ret in r.outs:
                if not is_res(ret, ("end",)):
                    continue
                got_ = [e.d[3] for e, l in E.flatten_events(st.events()) if e.k == "ext" and last(e.d[0]) == "serialize_field"]
                miss = [n for n in want if not any(g is proj(T("sym", "self"), n) for g in got_)]
                X.ob("wire", not miss, nm, "%s is sent without its %s" % (nm, ", ".join(miss)), None, st.facts, fn.span)
            continue
        oks = 0
        for st, ret in r.outs:
            if not is_res(ret, ("end",)):
                continue
            oks += 1
            x = filled(st, res(ret)[1][0])
            why = None
            if x is None:
                why = "not one element is written per entry"
            else:
                lp, init, op, arg = x
                src, rev = src_of(lp.it) if lp.it is not None else (None, False)
                base = lp.it
                while base is not None and base.op == "it":
                    base = base.args[0]
                if not complete(st, lp) or src is None or src is not proj(T("sym", "self"), "0"):
                    why = "not all entries are written"
                elif op != "serialize_element" or und(arg[1]) is not und(T("elem", base, lp.lid)):
                    why = "an entry is not written as it is"
                elif rev != (nm == "LruWrapper"):
                    why = "entries are written in the reverse of the order in which they are read back"
                elif any(not noise(l, lp.lid) and not any(is_res(t, ("serialize_element",)) for t in subterms(l)) for l in lp.iters[0].delta):
                    why = "some entries are left out"
            X.ob("wire", why is None, nm + "w", "%s: %s" % (nm, why), None, st.facts, fn.span)
        X.ob("wire", oks > 0, nm + "any", "%s is never written" % nm, None, None, fn.span)
    vis = [f for f in P.fns.values() if f.name == "visit_seq" and f.key.startswith(pre) and not f.derived]
    for fn in vis:
        nm = last(fn.self_ty[1])
        r = Run(P, fn)
        X.stats.append(r.stats())
        oks = 0
        for st, ret in r.outs:
            if not (ret.op == "adt" and ret.args[1] == "Ok"):
                continue
            oks += 1
            t = proj(ret, "Ok.0")
            if t.op == "adt" and len(t.args[2]) == 1:
                t = t.args[2][0][1]
            x = filled(st, t)
            why = None
            if x is None:
                why = "not one entry is inserted per element"
            else:
                lp, init, op, a = x
                nx = [q for q in subterms(T("tup", tuple(a))) if is_res(q, ("next_element",))]
                el = proj(proj(nx[0], "Ok.0"), "Some.0") if nx else None
                if not nx or len(set(q.id for q in nx)) != 1:
                    why = "the entry inserted is not the element read"
                elif any(not any(is_res(q, ("next_element",)) for q in subterms(l)) for l in lp.iters[0].delta):
                    why = "some elements are left out"
                elif len(a) == 3 and not (a[1] is proj(el, "0") and a[2] is proj(el, "1")):
                    why = "key and value are not those read"
                elif len(a) == 2 and a[1] is not el:
                    why = "the entry inserted is not the element read"
                elif op not in ("push", "put", "insert"):
                    why = "elements are not inserted at the end"
                elif len(a) == 3 and not is_res(init, ("unbounded",)):
                    why = "the capacity of the cache read is not that of the cache written (it is taken from the number of elements)"
                elif not is_res(init, ("unbounded", "new", "default", "with_capacity", "with_hasher", "with_capacity_and_hasher")):
                    why = "it does not start empty"
                elif not stops_at_end(st, nx[0]):
                    why = "it stops before the last element"
            X.ob("wire", why is None, nm + "r", "%s: %s" % (nm, why), None, st.facts, fn.span)
        X.ob("wire", oks > 0, nm + "any", "%s is never read" % nm, None, None, fn.span)
    if not sers or not vis:
        raise Anchor("the wire format of the caches is not found")
    return X.result()


def stops_at_end(st, nx):
    return st.facts.decide(is_none(proj(nx, "Ok.0"))) is True


# ---- the derive macro ------------------------------------------------------------------------
def derive(P):
    X = Plain("derived cache")
    ims = [(ty, items) for tr, ty, _, items in P.impls if tr == UC and ty[0] == "adt"]
    if not ims:
        raise Anchor("the derive macro does not implement UniCache")
    fc = {}
    for tr, ty, _, items in P.impls:
        if tr == FC:
            for k, v in items.items():
                fc[v] = k
    for ty, items in ims:
        nm = last(ty[1])
        enc, dec = P.fns[items["try_encode"]], P.fns[items["decode"]]
        cut = lambda fn: fn.key in fc
        re_, rd = Run(P, enc, cut=cut), Run(P, dec, cut=cut)
        X.stats += [re_.stats(), rd.stats()]
        entry = T("sym", enc.names.get(2, "arg1"))
        caches = [n for n, t, _ in list(P.adts[ty[1]]["vars"].values())[0][1]]
        for st, ret in re_.outs:
            f = st.facts
            used = [e.d[2][0] for e, l in E.flatten_events(st.events()) if e.k == "call"]
            X.ob("derive", len(used) == len(set(u.id for u in used)) == len(caches), nm + "once", "encoding an entry does not use every field's cache exactly once", None, f, enc.span)
            for st2, ret2 in rd.outs:
                used2 = [e.d[2][0] for e, l in E.flatten_events(st2.events()) if e.k == "call"]
                X.ob("derive", {u.id for u in used} == {u.id for u in used2} and len(used2) == len(used), nm + "same", "encoding and decoding an entry do not use the same caches", None, f, dec.span)
                arg = T("sym", dec.names.get(2, "arg1"))
                bad = []
                for fname, _ in (ret2.args[2] if ret2.op == "adt" else ()):
                    v = decoded(proj(ret2, fname), arg, ret)
                    if v is None or v is not proj(entry, fname):
                        bad.append(fname)
                X.ob("derive", ret2.op == "adt" and not bad, nm + "inv", "decoding an encoded entry does not give back its field %s" % ", ".join(bad), None, f, dec.span)
    return X.result()


def decoded(t, arg, enc):
    """the original field that decoding turns the encoded tuple back into"""
    if t.op == "ret" and last(t.args[0]) == "decode":
        cache, v = t.args[2]
        p = path_in(v, arg)
        if p is None:
            return None
        e = get(enc, p)
        if e.op == "ret" and last(e.args[0]) == "try_encode" and e.args[2][0] is cache:
            return und(e.args[2][1])
        return None
    p = path_in(t, arg)
    return get(enc, p) if p is not None else None


def path_in(t, root):
    p = ()
    while t is not root:
        if t.op != "f":
            return None
        p, t = (t.args[1],) + p, t.args[0]
    return p


def start(P):
    """the states in which a server starts"""
    X = Plain("SequencePaxos::with")
    sh = Shape(P)
    fn = method(P, "SequencePaxos", "with")
    r = Run(P, fn)
    X.stats.append(r.stats())
    n = 0
    for st, ret in r.outs:
        if storage_failed(st.facts):
            continue
        n += 1
        if "pid" in sh.cache:
            X.ob("encoded-batch", sh.c(ret, "pid") is proj(ret, "pid"), "pid", "the cache of a server knows it by another id", None, st.facts, fn.span)
        X.ob("encoded-batch", seq(sh.c(ret, "batched_processed_by_leader"), st.facts) == [] and seq(sh.c(ret, "batched_entries"), st.facts) == [], "empty", "a server starts with entries in its batch", None, st.facts, fn.span)
        X.ob("encoded-batch", st.facts.decide(isv(sh.role(ret), "Follower", ROLE)) is True, "role", "a server does not start as a follower", None, st.facts, fn.span)
    if not n:
        raise Anchor("no way to start a server")
    return X.result()


# ---- Sequence Paxos -----------------------------------------------------------------------------
def proto(X):
    sh, me0, kind, name = X.sh, X.me0, X.kind, X.fn.name
    ss0, b0, p0, u0 = (sh.c(me0, k) for k in ("stopsign", "batched_entries", "batched_processed_by_leader", "unicache"))
    B0 = proj(me0, "buffered_proposals")
    X.inv.rules.append(([is_some(ss0)], eq(vlen(b0), c(0))))                                   # C16
    X.inv.rules.append(([isv(sh.phase(me0), "Prepare", PHASE)], eq(vlen(b0), c(0))))            # C16
    X.inv.rules.append(([X.leader0], eq(vlen(p0), vlen(b0))))                                   # shown below
    n0 = sh.c(me0, "promise")
    X.inv.rules.append(([X.leader0], eq(proj(n0, "pid"), proj(me0, "pid"))))                    # C02, C21
    if "pid" in sh.cache:
        X.inv.rules.append(([], eq(sh.c(me0, "pid"), proj(me0, "pid"))))                        # shown below
    if kind in ("Prepare", "AcceptSync", "AcceptDecide", "Decide", "AcceptStopSign"):
        X.inv.rules.append(([eq(proj(X.inc, "n"), n0)], lnot(X.leader0)))
        X.inv.rules.append(([eq(proj(X.inc, "n"), n0)], lnot(eq(proj(n0, "pid"), proj(me0, "pid")))))
    to_promised = promised_followers(X)

    def encodes(P_, B_, f):
        """P_ = the encodings, one per element and in order, of the entries B_"""
        if len(P_) != len(B_):
            return False
        for (k, p), (j, b) in zip(P_, B_):
            if k != j:
                return False
            if k == "1":
                if not (p.op == "app" and p.args[0] == ENC and f.same(und(p.args[1][1]), und(b))):
                    return False
            else:
                if p.op != "comp" or not (p.args[0] is b or f.same(p.args[0], b)) or len(p.args[1]) != 1:
                    return False
                (g, el), = p.args[1]
                if g or not (el.op == "app" and el.args[0] == ENC and und(el.args[1][1]) is und(T("belem", p.args[0]))):
                    return False
        return True

    def threaded(st, u1, f):
        """every encoding and decoding step used the cache left by the one before: (number of steps, last cache)"""
        ok_, enc, dec = True, 0, 0
        for e, loops in E.flatten_events(st.events()):
            if e.k == "ext" and e.d[0] in (ENC, DEC):
                enc, dec = enc + (e.d[0] == ENC), dec + (e.d[0] == DEC)
        return enc, dec

    def ex(st, ret, D):
        f = X.inv.strengthen(st.facts)
        if f is None or storage_failed(f) or any(f.decide(ok_of(r)) is not True for r in D.res):
            return
        for l in (is_some(ss0), is_none(ss0)):
            g = X.assume(f, l)
            for m in (X.leader0, lnot(X.leader0)):
                h = X.assume(g, m) if g is not None else None
                if h is not None:
                    one(st, ret, D, h, m is X.leader0)

    def stream(st, f, path, end):
        """everything that went through a queue on this path"""
        out = []
        for e in st.events():
            if e.k == "w" and e.d[0] == "self" and tuple(e.d[1]) == path and seq(e.d[2], f) == []:
                out += seq(get(e.env, path), f)
        return cat(out, seq(end, f))

    def one(st, ret, D, f, lead):
        me = X.final(st)
        u1, p1, b1 = (sh.c(me, k) for k in ("unicache", "batched_processed_by_leader", "batched_entries"))
        enc, dec = threaded(st, u1, f)
        role1, phase1 = sh.role(me), sh.phase(me)
        lead1 = f.decide(isv(role1, "Leader", ROLE))
        W = written(X, st, f)
        have, hp = seq(b0, f), seq(p0, f)
        sp1 = seq(p1, f)
        if "pid" in sh.cache:
            X.ob("cache-used", sh.c(me, "pid") is sh.c(me0, "pid") and proj(me, "pid") is proj(me0, "pid"), "pid", "a server changes its id", None, f, X.fn.span)
        # ---- the cache
        fresh_ = u1.op == "app" and u1.args[0] == NEW
        sync = kind == "AcceptSync" and u1 is proj(X.inc, "unicache")
        if not (u1 is u0 or fresh_ or sync or u1.op in ("upd", "final", "phi")):
            X.ob("cache-used", False, "other", "the cache is replaced by something other than a new one or the one sent by the leader (%s)" % show(u1, 5), None, f, X.fn.span)
        if kind == "AcceptSync":
            took = not f.same(proj(me0, "current_seq_num"), proj(me, "current_seq_num")) or W
            acc = f.decide(isv(phase1, "Accept", PHASE)) is True and f.decide(isv(sh.phase(me0), "Prepare", PHASE)) is True
            X.ob("cache-used", (sync if acc else u1 is u0), "sync", "a follower does not adopt the leader's cache exactly when it adopts the leader's log", None, f, X.fn.span)
        if fresh_:
            X.ob("cache-used", lead1 is True and f.decide(isv(phase1, "Prepare", PHASE)) is True and sp1 == [], "reset", "the cache is emptied by a server that does not become a leader", None, f, X.fn.span)
        if f.decide(isv(phase1, "Prepare", PHASE)) is True and lead1 is True and not (lead and f.decide(isv(sh.phase(me0), "Prepare", PHASE)) is True and name != "handle_leader"):
            X.ob("cache-used", fresh_, "new-leader", "a new leader goes on with the cache of a follower", None, f, X.fn.span)
        # ---- decoding
        if kind == "AcceptDecide":
            acc = cat(W or [], seq(b1, f))
            new = acc[len(have):] if acc[:len(have)] == have or same_seq_(acc[:len(have)], have, f) else None
            ents = proj(X.inc, "entries")
            if new is None:
                X.ob("cache-used", False, "append", "the entries appended are not the batch followed by the decoded ones", None, f, X.fn.span)
            elif new == []:
                X.ob("cache-used", (enc, dec) == (0, 0) or f.same(vlen(ents), c(0)), "none", "entries that are not appended are decoded", None, f, X.fn.span)
            else:
                okk = len(new) == 1 and new[0][0] == "*" and new[0][1].op == "comp" and new[0][1].args[0] is ents and len(new[0][1].args[1]) == 1
                if okk:
                    (g, el), = new[0][1].args[1]
                    okk = not g and el.op == "app" and el.args[0] == DEC and el.args[1][1] is T("belem", ents) and loop_threads(st, DEC, el.args[1][0], u0, u1)
                X.ob("cache-used", okk and (enc, dec) == (0, 1), "decode", "the entries appended are not the received ones, decoded once each and in order", None, f, X.fn.span)
            return
        X.ob("cache-used", dec == 0, "only", "entries are decoded other than on AcceptDecide", None, f, X.fn.span)
        if not lead:
            X.ob("cache-used", enc == 0 or kind == "Promise", "enc-role", "a server that is not a leader encodes entries", None, f, X.fn.span)
            if kind is None and name == "handle_leader" and lead1 is not False:
                X.ob("encoded-batch", sp1 == [] and seq(b1, f) == [], "start", "a new leader starts with encoded entries left over", None, f, X.fn.span)
            return
        # ---- the leader's batch and its encoding
        SP_, SB = stream(st, f, sh.cache["batched_processed_by_leader"], p1), stream(st, f, sh.cache["batched_entries"], b1)
        good = len(SP_) >= len(hp) and same_seq_(SP_[:len(hp)], hp, f) and len(SB) >= len(have) and same_seq_(SB[:len(have)], have, f)
        newp, newb = SP_[len(hp):], SB[len(have):]
        good = good and encodes(newp, newb, f)
        X.ob("encoded-batch", good, "stream", "the encoded batch is not the encodings of the batched entries in order (encoded: %s; entries: %s)" % (show_seq(newp), show_seq(newb)), None, f, X.fn.span)
        if newb and good:
            X.ob("encoded-batch", steps(st, newp, u0, u1, f), "thread", "an entry is not encoded with the cache left by the entry before it, or more than once", None, f, X.fn.span)
        else:
            X.ob("encoded-batch", enc == 0 or not newp, "extra", "entries are encoded that are not sent", None, f, X.fn.span)
        if lead1 is not False:
            X.ob("encoded-batch", f.same(vlen(p1), vlen(b1)) or (sp1 == [] and seq(b1, f) == []), "aligned", "batched entries and their encodings get out of step (%s against %s)" % (show_seq(sp1), show_seq(seq(b1, f))), None, f, X.fn.span)
        # ---- what is sent
        sync_ = Cast(X, st, lambda m: m.kind in ("AcceptSync", "?"))
        hits = list(sync_.direct) + [h for fan, acting in sync_.steps for a in acting for h in a.hit]
        for k, m, e in hits:
            uc = proj(m.p, "unicache") if m.p is not None else None
            X.ob("cache-sent", uc is u1 or (uc is not None and f.same(uc, u1)), "which", "AcceptSync does not carry the leader's cache as it is after this step", None, f, X.fn.span)
            X.ob("cache-sent", sp1 == [], "pending", "AcceptSync carries a cache that already reflects entries still to be sent to the follower (%s)" % show_seq(sp1), None, f, X.fn.span)
        L = [isv(sh.phase(me0), "Accept", PHASE), isv(role1, "Leader", ROLE), isv(phase1, "Accept", PHASE)]
        g = f
        for l in L:
            g = X.assume(g, l) if g is not None else None
        if g is None:
            return
        sent = SP_[:len(SP_) - len(sp1)]
        cast = Cast(X, st, lambda m: m.kind in ("AcceptDecide", "?"), lambda p: p[0] in ("AcceptDecide", "?") and p[1] in ("entries", None))

        def content(hit, h, pid, entry):
            k, m, x = hit
            if k == "m":
                return same_seq_(seq(proj(m.p, "entries"), h), sent, h)
            return x.k in ("push", "app") and same_seq_([("1", m[2])] if x.k == "push" else seq(m[2], h), sent, h)
        if sent:
            p = cast.problem(to_promised, content)
            X.ob("shipped", p is None, "ship", "the encodings taken from the batch (%s) are not sent to every promised follower exactly once: %s" % (show_seq(sent), p), None, g, X.fn.span)
        else:
            X.ob("shipped", cast.none() or cast.problem(to_promised, content) is None, "empty", "encoded entries are sent that were not taken from the batch", None, g, X.fn.span)

    X.W.walk(lambda e, D, l: None, ex)


def steps(st, pieces, u0, u1, f):
    """the encodings run the cache through one step per entry: u0 -> u1"""
    u = u0
    for k, p in pieces:
        if k == "1":
            if p.args[1][0] is not u:
                return False
            u = T("upd", ENC, 0, u, p.args[1])
        else:
            (g, el), = p.args[1]
            phi = el.args[1][0]
            v = loop_threads(st, ENC, phi, u, None)
            if not v:
                return False
            u = v
    return u is u1 or (u.op == u1.op == "final" and u.args[0] == u1.args[0] and u.args[2] is u1.args[2])


def loop_threads(st, op, phi, u0, u1):
    """each iteration of the loop applies op once to the cache left by the iteration before; the cache after the loop"""
    if phi.op != "phi":
        return None
    lid, key = phi.args
    for e, loops in E.flatten_events(st.events()):
        if e.k == "loop" and e.d[0].lid == lid:
            lp = e.d[0]
            if lp.early or len(lp.iters) != 1 or lp.skips:
                return None
            u = lp.iters[0].upd.get(key)
            if u is None or not (u.op == "upd" and u.args[0] == op and u.args[2] is phi) or lp.init.get(key) is not u0:
                return None
            fin = T("final", lid, (), phi)
            if u1 is not None and not (u1.op in ("final", "phi") and phi in list(subterms(u1))):
                return None
            return fin
    return None
