"""C27 messages, durable records and configuration survive serialisation"""
from sp import *

CONFIGS = ["main", "uni"]
FLOORS = {"encoded": 80, "decoded-by-position": 60, "decoded-by-name": 60, "variant": 20, "config-key": 6, "nested": 40}
TECHNIQUE = "field-provenance dataflow over the MIR of every Serialize and Deserialize implementation (derived or by hand): the source of each decoded field is matched with what the encoder writes"
NOTE = "every library type with serde impls (messages, ballots, stop-signs, snapshots, configuration), in the main and the unicache configuration; collections of the UniCache are C23's"
ASSUMES = ["the data format returns the values it was given, in the order or under the names it was given them", "serde's implementations for std types and the user's for entries and snapshots are faithful"]
SER, DE = "serde_core::ser::Serialize", "serde_core::de::Deserialize"
LOCAL = ("omnipaxos::", "omnipaxos_storage::")


def last(s):
    return s.split("::")[-1]


def impls(P, tr, name):
    out = {}
    for (t, h), xs in P.impl_idx.items():
        if t.split("::")[0] in ("serde", "serde_core") and last(t) == tr and isinstance(h, str) and h.startswith(LOCAL):
            for sty, derived, items in xs:
                f = P.fns.get(items.get(name))
                if f is not None:
                    out[h] = f
    return out


def jobs(progs):
    out = []
    for cfg in CONFIGS:
        P = progs[cfg]
        ser, de = impls(P, "Serialize", "serialize"), impls(P, "Deserialize", "deserialize")
        tops = sorted(a for a in set(ser) | set(de) if a in P.adts and "::deserialize::" not in a and "{impl" not in a)
        if not tops:
            raise Anchor("no serialisable types")
        out.append(("%s nested" % cfg, (lambda P, ser, de, tops: lambda: nested(P, ser, de, tops))(P, ser, de, tops)))
        for a in tops:
            if a in ser and a not in de and cfg == "main" or cfg == "uni" and a not in de:
                continue
            out.append(("%s %s" % (cfg, last(a)), (lambda P, a, s, d, de: lambda: one(P, a, s, d, de))(P, a, ser.get(a), de.get(a), de)))
    return out


def nested(P, ser, de, tops):
    """what is written can be read: every type with one half has the other, and the parts of a message are library types with both halves"""
    X = Plain("serialisable types")
    for a in tops:
        if a in ser:
            X.ob("nested", a in de, a, "%s can be written but not read back" % last(a), None, None, ser[a].span)
    need = [a for a in P.adts if a.startswith("omnipaxos::messages::") and "::deserialize::" not in a and "{impl" not in a]
    for a in need:
        X.ob("nested", a in ser and a in de, a + "/both", "%s is sent but cannot be serialised both ways" % last(a), None, None, "omnipaxos/src/messages.rs:1")
    return X.result()


def calls_to(t, names):
    return t.op == "app" and last(t.args[0]) in names and t.args[0].startswith("serde")


def fields_written(t):
    """the chain of serialize_field calls below an end(..): [(key, value)] or None"""
    out = []
    while t.op == "upd":
        n, a = last(t.args[0]), t.args[3]
        if n == "serialize_field" and t.args[1] == 0:
            out.append((a[1], a[2]) if len(a) == 3 else (None, a[1]))
        elif n != "skip_field":
            return None
        t = t.args[2]
    if not (t.op == "f" and t.args[1] == "Ok.0" and t.args[0].op == "app"):
        return None
    return t.args[0], out[::-1]


def encodings(r):
    """[(facts, kind, index, name, [(key, value)])] of the successful ways to write a value"""
    out = []
    for st, ret in r.outs:
        f = st.facts
        if f.decide(err_of(ret)) is True:
            continue
        if calls_to(ret, ("serialize_newtype_variant",)):
            a = ret.args[1]
            out.append((f, "variant", a[2], a[3], [(None, a[4])]))
        elif calls_to(ret, ("serialize_unit_variant",)):
            a = ret.args[1]
            out.append((f, "variant", a[2], a[3], []))
        elif calls_to(ret, ("serialize_unit_struct", "serialize_unit")):
            out.append((f, "struct", None, None, []))
        elif calls_to(ret, ("serialize_newtype_struct",)):
            out.append((f, "struct", None, None, [(None, ret.args[1][2])]))
        elif calls_to(ret, ("end",)):
            w = fields_written(ret.args[1][0])
            if w is None:
                out.append((f, "?", None, None, []))
                continue
            op, fs = w
            k = last(op.args[0])
            if k in ("serialize_struct", "serialize_tuple_struct"):
                out.append((f, "struct", None, None, fs))
            elif k in ("serialize_struct_variant", "serialize_tuple_variant"):
                out.append((f, "variant", op.args[1][2], op.args[1][3], fs))
            else:
                out.append((f, "?", None, None, []))
        elif calls_to(ret, ("serialize",)) and len(ret.args[1]) == 2:
            out.append((f, "inner", None, None, [(None, ret.args[1][0])]))
        else:
            out.append((f, "?", None, None, []))
    return out


def depth(t):
    n = 0
    while t.op == "upd":
        n, t = n + 1, t.args[2]
    return n


def elem_no(v):
    """the number of the stream element a value is, or None"""
    if v.op == "f" and v.args[1] == "Some.0" and v.args[0].op == "f" and v.args[0].args[1] == "Ok.0":
        a = v.args[0].args[0]
        if a.op == "app" and last(a.args[0]) == "next_element":
            return depth(a.args[1][0])
    return None


def absent(f, i):
    for l in f.lits:
        for t in subterms(l):
            if t.op == "app" and last(t.args[0]) == "next_element" and depth(t.args[1][0]) == i and f.decide(is_none(proj(t, "Ok.0"))) is True:
                return True
    return False


def visitor_of(P, ret):
    """(deserialize_* method, visitor type) asked of the data format"""
    if ret.op != "app" or not ret.args[1]:
        return None, None, None
    v = ret.args[1][-1]
    return last(ret.args[0]), (v.args[0] if v.op == "adt" else None), ret.args[1]


class Tags:
    """how a key or an index selects a tag of the generated field enum"""
    memo = {}

    def __init__(self, P, de, path):
        self.by = {}
        self.ok = False
        f = de.get(path)
        if f is None:
            f = [g for g in P.fns.values() if g.name == "deserialize" and g.self_ty is not None and g.self_ty[:2] == ("adt", path)]
            f = f[0] if f else None
        if f is None:
            return
        for st, ret in Run(P, f).outs:
            m, vis, _ = visitor_of(P, ret)
            if vis is None:
                continue
            for g in P.fns.values():
                if g.self_ty is not None and g.self_ty[:2] == ("adt", vis) and g.name in ("visit_str", "visit_u64", "visit_bytes"):
                    r = Run(P, g)
                    val = r.args[1]
                    if val.op == "ref":
                        val = T("sym", val.args[0])
                    self.by[g.name] = [(s.facts, val, rt) for s, rt in r.outs]
                    self.ok = True

    def select(self, how, key):
        """tags chosen for a key (str) / an index: set of variant names, None for failures"""
        out = set()
        for f, val, ret in self.by.get(how, ()):
            g = f.add(eq(val, key))
            if g is None:
                continue
            if f.decide(eq(val, key)) is not True and any(l.op == "eq" and val in l.args and key not in l.args for l in f.lits):
                continue
            x = proj(ret, "Ok.0") if g.decide(ok_of(ret)) is True else None
            out.add(x.args[1] if x is not None and x.op == "adt" else None)
        return out


def same_tag(f, tag, path, names):
    return [n for n in names if f.decide(isv(tag, n, path)) is True]


def one(P, a, ser, des, de):
    X = Plain(last(a))
    me = T("sym", "self")
    vs = P.adts[a]["vars"]
    order = P.adts[a]["order"]
    isenum = len(order) > 1 or (order and order[0] not in ("", last(a)) )
    encs = []
    if ser is not None:
        r = Run(P, ser)
        X.stats.append(r.stats())
        encs = encodings(r)
        if any(e.k in ("res", "ext") and last(e.d[0]) in ("serialize_seq", "serialize_map") for st, rt in r.outs for e in st.events()):
            return X.result()      # a collection of the UniCache: C23
    # the wire form of every variant: ordered (key, field)
    form = {}
    for v in order:
        fl = [n for n, t, _ in vs[v][1]]
        phantom = bool(fl) and all(head(t).startswith("PhantomData") for _, t, _ in vs[v][1])
        if ser is None:
            form[v] = (None, None, [(T("str", n), n) for n in fl])
            continue
        fit = [e for e in encs if not isenum or e[0].add(isv(me, v, a)) is not None]
        X.ob("encoded", bool(fit) or phantom, v, "%s::%s cannot be written" % (last(a), v), None, None, ser.span)
        for f, kind, idx, nm, parts in fit:
            if kind == "inner":
                kind = "struct"
            X.ob("encoded", kind == ("variant" if isenum else "struct"), v + "/shape", "%s::%s is written in a form that is not that of its type" % (last(a), v), None, f, ser.span)
            got = []
            for key, val in parts:
                hit = [n for n in fl if val is proj(me, (v + "." + n) if isenum else n)]
                got.append((key, hit[0] if hit else None))
            for n in fl:
                k = [g for _, g in got].count(n)
                X.ob("encoded", k == 1, v + "." + n, "%s%s is %s when %s is written" % ("" if not isenum else v + ".", n, "left out or altered" if k == 0 else "written twice", last(a)), None, f, ser.span)
            old = form.get(v)
            if old is not None:
                X.ob("encoded", old == (idx, nm, got), v + "/same", "%s::%s is written in different forms" % (last(a), v), None, f, ser.span)
            form[v] = (idx, nm, got)
    if des is None:
        return X.result()
    r = Run(P, des)
    X.stats.append(r.stats())
    seen = 0
    for st, ret in r.outs:
        m, vis, args = visitor_of(P, ret)
        if vis is None:
            inner = [t for t in subterms(ret) if calls_to(t, ("deserialize",))]
            X.ob("decoded-by-position", bool(inner) and not isenum, "deserialize", "%s is read without a visitor of its own" % last(a), None, st.facts, des.span)
            seen += 1
            continue
        seen += 1
        fns = {g.name: g for g in P.fns.values() if g.self_ty is not None and g.self_ty[:2] == ("adt", vis)}
        if isenum:
            if "visit_enum" not in fns:
                X.ob("variant", False, "visit_enum", "%s is written as a variant but not read as one" % last(a), None, st.facts, des.span)
                continue
            variants(X, P, a, form, fns["visit_enum"], de, ser is not None)
            continue
        v = order[0]
        parts = form[v][2]
        if m == "deserialize_unit_struct" and not parts:
            X.ob("decoded-by-position", "visit_unit" in fns, v, "%s cannot be read" % last(a), None, None, des.span)
            continue
        if m in ("deserialize_struct", "deserialize_tuple_struct", "deserialize_tuple") and len(args) == 4 and args[2].op == "arr" and ser is not None:
            X.ob("decoded-by-position", len(args[2].args[0]) == len(parts), "count", "%s is read as %d fields but written as %d" % (last(a), len(args[2].args[0]), len(parts)), None, st.facts, des.span)
        if "visit_seq" in fns and ser is not None:
            by_position(X, P, a, v, parts, fns["visit_seq"])
        if "visit_map" in fns and all(k is not None for k, _ in parts):
            by_name(X, P, a, v, parts, fns["visit_map"], de, "config-key" if ser is None else "decoded-by-name")
        elif ser is None:
            X.ob("config-key", False, "map", "%s cannot be read from named fields" % last(a), None, None, des.span)
    X.ob("decoded-by-position", seen > 0, "any", "%s is never read" % last(a), None, None, des.span)
    return X.result()


def oks(r):
    return [(st, proj(ret, "Ok.0")) for st, ret in r.outs if st.facts.decide(err_of(ret)) is not True and ret.op == "adt"]


def value_of(x, v, n, isenum):
    return proj(x, (v + "." + n) if isenum else n)


def by_position(X, P, a, v, parts, fn):
    r = Run(P, fn)
    X.stats.append(r.stats())
    good = oks(r)
    X.ob("decoded-by-position", bool(good), v, "%s is never read successfully" % last(a), None, None, fn.span)
    for st, x in good:
        for i, (_, n) in enumerate(parts):
            if n is None:
                continue
            val = value_of(x, v, n, x.op == "adt" and len(P.adts[a]["order"]) > 1)
            k = elem_no(val)
            X.ob("decoded-by-position", k == i or (k is None and absent(st.facts, i)), v + "." + n,
                 "%s of %s is read from %s, but written as element %d" % (n, last(a), "element %d" % k if k is not None else show(val, 3), i), None, st.facts, fn.span)


def by_name(X, P, a, v, parts, fn, de, rule):
    r = Run(P, fn)
    X.stats.append(r.stats())
    good = oks(r)
    X.ob(rule, bool(good), v, "%s is never read successfully" % last(a), None, None, fn.span)
    tags = {}
    isenum = len(P.adts[a]["order"]) > 1
    for st, x in good:
        f = st.facts
        lps = {e.d[0].lid: e.d[0] for e in st.events() if e.k == "loop"}
        for key, n in parts:
            if n is None:
                continue
            val = value_of(x, v, n, isenum)
            ph = val.args[0] if val.op == "f" and val.args[1] == "Some.0" and val.args[0].op == "phi" else None
            if ph is None:
                # the field was not in the input: some variable filled under its name is still empty
                ok_ = missing(P, de, lps, f, key, tags)
                X.ob(rule, ok_, v + "." + n, "%s of %s is not read from the field named %s" % (n, last(a), show(key, 2)), None, f, fn.span)
                continue
            lp = lps.get(ph.args[0])
            why = None
            if lp is None:
                why = "is not read from the input"
            else:
                why = filled_under(P, de, lp, ph, key, tags)
            X.ob(rule, why is None, v + "." + n, "%s of %s %s" % (n, last(a), why), None, f, fn.span)


def iter_tag(it):
    """(tag term, enum path) an iteration looked at"""
    for l in it.facts.lits:
        for t in subterms(l):
            if t.op == "isv" and isinstance(t.args[0], Term) and any(u.op == "app" and last(u.args[0]) == "next_key" for u in subterms(t.args[0])) and t.args[0].op == "f" and t.args[0].args[1] == "Some.0":
                return t.args[0], t.args[2]
    return None, None


def filled_under(P, de, lp, ph, key, tags):
    filled = 0
    for it in lp.iters:
        u = it.upd.get(ph.args[1])
        if u is None or u is ph:
            continue
        tag, path = iter_tag(it)
        if tag is None:
            return "is filled whatever the name of the field"
        if path not in tags:
            tags[path] = Tags(P, de, path)
        tg = tags[path].select("visit_str", key)
        names = [n for n in P.adts[path]["order"]]
        poss = [n for n in names if it.facts.decide(isv(tag, n, path)) is not False]
        if len(tg) != 1 or None in tg:
            return "is not known under the name %s it is written with" % show(key, 2)
        if poss != list(tg):
            return "is read from a field other than %s" % show(key, 2)
        w = proj(u, "Some.0")
        if not (it.facts.decide(is_some(u)) is True and w.op == "f" and w.args[1] == "Ok.0" and w.args[0].op == "app" and last(w.args[0].args[0]) == "next_value"):
            return "does not get the value that was read"
        filled += 1
    return None if filled else "is never filled"


def missing(P, de, lps, f, key, tags):
    for lid, lp in lps.items():
        for k in lp.init:
            ph = T("phi", lid, k)
            if f.decide(is_none(ph)) is True and filled_under(P, de, lp, ph, key, tags) is None:
                return True
    return False


def variants(X, P, a, form, fn, de, written_):
    r = Run(P, fn)
    X.stats.append(r.stats())
    good = oks(r)
    seen = {}
    for st, x in good:
        f = st.facts
        tg = None
        for l in f.lits:
            for t in subterms(l):
                if t.op == "isv" and isinstance(t.args[0], Term) and any(u.op == "app" and last(u.args[0]) == "variant" for u in subterms(t.args[0])) and t.args[0].op == "f" and t.args[0].args[1] == "0":
                    tg = (t.args[0], t.args[2])
        v = x.args[1] if x.op == "adt" else None
        if v is None:
            X.ob("variant", False, "?", "%s is read as something that is not one of its variants" % last(a), None, f, fn.span)
            continue
        if tg is not None:
            names = [n for n in P.adts[tg[1]]["order"] if f.decide(isv(tg[0], n, tg[1])) is not False]
            seen.setdefault(v, []).append((tg[1], names, f, x))
        else:
            seen.setdefault(v, []).append((None, None, f, x))
    tags = {}
    for v, (idx, nm, parts) in form.items():
        X.ob("variant", v in seen, v, "%s::%s is never read" % (last(a), v), None, None, fn.span)
        for path, names, f, x in seen.get(v, ()):
            if path is not None:
                if path not in tags:
                    tags[path] = Tags(P, de, path)
                for how, key in (("visit_u64", idx), ("visit_str", nm)):
                    s = tags[path].select(how, key)
                    X.ob("variant", len(s) == 1 and names == list(s), v + "/" + how, "what is written as %s::%s (%s) is read as another variant" % (last(a), v, show(key, 2)), None, f, fn.span)
            fl = [n for _, n in parts]
            if len(fl) == 1:
                val = proj(x, v + "." + str(fl[0])) if fl[0] is not None else None
                if val is not None:
                    src = [t for t in subterms(val) if t.op == "app" and last(t.args[0]) == "newtype_variant"]
                    X.ob("variant", val.op == "f" and val.args[1] == "Ok.0" and bool(src) and val.args[0] is src[0], v + "/content", "the content of %s::%s is not what was written" % (last(a), v), None, f, fn.span)
