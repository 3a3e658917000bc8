"""Loads the extracted MIR (see driver/main.rs) into a program model: functions, types, ADTs, impls, loops."""
import json, os


class Fn:
    __slots__ = ("key", "name", "kind", "pub", "reach", "trait", "self_ty", "implof", "derived", "parent",
                 "gen", "span", "argc", "locals", "names", "blocks", "prom", "_loops", "crate", "_preds", "implkey", "sig")

    def loops(self):
        """natural loops: header -> set of blocks"""
        if self._loops is None:
            self._loops = natural_loops(self)
        return self._loops

    def label(self):
        st = self.self_ty
        base = ""
        if st is not None:
            base = ty_head(st).split("::")[-1] + "::"
        n = self.name or self.key.split("::")[-1]
        if self.kind.startswith("Closure"):
            n = "closure in " + self.parent.split("::")[-1]
        return base + n


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k in ("drop",):
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def natural_loops(fn):
    n = len(fn.blocks)
    order, seen = [], set()
    stack = [(0, iter(succs(fn.blocks[0][1])))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(fn.blocks[s][1]))))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(fn.blocks[b][1]):
            preds[s].append(b)
    idom = {rpo[0]: rpo[0]}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(fn.blocks[b][1]):
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    return loops


def ty_head(t):
    """textual head of a type, used for matching"""
    k = t[0]
    if k == "adt":
        return t[1]
    if k in ("prim", "param", "alias", "dyn", "fnptr", "other"):
        return t[1]
    return k


class Program:
    def __init__(self, files, base=None):
        self.fns = {}
        self.adts = {}
        self.impls = []          # (trait path, self type, derived, {item: key})
        self.local_crates = set()
        for f in files:
            self.load(f)
        self.renamed(base or {})
        self.by_name = {}
        for fn in self.fns.values():
            if fn.crate in self.local_crates:
                self.by_name.setdefault(fn.name, []).append(fn)
        self.impl_idx = {}
        for tr, st, derived, items in self.impls:
            self.impl_idx.setdefault((tr, ty_head(st)), []).append((st, derived, items))

    def load(self, path):
        d = json.load(open(path))
        raw = d["types"]
        cache = {}

        def conv(i):
            if isinstance(i, str):
                return ("const", i)
            if i in cache:
                return cache[i]
            cache[i] = ("other", "rec%d" % i)
            r = raw[i]
            k = r["k"]
            if k == "adt":
                t = ("adt", r["d"], tuple(conv(x) for x in r["a"]))
            elif k == "ref" or k == "ptr":
                t = (k, conv(r["a"][0]), r["m"])
            elif k in ("slice",):
                t = ("slice", conv(r["a"][0]))
            elif k == "array":
                t = ("array", conv(r["a"][0]), r["len"])
            elif k == "tuple":
                t = ("tuple", tuple(conv(x) for x in r["a"]))
            elif k == "closure":
                t = ("closure", r["d"], tuple(conv(x) for x in r["a"]))
            elif k == "fndef":
                t = ("fndef", r["d"], tuple(conv(x) for x in r["a"]))
            else:
                t = (k, r["n"])
            cache[i] = t
            return t
        types = [conv(i) for i in range(len(raw))]
        crate = d["crate"]
        self.local_crates.add(crate)

        def place(p):
            return (p[0], tuple(x if isinstance(x, str) else tuple(x) for x in p[1]), types[p[2]])

        def callee(c):
            o = dict(c)
            o["a"] = tuple(conv(x) for x in c["a"])
            if "ra" in c:
                o["ra"] = tuple(conv(x) for x in c["ra"])
            for q in ("self", "rself"):
                if q in c:
                    o[q] = types[c[q]]
            return o

        def op(o):
            if o[0] in ("c", "m"):
                return (o[0], place(o[1]))
            if o[0] == "k":
                v = o[2]
                if "fn" in v:
                    v = {"fn": callee(v["fn"])}
                return ("k", types[o[1]], v)
            return (o[0],)

        def rv(r):
            k = r[0]
            if k == "use":
                return ("use", op(r[1]))
            if k == "repeat":
                return ("repeat", op(r[1]), r[2])
            if k in ("ref", "reborrow"):
                return (k, place(r[1]), r[2])
            if k == "cast":
                return ("cast", r[1], op(r[2]), types[r[3]])
            if k == "bin":
                return ("bin", r[1], op(r[2]), op(r[3]))
            if k == "un":
                return ("un", r[1], op(r[2]))
            if k == "discr":
                return ("discr", place(r[1]))
            if k == "agg":
                kk = r[1]
                if isinstance(kk, list):
                    if kk[0] == "adt":
                        kk = ("adt", kk[1], kk[2], kk[3], tuple(kk[4]), tuple(conv(x) for x in kk[5]))
                    else:
                        kk = ("closure", kk[1], types[kk[2]])
                else:
                    kk = (kk,)
                return ("agg", kk, tuple(op(x) for x in r[2]))
            return ("other", r[1])

        def stmt(s):
            if s[0] == "=":
                return ("=", place(s[1]), rv(s[2]), s[3])
            if s[0] == "setd":
                return ("setd", place(s[1]), s[2], s[3])
            return tuple(s)

        def term(t):
            k = t[0]
            if k == "switch":
                return ("switch", op(t[1]), [tuple(x) for x in t[2]], t[3], types[t[4]], t[5])
            if k == "drop":
                return ("drop", place(t[1]), t[2])
            if k == "call":
                return ("call", op(t[1]), [op(x) for x in t[2]], place(t[3]), t[4], t[5])
            if k == "assert":
                return ("assert", op(t[1]), t[2], t[3], t[4], t[5])
            return tuple(t)

        def body(b):
            return (b["argc"], [types[x] for x in b["locals"]], {n[0]: n[1] for n in b["names"]},
                    [([stmt(s) for s in bl["s"]], term(bl["t"])) for bl in b["blocks"]])
        for f in d["fns"]:
            if f["key"] in self.fns:
                continue
            fn = Fn()
            fn.key = f["key"]
            fn.name = f.get("name", "")
            fn.kind = f["kind"]
            fn.pub = f.get("pub", False)
            fn.reach = f.get("reach", False)
            fn.trait = f.get("trait")
            fn.self_ty = types[f["self"]] if "self" in f else None
            fn.implof = f.get("implof")
            fn.implkey = f.get("impl")
            fn.derived = f.get("derived", False)
            fn.parent = f.get("parent", "")
            fn.gen = tuple(conv(x) for x in f["gen"])
            fn.span = f["span"]
            fn.crate = f["key"].split("::")[0]
            fn.argc, fn.locals, fn.names, fn.blocks = body(f["body"])
            fn.sig = [raw[x]["s"] for x in f["body"]["locals"][:fn.argc + 1]]
            fn.prom = []
            for i, p in enumerate(f.get("prom", [])):
                pf = Fn()
                pf.key = fn.key + "{promoted#%d}" % i
                pf.name, pf.kind, pf.pub, pf.reach, pf.trait = "promoted", "Promoted", False, False, None
                pf.self_ty, pf.implof, pf.derived, pf.parent, pf.gen, pf.span, pf.crate = None, None, False, fn.key, fn.gen, fn.span, fn.crate
                pf.implkey = None
                pf.argc, pf.locals, pf.names, pf.blocks = body(p)
                pf.prom, pf._loops = [], None
                fn.prom.append(pf)
            fn._loops = None
            self.fns[fn.key] = fn
        for a in d["adts"]:
            if a["path"] in self.adts:
                continue
            vs = {}
            for v in a["vars"]:
                vs[v["n"]] = (v["d"], [(f[0], types[f[1]], f[2]) for f in v["f"]])
            self.adts[a["path"]] = {"kind": a["kind"], "vars": vs, "gen": a["gen"], "span": a["span"], "order": [v["n"] for v in a["vars"]]}
        for im in d["impls"]:
            self.impls.append((im["trait"], types[im["self"]], im["derived"], dict(im["items"])))

    def renamed(self, base):
        """a method that was renamed (same type, same signature, the old name gone) goes by the name the rules know"""
        for a, old in base.items():
            now = [fn for fn in self.fns.values() if fn.self_ty is not None and fn.self_ty[0] == "adt" and fn.self_ty[1] == a and not fn.implof and fn.kind != "Closure"]
            have = {fn.name for fn in now}
            names = {n for n, _ in old}
            gone = [(n, s) for n, s in old if n not in have]
            new = sorted((fn for fn in now if fn.name not in names), key=lambda fn: (fn.span.split(":")[0], int(fn.span.split(":")[1])))
            for s in {tuple(s): s for _, s in gone}.values():
                x, y = [fn for fn in new if fn.sig == s], [n for n, t in gone if t == s]
                if len(x) == len(y):
                    for fn, n in zip(x, y):
                        fn.name = n

    # ---- lookups -------------------------------------------------------------
    def adt_named(self, last, crate=None):
        c = [p for p in self.adts if p.split("::")[-1] == last and (crate is None or p.startswith(crate + "::"))]
        return c[0] if len(c) == 1 else None

    def method(self, adt_last, name, implof=None):
        """the unique local fn `name` of an impl block of the ADT whose last path segment is adt_last"""
        out = []
        for fn in self.by_name.get(name, []):
            if fn.self_ty is None or fn.self_ty[0] != "adt" or fn.self_ty[1].split("::")[-1] != adt_last:
                continue
            io = fn.implof.split("::")[-1] if fn.implof else None
            if io != implof:
                continue
            out.append(fn)
        return out[0] if len(out) == 1 else None

    def find_impl(self, trait, self_ty, item):
        """key of the item of a local impl of trait for self_ty (head match)"""
        for st, derived, items in self.impl_idx.get((trait, ty_head(self_ty)), []):
            if item in items and (st[0] not in ("ref", "ptr") or self_ty[0] != st[0] or st[1][0] == "param" or ty_head(st[1]) == ty_head(self_ty[1])):
                return items[item], derived
        return None


def subst(t, m):
    """substitute type params"""
    if not m:
        return t
    k = t[0]
    if k == "param":
        return m.get(t[1], t)
    if k == "adt" or k == "fndef" or k == "closure":
        return (k, t[1], tuple(subst(x, m) for x in t[2]))
    if k in ("ref", "ptr"):
        return (k, subst(t[1], m), t[2])
    if k == "slice":
        return (k, subst(t[1], m))
    if k == "array":
        return (k, subst(t[1], m), t[2])
    if k == "tuple":
        return (k, tuple(subst(x, m) for x in t[1]))
    return t


# ---- pretty printing for debugging -------------------------------------------
def pl(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += "." + e[2]
        elif e[0] == "d":
            s = "(%s as %s)" % (s, e[2])
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        else:
            s += str(e)
    return s


def po(o):
    if o[0] in "cm":
        return ("move " if o[0] == "m" else "") + pl(o[1])
    if o[0] == "k":
        v = o[2]
        if "fn" in v:
            return v["fn"].get("r", v["fn"]["d"])
        return "const " + str({k: x for k, x in v.items()})
    return str(o)


def pr(r):
    k = r[0]
    if k == "use":
        return po(r[1])
    if k == "agg":
        return "%s(%s)" % (r[1][:4], ", ".join(po(x) for x in r[2]))
    if k in ("ref", "reborrow"):
        return "&%s%s" % ("mut " if r[2] else "", pl(r[1]))
    if k == "bin":
        return "%s(%s, %s)" % (r[1], po(r[2]), po(r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], po(r[2]))
    if k == "cast":
        return "%s as (%s)" % (po(r[2]), r[1])
    if k == "discr":
        return "discr(%s)" % pl(r[1])
    return str(r)


def show(fn):
    out = ["fn %s argc=%d %s" % (fn.key, fn.argc, fn.names)]
    for i, (ss, t) in enumerate(fn.blocks):
        out.append(" bb%d:" % i)
        for s in ss:
            if s[0] == "=":
                out.append("   %s = %s" % (pl(s[1]), pr(s[2])))
            elif s[0] != "dead":
                out.append("   %s" % (s,))
        if t[0] == "call":
            out.append("   %s = %s(%s) -> %s   @%s" % (pl(t[3]), po(t[1]), ", ".join(po(x) for x in t[2]), t[4], t[5]))
        elif t[0] == "switch":
            out.append("   switch %s %s else %s" % (po(t[1]), t[2], t[3]))
        elif t[0] == "drop":
            out.append("   drop -> %s" % t[2])
        else:
            out.append("   %s" % (t,))
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    P = Program(sys.argv[1].split(","))
    for n in sys.argv[2:]:
        for fn in P.by_name.get(n, []):
            print(show(fn))
            for p in fn.prom:
                print(show(p))
