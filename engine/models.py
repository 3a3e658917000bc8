"""Transfer functions for library operations (containers, iterators, comparison, memory) and call dispatch."""
import re
from terms import *
import mir
from exec import Wrap, canon, canon_clause

STORAGE = "omnipaxos::storage::Storage"
SNAPSHOT = "omnipaxos::storage::Snapshot"
OPTION, RESULT = "core::option::Option", "core::result::Result"
ORDERING = "core::cmp::Ordering"
BOUND = "core::ops::range::Bound"
_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def norm(d):
    return re.sub(r"::\{impl#\d+\}", "", d)


def strip_ref(t):
    while t[0] in ("ref",):
        t = t[1]
    return t


# ---- iterator terms -------------------------------------------------------------------
# base:  it(src, mode, base)   mode ref|mut|val, base = ((root, path)) for mut
#        range(a, b)
# adapters: map(it,f) filter(it,f) filter_map(it,f) enumerate(it,k) cloned(it) zip(a,b) chain(a,b)
ADAPT = ("map", "filter", "filter_map", "enumerate", "cloned", "zip", "chain", "inspect", "revit", "zipn")
ITOPS = ("it", "range") + ADAPT


def mk_it(src, mode, base=None):
    return T("it", src, mode, base)


def is_iter(v):
    return v.op in ITOPS or v.op in ("itp", "adv")


def to_iter(ex, st, v):
    """iterator over a value (IntoIterator)"""
    if is_iter(v):
        return v
    if v.op == "adt" and v.args[0].startswith("core::ops::range::"):
        k = v.args[0].split("::")[-1]
        if k == "Range":
            return T("range", proj(v, "start"), proj(v, "end"))
        if k == "RangeInclusive":
            return T("range", proj(v, "start"), add(proj(v, "end"), c(1)))
    if v.op == "ref":
        x = ex.deref(st, v)
        if is_iter(x):
            return v            # by_ref-like: keep the reference
        if x.op in ("ref", "vref"):
            return to_iter(ex, st, x)
        if x.op == "adt" and x.args[0].startswith("core::ops::range::"):
            return v
        return mk_it(x, "ref")
    if v.op == "vref":
        x = v.args[0]
        if x.op in ("ref", "vref"):
            return to_iter(ex, st, x)
        return mk_it(x, "ref")
    if v.op == "adt" and v.args[0] == OPTION:
        return mk_it(T("arr", (proj(v, "Some.0"),)) if v.args[1] == "Some" else EMPTY, "val")
    return mk_it(v, "val")


def base_src(it):
    """the underlying collection term of an iterator"""
    op = it.op
    if op in ("it",):
        return it.args[0]
    if op == "range":
        a, b = it.args
        if is_c(a) and a.args[0] == 0 and b.op == "len":
            return b.args[0]
        return it
    if op == "itp":
        return base_src(it.args[0])
    if op == "zip" or op == "chain":
        return T(op + "s", base_src(it.args[0]), base_src(it.args[1]))
    if op in ADAPT:
        return base_src(it.args[0])
    return it


def fused(src):
    while src.op == "comp":
        src = src.args[0]
    return src


def iter_base(it):
    return base_src(it)


def canon_src(it):
    return fused(base_src(it))


def count_term(it, dnf):
    src = canon_src(it)
    if not dnf:
        return c(0)
    if src.op not in ("zips", "chains") and total(dnf):
        if src.op == "range":
            return sub(src.args[1], src.args[0])
        return vlen(src)
    return T("cnt", src, dnf)


def comp_term(it, clauses):
    src = canon_src(it)
    if len(clauses) == 1:
        (cl, x), = clauses
        if not cl and x.op == "belem" and x.args[0] is src:
            return src
    return T("comp", src, clauses)


def loop_terms(lid):
    return ()


def generic_iter(ex, old, lid):
    if old.op in ITOPS and old.op != "itp":
        return T("itp", old, lid)
    if old.op == "adt" and old.args[0] in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
        return T("itp", to_iter(ex, None, old), lid)
    return None


def conc_len(it):
    op = it.op
    if op == "it":
        return len(it.args[0].args[0]) if it.args[0].op == "arr" else None
    if op == "range":
        a, b = it.args
        if is_c(a) and is_c(b):
            return max(0, b.args[0] - a.args[0])
        return None
    if op in ("zip", "chain"):
        x, y = conc_len(it.args[0]), conc_len(it.args[1])
        return None if x is None or y is None else max(x, y)
    if op in ADAPT:
        return conc_len(it.args[0])
    return None


def is_concrete_iter(ex, st, v):
    if not isinstance(v, Term) or v.op not in ITOPS:
        return False
    n = conc_len(v)
    return n is not None and n <= 16


SKIP = object()


def gen(ex, st, fr, it, lid, span):
    """generic element of iterator it in loop lid -> [(state, item | SKIP)]"""
    op = it.op
    if op == "it":
        src, mode, base = it.args
        if src.op == "comp":
            return gen_comp(ex, st, src, lid, mode)
        if src.op == "vapp":
            out = []
            w = T("inpart", src, lid)
            a, b = ex.branch(st, w)
            for s in a:
                out += gen(ex, s, fr, mk_it(src.args[0], mode), lid, span)
            for s in b:
                out += gen(ex, s, fr, mk_it(src.args[1], mode), lid, span)
            return out
        p = T("pos", src, lid)
        f = st.facts.add(lt(p, vlen(src)))
        if f is None:
            return []
        st.facts = f
        if mode == "mut":
            root, path = base
            return [(st, T("ref", root, path + (("i", p),)))]
        x = ex.vget(st, src, p)
        return [(st, T("vref", x) if mode == "ref" else x)]
    if op == "range":
        a, b = it.args
        src = base_src(it)
        e = T("pos", src, lid) if src is not it else T("elem", it, lid)
        for l in (lt(e, b), le(a, e)):
            f = st.facts.add(l)
            if f is None:
                return []
            st.facts = f
        return [(st, e)]
    if op == "map":
        out = []
        for s, x in gen(ex, st, fr, it.args[0], lid, span):
            if x is SKIP:
                out.append((s, x))
            else:
                out += ex.call_value(s, fr, it.args[1], [x], span)
        return out
    if op == "inspect":
        out = []
        for s, x in gen(ex, st, fr, it.args[0], lid, span):
            if x is SKIP:
                out.append((s, x))
            else:
                out += [(s2, x) for s2, _ in ex.call_value(s, fr, it.args[1], [T("vref", x)], span)]
        return out
    if op == "filter":
        out = []
        for s, x in gen(ex, st, fr, it.args[0], lid, span):
            if x is SKIP:
                out.append((s, x))
                continue
            for s2, r in ex.call_value(s, fr, it.args[1], [T("vref", x)], span):
                a, b = ex.branch(s2, r)
                out += [(y, x) for y in a] + [(y, SKIP) for y in b]
        return out
    if op == "filter_map":
        out = []
        for s, x in gen(ex, st, fr, it.args[0], lid, span):
            if x is SKIP:
                out.append((s, x))
                continue
            for s2, r in ex.call_value(s, fr, it.args[1], [x], span):
                a, b = ex.branch(s2, isv(r, "Some", OPTION))
                out += [(y, proj(r, "Some.0")) for y in a] + [(y, SKIP) for y in b]
        return out
    if op == "enumerate":
        out = []
        inner = it.args[0]
        for s, x in gen(ex, st, fr, inner, lid, span):
            if x is SKIP:
                out.append((s, x))
            else:
                b = base_src(inner)
                if not plain(inner):
                    p = T("opos", it, lid)
                elif b.op == "range":
                    p = sub(T("elem", b, lid), b.args[0])
                else:
                    p = T("pos", fused(b), lid)
                out.append((s, tup([p, x])))
        return out
    if op == "zipn":
        # zip with an open range: enumerate from a start value
        out = []
        inner, start, left = it.args
        for s, x in gen(ex, st, fr, inner, lid, span):
            if x is SKIP:
                out.append((s, x))
            else:
                b = base_src(inner)
                if not plain(inner):
                    p = T("opos", it, lid)
                elif b.op == "range":
                    p = sub(T("elem", b, lid), b.args[0])
                else:
                    p = T("pos", fused(b), lid)
                p = add(start, p)
                out.append((s, tup([p, x] if left else [x, p])))
        return out
    if op == "cloned":
        return [(s, x if x is SKIP else ex.deref_all(s, x)) for s, x in gen(ex, st, fr, it.args[0], lid, span)]
    if op == "zip":
        out = []
        for s, x in gen(ex, st, fr, it.args[0], lid, span):
            for s2, y in gen(ex, s, fr, it.args[1], lid, span):
                out.append((s2, SKIP if x is SKIP or y is SKIP else tup([x, y])))
        return out
    if op == "chain":
        out = []
        a, b = ex.branch(st, T("inpart", it, lid))
        for s in a:
            out += gen(ex, s, fr, it.args[0], lid, span)
        for s in b:
            out += gen(ex, s, fr, it.args[1], lid, span)
        return out
    x = T("elem", it, lid)
    return [(st, x)]


def plain(it):
    """positions of the adapter output are positions of its source"""
    if it.op == "it":
        v = it.args[0]
        while v.op == "comp":
            if not total_comp(v):
                return False
            v = v.args[0]
        return v.op != "vapp"
    if it.op == "range":
        return True
    if it.op in ("map", "cloned", "inspect", "enumerate", "zipn"):
        return plain(it.args[0])
    return False


def gen_comp(ex, st, src, lid, mode):
    """element of a comprehension: fuse with the iteration over its source"""
    inner, clauses = src.args
    out = []
    for cl, x in sorted(clauses, key=lambda z: show(z[1])):
        m = {}
        for t in set().union(*([subterms(l) for l in cl] + [subterms(x)])):
            if t.op in ("belem", "bpos") and t.args[0] is inner:
                m[t] = T(t.op[1:], inner, lid)
        s = st.copy()
        f = s.facts
        p = T("pos", inner, lid)
        lits = [lt(p, vlen(inner))] if inner.op != "range" else []
        ok_ = True
        for l in lits + [subst(l, m) for l in sorted(cl, key=lambda z: z.id)]:
            f = f.add(l)
            if f is None:
                ok_ = False
                break
        if not ok_:
            continue
        s.facts = f
        y = subst(x, m)
        out.append((s, T("vref", y) if mode == "ref" else y))
    return out


def step_conc(ex, st, fr, it, span):
    """concrete stepping -> [(state, item | None | SKIP, new iterator)]"""
    op = it.op
    if op == "it":
        src, mode, base = it.args
        xs = src.args[0]
        if not xs:
            return [(st, None, it)]
        rest = T("it", T("arr", xs[1:]), mode, base)
        x = xs[0]
        return [(st, T("vref", x) if mode == "ref" else x, rest)]
    if op == "range":
        a, b = it.args
        if a.args[0] >= b.args[0]:
            return [(st, None, it)]
        return [(st, a, T("range", add(a, c(1)), b))]
    if op == "chain":
        out = []
        for s, x, n in step_conc(ex, st, fr, it.args[0], span):
            if x is None:
                for s2, y, n2 in step_conc(ex, s, fr, it.args[1], span):
                    out.append((s2, y, T("chain", n, n2)))
            else:
                out.append((s, x, T("chain", n, it.args[1])))
        return out
    if op == "zip":
        out = []
        for s, x, n in step_conc(ex, st, fr, it.args[0], span):
            if x is None or x is SKIP:
                out.append((s, x, T("zip", n, it.args[1])))
                continue
            for s2, y, n2 in step_conc(ex, s, fr, it.args[1], span):
                out.append((s2, y if y is None or y is SKIP else tup([x, y]), T("zip", n, n2)))
        return out
    out = []
    for s, x, n in step_conc(ex, st, fr, it.args[0], span):
        nit = T(op, n, *it.args[1:])
        if x is None or x is SKIP:
            out.append((s, x, nit))
        elif op == "map":
            out += [(s2, y, nit) for s2, y in ex.call_value(s, fr, it.args[1], [x], span)]
        elif op == "inspect":
            out += [(s2, x, nit) for s2, y in ex.call_value(s, fr, it.args[1], [T("vref", x)], span)]
        elif op == "filter":
            for s2, r in ex.call_value(s, fr, it.args[1], [T("vref", x)], span):
                a, b = ex.branch(s2, r)
                out += [(y, x, nit) for y in a] + [(y, SKIP, nit) for y in b]
        elif op == "filter_map":
            for s2, r in ex.call_value(s, fr, it.args[1], [x], span):
                a, b = ex.branch(s2, isv(r, "Some", OPTION))
                out += [(y, proj(r, "Some.0"), nit) for y in a] + [(y, SKIP, nit) for y in b]
        elif op == "enumerate":
            k = it.args[1]
            out.append((s, tup([c(k), x]), T("enumerate", n, k + 1)))
        elif op == "zipn":
            out.append((s, tup([it.args[1], x] if it.args[2] else [x, it.args[1]]), T("zipn", n, add(it.args[1], c(1)), it.args[2])))
        elif op == "cloned":
            out.append((s, ex.deref_all(s, x), nit))
        else:
            out.append((s, x, nit))
    return out


def iter_next(ex, st, fr, ref, span):
    """Iterator::next(&mut it) -> [(state, None | item)] with the iterator updated in place"""
    root, path = ex.target(st, ref)
    it = ex.load(st, (root, path))
    n = 0
    while it.op in ("ref", "vref") and n < 4:
        root, path = ex.target(st, it)
        it = ex.load(st, (root, path))
        n += 1
    it2 = to_iter(ex, st, it)
    if it2.op == "itp":
        inner, lid = it2.args
        out = []
        d = st.copy()
        f = d.facts.add(T("done", lid))
        if f is not None:
            d.facts = f
            out.append((d, None))
        g = st.copy()
        f = g.facts.add(T("not", T("done", lid)))
        if f is not None:
            g.facts = f
            for s, x in gen(ex, g, fr, inner, lid, span):
                if x is not SKIP:
                    out.append((s, x))
                elif lid in ex.skips:
                    ex.skips[lid].append(s.facts)
        return out
    if is_concrete_iter(ex, st, it2):
        work, out = [(st, it2)], []
        while work:
            s, i = work.pop()
            for s2, x, n in step_conc(ex, s, fr, i, span):
                if x is SKIP:
                    work.append((s2, n))
                else:
                    ex.store(s2, (root, path), n, fr, span)
                    out.append((s2, x))
        return out
    # first element outside of a (generalised) loop
    lid = "first%d" % uid()
    src = canon_src(it2)
    out = []
    d, g = st.copy(), st.copy()
    if src.op not in ("range", "zips", "chains"):
        z = eq(vlen(it2.args[0]), c(0)) if it2.op == "it" else None
        if it2.op == "it":
            f = d.facts.add(z)
            if f is None:
                d = None
            else:
                d.facts = f
            f = g.facts.add(lnot(z))
            if f is None:
                g = None
            else:
                g.facts = f
    if d is not None:
        out.append((d, None))
    if g is not None:
        for s, x in gen(ex, g, fr, it2 if it2.op != "adv" else it2.args[0], lid, span):
            if x is not SKIP:
                if it2.op != "adv" and plain(it2):
                    m = {T("pos", src, lid): Z, T("elem", src, lid): T("at", src, Z)}
                    x = subst(x, m)
                    lits = [subst(l, m) for l in s.facts.lits]
                    f, dead = Facts(), False
                    for l in sorted(lits, key=lambda z: z.id):
                        f = f.add(l)
                        if f is None:
                            dead = True
                            break
                    if dead:
                        continue
                    s.facts = f
                ex.store(s, (root, path), T("adv", it2, lid), fr, span)
                out.append((s, x))
    return out


def consume(ex, st, fr, it, span, init, body, what):
    """run `body(state, item, accloc) -> [(state, None | early value)]` for every item.
    -> [(state, final accumulator | None, early value | None)]"""
    n = uid()
    acc, itr = (("A", n), ()), (("I", n), ())
    st.mem[acc[0]] = init if init is not None else UNIT
    st.mem[itr[0]] = it
    iref = T("ref", itr[0], ())

    def fin(s, early):
        a = s.mem.pop(acc[0], None)
        s.mem.pop(itr[0], None)
        return (s, a, early)
    if it.op == "itp":
        # partially consumed inside a loop: opaque
        ex.note("consume itp")
    if is_concrete_iter(ex, st, it):
        cur, out = [st], []
        for _ in range(64):
            nxt = []
            for s in cur:
                for s2, x in iter_next(ex, s, fr, iref, span):
                    if x is None:
                        out.append(fin(s2, None))
                    else:
                        for s3, e in body(s2, x, acc):
                            if e is None:
                                nxt.append(s3)
                            else:
                                out.append(fin(s3, e))
            cur = nxt
            if not cur:
                return out

    def once(s):
        conts, exits = [], []
        for s2, x in iter_next(ex, s, fr, iref, span):
            if x is None:
                exits.append((s2, ("x", "done", None)))
            else:
                for s3, e in body(s2, x, acc):
                    if e is None:
                        conts.append(s3)
                    else:
                        exits.append((s3, ("x", "early", e)))
        return conts, exits
    res = []
    for s, p in ex.drive(st, once, fr, what, span):
        res.append(fin(s, p[2]))
    return res


def split_chain(it):
    """adapters that act on each element alone go inside a chain"""
    if it.op in ("map", "filter", "filter_map", "cloned", "inspect"):
        i = split_chain(it.args[0])
        if i.op == "chain":
            return T("chain", T(it.op, i.args[0], *it.args[1:]), T(it.op, i.args[1], *it.args[1:]))
    return it


def collect_val(ex, st, fr, it, span):
    """-> [(state, vector value)]"""
    it = split_chain(it)
    if it.op == "chain":
        return [(s2, vapp(w, w2)) for s, w in collect_val(ex, st, fr, it.args[0], span) for s2, w2 in collect_val(ex, s, fr, it.args[1], span)]
    if it.op == "it" and it.args[0].op != "comp" or it.op == "cloned" and it.args[0].op == "it" and it.args[0].args[1] == "ref":
        b = it if it.op == "it" else it.args[0]
        if b.args[1] == "val" or it.op == "cloned":
            return [(st, b.args[0])]
    if it.op == "it" and it.args[1] == "val":
        return [(st, it.args[0])]
    if it.op == "cloned" and it.args[0].op == "it":
        return [(st, it.args[0].args[0])]

    def body(s, x, acc):
        ex.store(s, acc, vpush(ex.load(s, acc), x), fr, span)
        return [(s, None)]
    return [(s, a) for s, a, _ in consume(ex, st, fr, it, span, EMPTY, body, "collect")]


# ---- slices -----------------------------------------------------------------------------
def mk_slice(st, v, a, b):
    if st.facts.same(a, b):
        return EMPTY
    if a is Z and st.facts.same(b, vlen(v)):
        return v
    if v.op == "slice":
        return mk_slice(st, v.args[0], add(a, v.args[1]), add(b, v.args[1]))
    if v.op == "vapp" and a is Z and st.facts.same(b, vlen(v.args[0])):
        return v.args[0]
    if v.op == "vapp" and st.facts.same(a, vlen(v.args[0])) and st.facts.same(b, vlen(v)):
        return v.args[1]
    return T("slice", v, a, b)


def range_bounds(ex, st, r, n):
    """(from, to exclusive) of a range value over a vector of length n"""
    r = ex.deref_all(st, r)
    if r.op == "range":
        return r.args
    if r.op != "adt":
        return None
    k = r.args[0].split("::")[-1]
    if k == "Range":
        return proj(r, "start"), proj(r, "end")
    if k == "RangeFrom":
        return proj(r, "start"), n
    if k == "RangeTo":
        return Z, proj(r, "end")
    if k == "RangeFull":
        return Z, n
    if k == "RangeInclusive":
        return proj(r, "start"), add(proj(r, "end"), c(1))
    if k == "RangeToInclusive":
        return Z, add(proj(r, "end"), c(1))
    return None


def is_range(v):
    return v.op == "range" or v.op == "adt" and v.args[0].startswith("core::ops::range::")


def reref(loc, st, ex, idx):
    root, path = loc
    if isinstance(root, tuple) and root[0] == "V":
        return T("vref", ex.vget(st, ex.load(st, loc), idx))
    return T("ref", root, path + (("i", idx),))


def vloc(ex, st, v):
    """innermost location of a (possibly multiply) referenced collection"""
    n = 0
    if v.op not in ("ref", "vref"):
        root = ("V", v)
        return (root, ())
    loc = ex.target(st, v)
    while n < 6:
        x = ex.load(st, loc)
        if x.op in ("ref", "vref"):
            loc = ex.target(st, x)
        else:
            break
        n += 1
    return loc


def panic(ex, st, fr, msg, span):
    ex.panics.append((st, msg, span, fr.stack, fr.fn.key))


# ---- comparison ----------------------------------------------------------------------------
def has_impl(ex, trait, ty):
    return ex.prog.find_impl(trait, ty, {"core::cmp::Ord": "cmp", "core::cmp::PartialOrd": "partial_cmp", "core::cmp::PartialEq": "eq", "core::clone::Clone": "clone"}[trait])


def cmp_eq(ex, st, fr, a, b, ty, span):
    """-> [(state, boolean term)]"""
    a, b = ex.deref_all(st, a), ex.deref_all(st, b)
    ty = strip_ref(ty) if ty is not None else None
    if ty is not None and ty[0] == "adt":
        im = has_impl(ex, "core::cmp::PartialEq", ty)
        if im and not im[1] and im[0] in ex.prog.fns:
            return call_fn(ex, st, fr, ex.prog.fns[im[0]], ty, [T("vref", a), T("vref", b)], span)
    return [(st, eq(a, b))]


def cmp_ord(ex, st, fr, a, b, ty, span):
    """three-way comparison -> [(state, 'Less'|'Equal'|'Greater' | term)]: forks only for derived lexicographic orders"""
    a, b = ex.deref_all(st, a), ex.deref_all(st, b)
    ty = strip_ref(ty) if ty is not None else None
    if ty is not None and ty[0] == "adt":
        im = has_impl(ex, "core::cmp::Ord", ty)
        pm = has_impl(ex, "core::cmp::PartialOrd", ty)
        if im and im[1] or (not im and pm and pm[1]):
            info = ex.prog.adts.get(ty[1])
            if info and info["kind"] == "struct":
                fs = info["vars"][info["order"][0]][1]
                return lex(ex, st, fr, [(proj(a, f[0]), proj(b, f[0]), f[1]) for f in fs], span)
        if not im and pm and pm[0] in ex.prog.fns:
            out = []
            for s, r in call_fn(ex, st, fr, ex.prog.fns[pm[0]], ty, [T("vref", a), T("vref", b)], span):
                out.append((s, proj(r, "Some.0")))
            return out
    if ty is not None and ty[0] == "tuple":
        return lex(ex, st, fr, [(proj(a, str(i)), proj(b, str(i)), t) for i, t in enumerate(ty[1])], span)
    if ty is not None and ty[0] == "adt" and ty[1] == OPTION:
        out = []
        na, nb = isv(a, "None", OPTION), isv(b, "None", OPTION)
        x, y = ex.branch(st, na)
        for s in x:
            p, q = ex.branch(s, nb)
            out += [(z, adt(ORDERING, "Equal", ())) for z in p] + [(z, adt(ORDERING, "Less", ())) for z in q]
        for s in y:
            p, q = ex.branch(s, nb)
            out += [(z, adt(ORDERING, "Greater", ())) for z in p]
            for z in q:
                out += cmp_ord(ex, z, fr, proj(a, "Some.0"), proj(b, "Some.0"), ty[2][0], span)
        return out
    if ty == ("adt", "core::cmp::Ordering", ()):
        pass
    return [(st, T("ordcmp", a, b))]


def lex(ex, st, fr, parts, span):
    out, cur = [], [st]
    for a, b, t in parts:
        nxt = []
        for s in cur:
            for s2, o in cmp_ord(ex, s, fr, a, b, t, span):
                p, q = ex.branch(s2, isv(o, "Equal", ORDERING))
                nxt += p
                for z in q:
                    l, g = ex.branch(z, isv(o, "Less", ORDERING))
                    out += [(y, adt(ORDERING, "Less", ())) for y in l]
                    out += [(y, adt(ORDERING, "Greater", ())) for y in g]
        cur = nxt
    out += [(s, adt(ORDERING, "Equal", ())) for s in cur]
    return out


def cmp_rel(ex, st, fr, op, a, b, ty, span):
    out = []
    for s, o in cmp_ord(ex, st, fr, a, b, ty, span):
        if op == "lt":
            r = isv(o, "Less", ORDERING)
        elif op == "gt":
            r = isv(o, "Greater", ORDERING)
        elif op == "le":
            r = lnot(isv(o, "Greater", ORDERING))
        else:
            r = lnot(isv(o, "Less", ORDERING))
        out.append((s, r))
    return out


# ---- defaults ------------------------------------------------------------------------------
def default_of(ex, st, fr, ty, span):
    """-> [(state, value)]"""
    if ty[0] == "prim":
        return [(st, c(0))]
    if ty[0] == "tuple":
        outs = [(st, ())]
        for t in ty[1]:
            outs = [(s2, vs + (v,)) for s, vs in outs for s2, v in default_of(ex, s, fr, t, span)]
        return [(s, tup(vs)) for s, vs in outs]
    if ty[0] == "adt":
        p = ty[1]
        if p == OPTION:
            return [(st, NONE)]
        if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            return [(st, EMPTY)]
        if p == "alloc::string::String":
            return [(st, T("str", ""))]
        if p == "core::marker::PhantomData":
            return [(st, T("zst", "PhantomData"))]
        im = ex.prog.find_impl("core::default::Default", ty, "default")
        if im and im[0] in ex.prog.fns:
            return call_fn(ex, st, fr, ex.prog.fns[im[0]], ty, [], span)
    return [(st, T("default", ty))]


# ---- dispatch -------------------------------------------------------------------------------
def unify(pat, ty, m):
    if pat[0] == "param":
        m.setdefault(pat[1], ty)
        return
    if pat[0] == ty[0]:
        if pat[0] in ("adt", "closure", "fndef") and pat[1] == ty[1]:
            for x, y in zip(pat[2], ty[2]):
                unify(x, y, m)
        elif pat[0] in ("ref", "ptr", "slice", "array"):
            unify(pat[1], ty[1], m)
        elif pat[0] == "tuple":
            for x, y in zip(pat[1], ty[1]):
                unify(x, y, m)


def call_fn(ex, st, fr, fn, self_ty, args, span, margs=(), mgen=()):
    m = {}
    if fn.self_ty is not None and self_ty is not None:
        unify(fn.self_ty, self_ty, m)
    if "Self" in [g[1] for g in fn.gen if g[0] == "param"] and self_ty is not None:
        m["Self"] = self_ty
    return ex.inline(st, fr, fn, m, args, span)


def call(ex, st, fr, cal, tsub, args, span):
    d = cal["d"]
    a = tuple(mir.subst(x, tsub) if isinstance(x, tuple) else x for x in cal.get("a", ()))
    trait = cal.get("trait")
    name = d.split("::")[-1]
    self_ty = a[0] if trait and a else None
    # the storage and snapshot interfaces
    if trait == STORAGE and (self_ty is None or self_ty[0] in ("param", "alias")):
        return storage_call(ex, st, fr, name, args, span)
    if trait == SNAPSHOT and (self_ty is None or self_ty[0] in ("param", "alias", "other")):
        return snapshot_call(ex, st, fr, name, args, span)
    # local implementations of traits
    if trait:
        im = ex.prog.find_impl(trait, self_ty, name) if self_ty is not None else None
        if im and im[0] in ex.prog.fns and not (trait in STRUCTURAL and im[1]) and trait not in CMPT:
            return call_fn(ex, st, fr, ex.prog.fns[im[0]], self_ty, args, span)
        h = TRAITS.get(d)
        if h is not None:
            r = h(ex, st, fr, args, span, a, cal)
            if r is not None:
                return r
        if trait in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            xs = ex.deref_all(st, args[1])
            n = len(xs.args[0]) if xs.op == "tup" else 0
            return ex.call_value(st, fr, args[0], list(xs.args[0][:n]) if n or xs is UNIT else [xs], span)
    else:
        h = FUNCS.get(norm(d))
        if h is not None:
            r = h(ex, st, fr, args, span, a, cal)
            if r is not None:
                return r
        # tuple struct / variant constructor used as a function
        r = constructor(ex, cal, args)
        if r is not None:
            return [(st, r)]
    key = cal.get("r")
    if key in ex.prog.fns and not no_inline(key):
        fn = ex.prog.fns[key]
        m = {}
        ra = cal.get("ra")
        if ra:
            ra = tuple(mir.subst(x, tsub) if isinstance(x, tuple) else x for x in ra)
            for g, x in zip(fn.gen, ra):
                if g[0] == "param" and isinstance(x, tuple):
                    m[g[1]] = x
        elif a:
            for g, x in zip(fn.gen, a):
                if g[0] == "param" and isinstance(x, tuple):
                    m[g[1]] = x
        return ex.inline(st, fr, fn, m, args, span)
    if trait and d in ex.prog.fns and not no_inline(d):
        # default body of a trait method
        fn = ex.prog.fns[d]
        m = {"Self": self_ty}
        for g, x in zip(fn.gen, a):
            if g[0] == "param" and isinstance(x, tuple):
                m[g[1]] = x
        return ex.inline(st, fr, fn, m, args, span)
    return opaque(ex, st, fr, norm(d), args, span, cal)


STRUCTURAL = ("core::clone::Clone", "core::cmp::PartialEq", "core::cmp::Eq", "core::cmp::PartialOrd", "core::cmp::Ord", "core::hash::Hash", "core::fmt::Debug")
CMPT = ("core::cmp::PartialEq", "core::cmp::PartialOrd", "core::cmp::Ord")


def no_inline(key):
    k = norm(key)
    return k.startswith(("core::num::", "core::fmt", "alloc::fmt")) or key.startswith("core::ops::arith")


def constructor(ex, cal, args):
    d = cal["d"]
    p, _, v = d.rpartition("::")
    v = v.split("#")[0]
    if p in VARIANTS and v in VARIANTS[p]:
        return adt(p, v, [(str(i), x) for i, x in enumerate(args)])
    info = ex.prog.adts.get(d)
    if info and info["kind"] == "struct":
        return adt(d, "", [(str(i), x) for i, x in enumerate(args)])
    if p.endswith("::{ctor}") or v == "{ctor}" or v.startswith("{constructor"):
        return constructor(ex, {"d": p}, args)
    return None


DB = ("rocksdb::db::",)
DBPURE = ("rocksdb::db::cf_handle", "rocksdb::db::path")
DBREAD = ("rocksdb::db::get", "rocksdb::db::raw_iterator", "rocksdb::db::iterator", "rocksdb::db::multi_get", "rocksdb::db::key_may_exist", "rocksdb::db::snapshot")
DECODE = ("zerocopy::",)
QUIET = ("core::", "alloc::", "std::fmt", "std::hash", "serde", "std::io")


def opaque(ex, st, fr, name, args, span, cal=None, event="ext"):
    """unknown callee: a pure result of the argument values, and every place reachable through a &mut argument changes"""
    vals = tuple(ex.deref_all(st, x) for x in args)
    tys = ex.argtys or ()
    mut = False
    mloc = []
    for i, x in enumerate(args):
        ty = tys[i] if i < len(tys) else None
        if x.op == "ref" and ty is not None and ty[0] == "ref" and ty[2]:
            mut = True
            mloc.append(vloc(ex, st, x))
    ex.note(name)
    rt = ex.restype
    if not name.startswith(QUIET) or mut or event != "ext":
        ex.emit(st, event, (name,) + vals, fr, span)
    if name.startswith(DB) and name not in DBPURE:
        res = T("app", name, vals + (st.ver,))
        if not name.startswith(DBREAD):
            st.ver = T("sv", st.ver, name, vals)
    else:
        res = T("app", name, vals)
    if rt is not None and rt[0] == "adt" and (rt[1] == "core::result::Result" or (rt[1] == "core::option::Option" and name.startswith(DECODE))):
        ex.emit(st, "res", (name, vals, res), fr, span)
    for n, l in enumerate(mloc):
        old = ex.load(st, l)
        ex.store(st, l, T("upd", name, n, old, vals), fr, span, kind="upd")
    return [(st, res)]


def cut_call(ex, st, fr, fn, args, span):
    """call treated as a summary: recorded as an event; everything reachable through &mut arguments is havocked"""
    vals = tuple(ex.deref_all(st, x) for x in args)
    ex.emit(st, "call", (fn.label(), tuple(args), vals), fr, span)
    res = T("ret", fn.label(), st.ver, tuple(vals))
    for i, x in enumerate(args):
        ty = fn.locals[i + 1]
        if x.op == "ref" and ty[0] == "ref" and ty[2]:
            l = ex.target(st, x)
            old = ex.load(st, l)
            ex.store(st, l, T("upd", fn.label(), i, old, vals), fr, span, kind="havoc")
    st.ver = T("sv", st.ver, fn.label(), vals)
    return [(st, res)]


def storage_call(ex, st, fr, name, args, span):
    vals = tuple(ex.deref_all(st, x) for x in args[1:])
    if name.startswith("get_"):
        r = T("sget", name, vals, st.ver)
        ex.emit(st, "sg", (name, vals, r), fr, span)
        return [(st, r)]
    r = T("sset", name, vals, st.ver)
    ex.emit(st, "st", (name, vals, r), fr, span)
    st.ver = T("sv", st.ver, name, vals)
    return [(st, r)]


def snapshot_call(ex, st, fr, name, args, span):
    if name == "create":
        return [(st, T("screate", ex.deref_all(st, args[0])))]
    if name == "merge":
        l = vloc(ex, st, args[0])
        ex.store(st, l, T("smerge", ex.load(st, l), ex.deref_all(st, args[1])), fr, span)
        return [(st, UNIT)]
    if name == "use_snapshots":
        return [(st, T("sym", "use_snapshots"))]
    return opaque(ex, st, fr, "Snapshot::" + name, args, span)


# ---- handler tables -----------------------------------------------------------------------------
FUNCS, TRAITS = {}, {}


def F(*names):
    def deco(h):
        for n in names:
            FUNCS[n] = h
        return h
    return deco


def TR(*names):
    def deco(h):
        for n in names:
            TRAITS[n] = h
        return h
    return deco


def one(st, v):
    return [(st, v)]


VEC = ("alloc::vec::", "core::slice::", "alloc::slice::", "alloc::collections::vec_deque::", "core::array::")


def V(*names):
    def deco(h):
        for n in names:
            for p in VEC:
                FUNCS[p + n] = h
        return h
    return deco


@V("new", "with_capacity", "new_in", "with_capacity_in")
def _vnew(ex, st, fr, args, span, a, cal):
    return one(st, EMPTY)


@V("reserve", "shrink_to_fit", "reserve_exact", "make_contiguous")
def _noop(ex, st, fr, args, span, a, cal):
    return one(st, UNIT)


@V("push", "push_back", "push_mut")
def _push(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    ex.store(st, l, vpush(ex.load(st, l), args[1]), fr, span, kind="push", data=args[1])
    return one(st, UNIT)


@V("len")
def _len(ex, st, fr, args, span, a, cal):
    return one(st, vlen(ex.deref_all(st, args[0])))


@V("is_empty")
def _isempty(ex, st, fr, args, span, a, cal):
    return one(st, eq(vlen(ex.deref_all(st, args[0])), c(0)))


@V("as_slice", "as_mut_slice", "as_ref", "as_mut", "into_boxed_slice", "into_vec", "as_ptr", "iter_as_slice")
def _ident(ex, st, fr, args, span, a, cal):
    return one(st, args[0])


@V("to_vec", "to_vec_in")
def _tovec(ex, st, fr, args, span, a, cal):
    return one(st, ex.deref_all(st, args[0]))


@V("iter")
def _iter(ex, st, fr, args, span, a, cal):
    return one(st, mk_it(ex.deref_all(st, args[0]), "ref"))


@V("iter_mut")
def _itermut(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    return one(st, mk_it(ex.load(st, l), "mut", l))


@V("append")
def _append(ex, st, fr, args, span, a, cal):
    l, o = vloc(ex, st, args[0]), vloc(ex, st, args[1])
    w = ex.load(st, o)
    ex.store(st, l, vapp(ex.load(st, l), w), fr, span, kind="app", data=w)
    ex.store(st, o, EMPTY, fr, span)
    return one(st, UNIT)


@V("extend_from_slice")
def _efs(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    w = ex.deref_all(st, args[1])
    ex.store(st, l, vapp(ex.load(st, l), w), fr, span, kind="app", data=w)
    return one(st, UNIT)


@TR("core::iter::traits::collect::Extend::extend")
def _extend(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    it = to_iter(ex, st, args[1])
    if it.op in ("ref",):
        return None
    if it.op == "it" and it.args[1] == "ref":
        it = T("cloned", it)
    out = []
    for s, w in collect_val(ex, st, fr, it, span):
        ex.store(s, l, vapp(ex.load(s, l), w), fr, span, kind="app", data=w)
        out.append((s, UNIT))
    return out


@V("clear")
def _clear(ex, st, fr, args, span, a, cal):
    ex.store(st, vloc(ex, st, args[0]), EMPTY, fr, span)
    return one(st, UNIT)


@V("fill")
def _fill(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    ex.store(st, l, T("repeat", args[1], vlen(ex.load(st, l))), fr, span)
    return one(st, UNIT)


@V("truncate")
def _truncate(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    y, n = ex.branch(st, lt(args[1], vlen(v)))
    out = [(s, UNIT) for s in n]
    for s in y:
        ex.store(s, l, mk_slice(s, v, Z, args[1]), fr, span)
        out.append((s, UNIT))
    return out


@V("drain")
def _drain(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    r = range_bounds(ex, st, args[1], vlen(v))
    if r is None:
        return None
    lo, hi = r
    w = mk_slice(st, v, lo, hi)
    rest = vapp(mk_slice(st, v, Z, lo), mk_slice(st, v, hi, vlen(v)))
    ex.store(st, l, rest, fr, span)
    return one(st, mk_it(w, "val"))


@V("split_off")
def _splitoff(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    ex.store(st, l, mk_slice(st, v, Z, args[1]), fr, span)
    return one(st, mk_slice(st, v, args[1], vlen(v)))


@V("insert")
def _insert(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    ex.store(st, l, T("vins", v, args[1], args[2]), fr, span)
    return one(st, UNIT)


@V("pop", "pop_back")
def _pop(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    y, n = ex.branch(st, eq(vlen(v), c(0)))
    out = [(s, NONE) for s in y]
    for s in n:
        if v.op == "vpush":
            x, rest = v.args[1], v.args[0]
        elif v.op == "arr":
            x, rest = v.args[0][-1], T("arr", v.args[0][:-1])
        else:
            i = sub(vlen(v), c(1))
            x, rest = ex.vget(s, v, i), mk_slice(s, v, Z, i)
        ex.store(s, l, rest, fr, span)
        out.append((s, some(x)))
    return out


@V("pop_front")
def _popf(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    y, n = ex.branch(st, eq(vlen(v), c(0)))
    out = [(s, NONE) for s in y]
    for s in n:
        x = ex.vget(s, v, Z)
        rest = T("arr", v.args[0][1:]) if v.op == "arr" else mk_slice(s, v, c(1), vlen(v))
        ex.store(s, l, rest, fr, span)
        out.append((s, some(x)))
    return out


@V("remove", "swap_remove")
def _remove(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    x = ex.vget(st, v, args[1])
    if cal["d"].endswith("::remove"):
        rest = vapp(mk_slice(st, v, Z, args[1]), mk_slice(st, v, add(args[1], c(1)), vlen(v)))
    else:
        rest = T("swaprm", v, args[1])
    ex.store(st, l, rest, fr, span)
    return one(st, x)


@V("swap")
def _vswap(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    x, y = ex.vget(st, v, args[1]), ex.vget(st, v, args[2])
    ex.store(st, l, ex.vstore(st, ex.vstore(st, v, args[1], y), args[2], x), fr, span)
    return one(st, UNIT)


@V("retain")
def _retain(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    out = []
    for s, w in collect_val(ex, st, fr, T("cloned", T("filter", mk_it(v, "ref"), args[1])), span):
        ex.store(s, l, w, fr, span)
        out.append((s, UNIT))
    return out


@V("get", "get_mut")
def _get(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    i = args[1]
    if is_range(i):
        lo, hi = range_bounds(ex, st, i, vlen(v))
        y, n = ex.branch(st, conj([le(lo, hi), le(hi, vlen(v))]))
        return [(s, some(T("vref", mk_slice(s, v, lo, hi)))) for s in y] + [(s, NONE) for s in n]
    y, n = ex.branch(st, lt(i, vlen(v)))
    return [(s, some(reref(l, s, ex, i))) for s in y] + [(s, NONE) for s in n]


@V("first", "last", "first_mut", "last_mut")
def _first(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    z = eq(vlen(v), c(0))
    y, n = ex.branch(st, z)
    i = Z if "first" in cal["d"].split("::")[-1] else sub(vlen(v), c(1))
    return [(s, NONE) for s in y] + [(s, some(reref(l, s, ex, i))) for s in n]


@TR("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _index(ex, st, fr, args, span, a, cal):
    l = vloc(ex, st, args[0])
    v = ex.load(st, l)
    i = ex.deref_all(st, args[1])
    t0 = strip_ref(a[0]) if a else None
    if t0 is not None and t0[0] == "adt" and t0[1] not in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
        return None
    if is_range(i):
        lo, hi = range_bounds(ex, st, i, vlen(v))
        y, n = ex.branch(st, conj([le(lo, hi), le(hi, vlen(v))]))
        for s in n:
            panic(ex, s, fr, "slice index", span)
        return [(s, T("vref", mk_slice(s, v, lo, hi))) for s in y]
    y, n = ex.branch(st, lt(i, vlen(v)))
    for s in n:
        panic(ex, s, fr, "index out of bounds", span)
    return [(s, reref(l, s, ex, i)) for s in y]


@V("contains")
def _contains(ex, st, fr, args, span, a, cal):
    v = ex.deref_all(st, args[0])
    x = ex.deref_all(st, args[1])

    def body(s, y, acc):
        t, f = ex.branch(s, eq(ex.deref_all(s, y), x))
        return [(z, c(1)) for z in t] + [(z, None) for z in f]
    return [(s, e if e is not None else c(0)) for s, _, e in consume(ex, st, fr, mk_it(v, "ref"), span, None, body, "contains")]


@F("alloc::vec::from_elem")
def _fromelem(ex, st, fr, args, span, a, cal):
    return one(st, T("repeat", args[0], args[1]))


@F("alloc::boxed::new_uninit")
def _newuninit(ex, st, fr, args, span, a, cal):
    return one(st, T("boxu", uid()))


@F("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec")
def _boxvec(ex, st, fr, args, span, a, cal):
    b = args[0]
    if b.op != "boxu":
        return one(st, ex.deref_all(st, b))
    v = ex.read_root(st, ("H", b.args[0]))
    n = 0
    while v.op != "arr" and n < 8:
        n += 1
        w = None
        for k in ("1", "value", "0"):
            x = proj(v, k)
            if x.op != "f":
                w = x
                break
        if w is None:
            break
        v = w
    return one(st, v)


@F("alloc::boxed::new")
def _boxnew(ex, st, fr, args, span, a, cal):
    return one(st, T("box", args[0]))


@F("alloc::boxed::convert::downcast")
def _downcast(ex, st, fr, args, span, a, cal):
    x = args[0]
    if x.op in ("boxerr", "box"):
        ty = a[-1] if a else None
        if x.args[0].op == "adt" and ty is not None and ty[0] == "adt" and ty[1] == x.args[0].args[0]:
            return one(st, ok(T("box", x.args[0])))
    return None


@TR("core::convert::From::from")
def _from(ex, st, fr, args, span, a, cal):
    if a and a[0][0] == "adt" and a[0][1] == "alloc::boxed::Box":
        src = a[1] if len(a) > 1 else None
        if src is not None and src == a[0]:
            return one(st, args[0])
        return one(st, T("boxerr", args[0]))
    if len(a) > 1 and a[0] == a[1]:
        return one(st, args[0])
    if a and a[0][0] == "prim":
        if len(a) > 1 and a[1] == ("prim", "bool"):
            y, n = ex.branch(st, args[0])
            return [(s, c(1)) for s in y] + [(s, c(0)) for s in n]
        return one(st, args[0])
    return None


@TR("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned")
def _clone(ex, st, fr, args, span, a, cal):
    t = a[0] if a else None
    if t is not None and t[0] == "ref":
        return one(st, ex.deref(st, args[0]))
    # container of a type with a hand-written clone is still element-wise identity unless the impl is local and manual
    return one(st, ex.deref_all(st, args[0]))


@TR("core::clone::Clone::clone_from")
def _clonefrom(ex, st, fr, args, span, a, cal):
    ex.store(st, vloc(ex, st, args[0]), ex.deref_all(st, args[1]), fr, span)
    return one(st, UNIT)


@TR("core::default::Default::default")
def _default(ex, st, fr, args, span, a, cal):
    return default_of(ex, st, fr, a[0], span)


@F("core::mem::take")
def _take(ex, st, fr, args, span, a, cal):
    l = ex.target(st, args[0])
    out = []
    for s, v in default_of(ex, st, fr, a[0], span):
        old = ex.load(s, l)
        ex.store(s, l, v, fr, span)
        out.append((s, old))
    return out


@F("core::mem::replace")
def _replace(ex, st, fr, args, span, a, cal):
    l = ex.target(st, args[0])
    old = ex.load(st, l)
    ex.store(st, l, args[1], fr, span)
    return one(st, old)


@F("core::mem::swap")
def _swap(ex, st, fr, args, span, a, cal):
    l, m = ex.target(st, args[0]), ex.target(st, args[1])
    x, y = ex.load(st, l), ex.load(st, m)
    ex.store(st, l, y, fr, span)
    ex.store(st, m, x, fr, span)
    return one(st, UNIT)


@F("core::mem::drop", "core::mem::forget")
def _drop(ex, st, fr, args, span, a, cal):
    return one(st, UNIT)


@F("core::hint::must_use", "core::convert::identity", "core::hint::black_box")
def _mu(ex, st, fr, args, span, a, cal):
    return one(st, args[0])


@TR("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "core::convert::AsMut::as_mut")
def _deref(ex, st, fr, args, span, a, cal):
    t = a[0] if a else None
    if t is not None and t[0] == "adt" and t[1] == "alloc::boxed::Box":
        v = ex.deref(st, args[0])
        if v.op == "box":
            return one(st, T("vref", v.args[0]))
    if t is not None and t[0] == "adt" and t[1].startswith("rocksdb"):
        return one(st, T("vref", T("app", "bytes", (ex.deref_all(st, args[0]),))))
    if t is not None and t[0] == "ref":
        return one(st, ex.deref(st, args[0]))
    return one(st, args[0])


# ---- comparison traits
@TR("core::cmp::PartialEq::eq")
def _eq(ex, st, fr, args, span, a, cal):
    return cmp_eq(ex, st, fr, args[0], args[1], a[0] if a else None, span)


@TR("core::cmp::PartialEq::ne")
def _ne(ex, st, fr, args, span, a, cal):
    return [(s, lnot(r)) for s, r in cmp_eq(ex, st, fr, args[0], args[1], a[0] if a else None, span)]


@TR("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _rel(ex, st, fr, args, span, a, cal):
    return cmp_rel(ex, st, fr, cal["d"].split("::")[-1], args[0], args[1], a[0] if a else None, span)


@TR("core::cmp::PartialOrd::partial_cmp")
def _pcmp(ex, st, fr, args, span, a, cal):
    return [(s, some(o)) for s, o in cmp_ord(ex, st, fr, args[0], args[1], a[0] if a else None, span)]


@TR("core::cmp::Ord::cmp")
def _cmp(ex, st, fr, args, span, a, cal):
    return cmp_ord(ex, st, fr, args[0], args[1], a[0] if a else None, span)


def minmax(ex, st, fr, x, y, ty, span, mx):
    out = []
    for s, o in cmp_ord(ex, st, fr, x, y, ty, span):
        # max returns the second argument on equality, min the first
        p, q = ex.branch(s, isv(o, "Greater", ORDERING))
        out += [(z, x if mx else y) for z in p] + [(z, y if mx else x) for z in q]
    return out


@TR("core::cmp::Ord::max", "core::cmp::Ord::min")
def _max(ex, st, fr, args, span, a, cal):
    return minmax(ex, st, fr, args[0], args[1], a[0] if a else None, span, cal["d"].endswith("max"))


@F("core::cmp::max", "core::cmp::min")
def _cmax(ex, st, fr, args, span, a, cal):
    return minmax(ex, st, fr, args[0], args[1], a[0] if a else None, span, cal["d"].endswith("max"))


@TR("core::cmp::Ord::clamp")
def _clamp(ex, st, fr, args, span, a, cal):
    out = []
    for s, v in minmax(ex, st, fr, args[0], args[1], a[0], span, True):
        out += minmax(ex, s, fr, v, args[2], a[0], span, False)
    return out


@F("core::cmp::reverse")
def _ordrev(ex, st, fr, args, span, a, cal):
    o = args[0]
    if o.op == "ordcmp":
        return one(st, T("ordcmp", o.args[1], o.args[0]))
    return None


# ---- numbers
@F("core::num::saturating_sub")
def _ssub(ex, st, fr, args, span, a, cal):
    y, n = ex.branch(st, lt(args[0], args[1]))
    return [(s, c(0)) for s in y] + [(s, sub(args[0], args[1])) for s in n]


@F("core::num::checked_sub")
def _csub(ex, st, fr, args, span, a, cal):
    y, n = ex.branch(st, lt(args[0], args[1]))
    return [(s, NONE) for s in y] + [(s, some(sub(args[0], args[1]))) for s in n]


@F("core::num::saturating_add", "core::num::wrapping_add", "core::num::unchecked_add", "core::num::strict_add")
def _sadd(ex, st, fr, args, span, a, cal):
    return one(st, add(args[0], args[1]))


@F("core::num::wrapping_sub", "core::num::unchecked_sub", "core::num::strict_sub")
def _wsub(ex, st, fr, args, span, a, cal):
    return one(st, sub(args[0], args[1]))


@F("core::num::checked_add")
def _cadd(ex, st, fr, args, span, a, cal):
    return one(st, some(add(args[0], args[1])))


@TR("core::ops::arith::Add::add")
def _add(ex, st, fr, args, span, a, cal):
    if a and strip_ref(a[0])[0] == "prim":
        return one(st, add(ex.deref_all(st, args[0]), ex.deref_all(st, args[1])))
    return one(st, T("app", "add", (ex.deref_all(st, args[0]), ex.deref_all(st, args[1]))))


@TR("core::ops::arith::Sub::sub")
def _sub(ex, st, fr, args, span, a, cal):
    if a and strip_ref(a[0])[0] == "prim":
        return one(st, sub(ex.deref_all(st, args[0]), ex.deref_all(st, args[1])))
    return None


@TR("core::ops::arith::Div::div", "core::ops::arith::Mul::mul", "core::ops::arith::Rem::rem")
def _arith(ex, st, fr, args, span, a, cal):
    if a and strip_ref(a[0])[0] == "prim":
        return one(st, ex.binop(cal["d"].split("::")[-2], ex.deref_all(st, args[0]), ex.deref_all(st, args[1]), st))
    return None


@TR("core::ops::arith::AddAssign::add_assign", "core::ops::arith::SubAssign::sub_assign")
def _addassign(ex, st, fr, args, span, a, cal):
    if a and strip_ref(a[0])[0] == "prim":
        l = ex.target(st, args[0])
        f = add if "add_assign" in cal["d"] else sub
        ex.store(st, l, f(ex.load(st, l), ex.deref_all(st, args[1])), fr, span)
        return one(st, UNIT)
    return None


@TR("core::ops::bit::Not::not")
def _not(ex, st, fr, args, span, a, cal):
    return one(st, lnot(ex.deref_all(st, args[0])))


@TR("core::convert::Into::into", "core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def _into(ex, st, fr, args, span, a, cal):
    name = cal["d"].split("::")[-1]
    if len(a) > 1:
        dst, src = (a[1], a[0]) if "Into" in cal["d"] else (a[0], a[1])
        if dst == src:
            return one(st, args[0] if name == "into" else ok(args[0]))
        if dst[0] == "prim" and src[0] == "prim":
            return one(st, args[0] if name == "into" else ok(args[0]))
        if name != "into" and dst[0] == "array" and strip_ref(src)[0] in ("slice", "array"):
            v = ex.deref_all(st, args[0])
            try:
                n = int(dst[2])
            except (TypeError, ValueError):
                return None
            t, f = ex.branch(st, eq(vlen(v), c(n)))
            return [(s, ok(v)) for s in t] + [(s, err(T("sym", "TryFromSliceError"))) for s in f]
        if name == "into":
            for sty, derived, items in ex.prog.impl_idx.get(("core::convert::From", mir.ty_head(dst)), []):
                f = ex.prog.fns.get(items.get("from"))
                if f is not None and mir.ty_head(strip_ref(f.locals[1])) == mir.ty_head(strip_ref(src)):
                    return call_fn(ex, st, fr, f, dst, args, span)
            return _from(ex, st, fr, args, span, (dst, src), cal)
    return None


# ---- ranges
@F("core::ops::range::new")
def _rinc(ex, st, fr, args, span, a, cal):
    return one(st, adt("core::ops::range::RangeInclusive", "", (("start", args[0]), ("end", args[1]), ("exhausted", FALSE))))


@F("core::ops::range::start", "core::ops::range::end")
def _rse(ex, st, fr, args, span, a, cal):
    v = ex.deref_all(st, args[0])
    return one(st, T("vref", proj(v, cal["d"].split("::")[-1])))


@TR("core::ops::range::RangeBounds::start_bound", "core::ops::range::RangeBounds::end_bound")
def _bound(ex, st, fr, args, span, a, cal):
    r = ex.deref_all(st, args[0])
    start = cal["d"].endswith("start_bound")
    B = lambda k, *x: adt(BOUND, k, [("0", T("vref", y)) for y in x])
    if r.op == "adt":
        k = r.args[0].split("::")[-1]
        if start:
            if k in ("Range", "RangeFrom", "RangeInclusive"):
                return one(st, B("Included", proj(r, "start")))
            if k in ("RangeTo", "RangeFull", "RangeToInclusive"):
                return one(st, B("Unbounded"))
        else:
            if k in ("Range", "RangeTo"):
                return one(st, B("Excluded", proj(r, "end")))
            if k in ("RangeInclusive", "RangeToInclusive"):
                return one(st, B("Included", proj(r, "end")))
            if k in ("RangeFrom", "RangeFull"):
                return one(st, B("Unbounded"))
    return one(st, T("bound", r, "start" if start else "end"))


@F("core::ops::range::contains")
@TR("core::ops::range::RangeBounds::contains")
def _rcontains(ex, st, fr, args, span, a, cal):
    r, x = ex.deref_all(st, args[0]), ex.deref_all(st, args[1])
    if r.op == "adt":
        k = r.args[0].split("::")[-1]
        lits = []
        if k in ("Range", "RangeFrom", "RangeInclusive"):
            lits.append(le(proj(r, "start"), x))
        if k in ("Range", "RangeTo"):
            lits.append(lt(x, proj(r, "end")))
        if k in ("RangeInclusive", "RangeToInclusive"):
            lits.append(le(x, proj(r, "end")))
        return one(st, conj(lits))
    return None


# ---- iterators
IT = "core::iter::traits::iterator::Iterator::"


@TR("core::iter::traits::collect::IntoIterator::into_iter")
def _intoiter(ex, st, fr, args, span, a, cal):
    t = a[0] if a else None
    v = args[0]
    if t is not None and t[0] == "ref" and t[2] and v.op == "ref":
        l = vloc(ex, st, v)
        x = ex.load(st, l)
        if not is_iter(x):
            return one(st, mk_it(x, "mut", l))
        return one(st, v)
    return one(st, to_iter(ex, st, v))


def owned_it(ex, st, v):
    """the iterator value for an adapter taking self by value"""
    it = to_iter(ex, st, v)
    if it.op in ("ref", "vref"):
        x = ex.deref_all(st, it)
        if is_iter(x):
            return x
    return it


@TR(IT + "map", IT + "filter", IT + "filter_map", IT + "inspect")
def _adapt(ex, st, fr, args, span, a, cal):
    return one(st, T(cal["d"].split("::")[-1], owned_it(ex, st, args[0]), args[1]))


@TR(IT + "enumerate")
def _enumerate(ex, st, fr, args, span, a, cal):
    return one(st, T("enumerate", owned_it(ex, st, args[0]), 0))


@TR(IT + "cloned", IT + "copied")
def _cloned(ex, st, fr, args, span, a, cal):
    return one(st, T("cloned", owned_it(ex, st, args[0])))


@TR(IT + "rev")
def _rev(ex, st, fr, args, span, a, cal):
    it = owned_it(ex, st, args[0])
    return one(st, push_rev(it))


def push_rev(it):
    if it.op == "it":
        s = it.args[0]
        if s.op == "arr":
            return T("it", T("arr", s.args[0][::-1]), it.args[1], it.args[2])
        if s.op == "rev":
            return T("it", s.args[0], it.args[1], it.args[2])
        return T("it", T("rev", s), it.args[1], None if it.args[1] != "mut" else it.args[2])
    if it.op in ("map", "filter", "filter_map", "cloned", "inspect"):
        return T(it.op, push_rev(it.args[0]), *it.args[1:])
    return T("it", T("rev", it), "val", None)


@TR(IT + "zip", IT + "chain")
def _zip(ex, st, fr, args, span, a, cal):
    if cal["d"].endswith("zip"):
        for i in (0, 1):
            r = ex.deref_all(st, args[i]) if args[i].op in ("ref", "vref") else args[i]
            if r.op == "adt" and r.args[0].endswith("::RangeFrom"):
                return one(st, T("zipn", owned_it(ex, st, args[1 - i]), proj(r, "start"), i == 0))
    return one(st, T(cal["d"].split("::")[-1], owned_it(ex, st, args[0]), owned_it(ex, st, args[1])))


@F("core::iter::sources::once::once", "core::iter::once")
def _itonce(ex, st, fr, args, span, a, cal):
    return one(st, mk_it(T("arr", (args[0],)), "val"))


@F("core::iter::sources::empty::empty", "core::iter::empty")
def _itempty(ex, st, fr, args, span, a, cal):
    return one(st, mk_it(EMPTY, "val"))


@TR(IT + "by_ref")
def _byref(ex, st, fr, args, span, a, cal):
    return one(st, args[0])


@TR(IT + "take", IT + "skip", IT + "step_by", IT + "take_while", IT + "skip_while", IT + "peekable", IT + "fuse", IT + "flat_map", IT + "flatten", IT + "map_while", IT + "scan", IT + "cycle")
def _opqit(ex, st, fr, args, span, a, cal):
    it = owned_it(ex, st, args[0])
    k = cal["d"].split("::")[-1]
    if k == "fuse":
        return one(st, it)
    if k in ("take", "skip") and it.op in ("it", "cloned"):
        b = it if it.op == "it" else it.args[0]
        if b.op == "it" and b.args[1] != "mut":
            v = b.args[0]
            out = []
            for s, n in minmax(ex, st, fr, args[1], vlen(v), ("prim", "usize"), span, False):
                w = mk_slice(s, v, Z, n) if k == "take" else mk_slice(s, v, n, vlen(v))
                nb = mk_it(w, b.args[1])
                out.append((s, nb if it.op == "it" else T("cloned", nb)))
            return out
    return one(st, mk_it(T("itop", k, it, tuple(args[1:])), "val"))


@TR(IT + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _next(ex, st, fr, args, span, a, cal):
    if cal["d"].endswith("next_back"):
        return None
    return [(s, NONE if x is None else some(x)) for s, x in iter_next(ex, st, fr, args[0], span)]


@TR(IT + "count")
def _count(ex, st, fr, args, span, a, cal):
    def body(s, x, acc):
        ex.store(s, acc, add(ex.load(s, acc), c(1)), fr, span)
        return [(s, None)]
    return [(s, r) for s, r, _ in consume(ex, st, fr, owned_it(ex, st, args[0]), span, c(0), body, "count")]


@TR(IT + "sum")
def _sum(ex, st, fr, args, span, a, cal):
    def body(s, x, acc):
        ex.store(s, acc, add(ex.load(s, acc), ex.deref_all(s, x)), fr, span)
        return [(s, None)]
    return [(s, r) for s, r, _ in consume(ex, st, fr, owned_it(ex, st, args[0]), span, c(0), body, "sum")]


@TR(IT + "any", IT + "all")
def _any(ex, st, fr, args, span, a, cal):
    isany = cal["d"].endswith("any")

    def body(s, x, acc):
        out = []
        for s2, r in ex.call_value(s, fr, args[1], [x], span):
            t, f = ex.branch(s2, r if isany else lnot(r))
            out += [(z, c(1 if isany else 0)) for z in t] + [(z, None) for z in f]
        return out
    it = iter_arg(ex, st, args[0])
    return [(s, e if e is not None else c(0 if isany else 1)) for s, _, e in consume(ex, st, fr, it, span, None, body, "any")]


def iter_arg(ex, st, v):
    """iterator passed by &mut self"""
    x = ex.deref_all(st, v)
    return to_iter(ex, st, x)


@TR(IT + "find", IT + "find_map", IT + "position")
def _find(ex, st, fr, args, span, a, cal):
    k = cal["d"].split("::")[-1]
    it = iter_arg(ex, st, args[0])
    if k == "position":
        it = T("enumerate", it, 0)

    def body(s, x, acc):
        out = []
        if k == "find_map":
            for s2, r in ex.call_value(s, fr, args[1], [x], span):
                t, f = ex.branch(s2, isv(r, "Some", OPTION))
                out += [(z, r) for z in t] + [(z, None) for z in f]
            return out
        arg = T("vref", x) if k == "find" else x.args[0][1]
        for s2, r in ex.call_value(s, fr, args[1], [arg], span):
            t, f = ex.branch(s2, r)
            out += [(z, some(x if k == "find" else x.args[0][0])) for z in t] + [(z, None) for z in f]
        return out
    return [(s, e if e is not None else NONE) for s, _, e in consume(ex, st, fr, it, span, None, body, k)]


@TR(IT + "fold")
def _fold(ex, st, fr, args, span, a, cal):
    def body(s, x, acc):
        out = []
        for s2, r in ex.call_value(s, fr, args[2], [ex.load(s, acc), x], span):
            ex.store(s2, acc, r, fr, span)
            out.append((s2, None))
        return out
    return [(s, r) for s, r, _ in consume(ex, st, fr, owned_it(ex, st, args[0]), span, args[1], body, "fold")]


@TR(IT + "for_each", IT + "try_for_each")
def _foreach(ex, st, fr, args, span, a, cal):
    tr = cal["d"].endswith("try_for_each")

    def body(s, x, acc):
        out = []
        for s2, r in ex.call_value(s, fr, args[1], [x], span):
            if tr:
                e, o = ex.branch(s2, isv(r, "Err", RESULT))
                out += [(z, r) for z in e] + [(z, None) for z in o]
            else:
                out.append((s2, None))
        return out
    return [(s, e if e is not None else (ok(UNIT) if tr else UNIT)) for s, _, e in consume(ex, st, fr, owned_it(ex, st, args[0]), span, None, body, "for_each")]


@TR(IT + "max", IT + "min", IT + "max_by_key", IT + "min_by_key", IT + "max_by", IT + "min_by")
def _itmax(ex, st, fr, args, span, a, cal):
    k = cal["d"].split("::")[-1]
    it = owned_it(ex, st, args[0])
    out = []
    ty = item_ty(a[0]) if a else None
    if len(args) == 1 and ty is not None and split_chain(it).op == "chain":
        return chain_max(ex, st, fr, split_chain(it), span, ty, k == "max")
    for s, w in collect_val(ex, st, fr, it, span):
        w2 = T("arr", tuple(x for x in w.args[0])) if w.op == "arr" else w
        z = eq(vlen(w2), c(0))
        y, n = ex.branch(s, z)
        out += [(q, NONE) for q in y]
        for q in n:
            isref = it.op == "it" and it.args[1] == "ref" or item_is_ref(w2)
            r = T("v" + k, strip_vref(w2)) if len(args) == 1 else T("v" + k, w2, args[1])
            if k in ("max_by_key", "min_by_key"):
                r = by_key(ex, q, fr, k[:3], strip_vref(w2), r, args[1], span, isref)
            out.append((q, some(T("vref", r) if isref else r)))
    return out


def by_key(ex, st, fr, k, w, r, clo, span, isref):
    """the element with the extreme key: where the key is a field of the element, that field is the extreme of the fields"""
    b = T("belem", w)
    arg = T("vref", T("vref", b)) if isref else T("vref", b)
    outs = ex.call_value(st.copy(), fr, clo, [arg], span)
    if len(outs) != 1:
        return r
    v = outs[0][1]
    while v.op == "vref":
        v = v.args[0]
    path, x = [], v
    while x.op == "f" and x is not b:
        path.append(x.args[1])
        x = x.args[0]
    if x is not b or not path:
        return r
    ext = T("v" + k, T("comp", w, frozenset([(frozenset(), v)])))

    def put(t, ks):
        return ext if not ks else setf(t, ks[0], put(proj(t, ks[0]), ks[1:]))
    return put(r, path[::-1])


def item_ty(t):
    """the element type of an iterator that hands out stored elements, None if not obvious"""
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if n in ("Chain", "Copied", "Cloned", "Rev", "Filter", "Inspect"):
            return item_ty(t[2][0])
        if n in ("Iter", "IterMut", "IntoIter", "Once", "Drain"):
            x = [y for y in t[2] if y[0] != "lt"]
            while x and x[0][0] == "ref":
                x = [x[0][1]]
            return x[0] if x else None
    return None


def chain_max(ex, st, fr, it, span, ty, mx):
    """the maximum of a chain, from those of its parts: one more element or vector at a time"""
    parts = []

    def flat(i):
        if i.op == "chain":
            flat(split_chain(i.args[0]))
            flat(split_chain(i.args[1]))
        else:
            parts.append(i)
    flat(it)
    work = [(st, None)]
    for p in parts:
        nxt = []
        for s, cur in work:
            for s1, w in collect_val(ex, s, fr, p, span):
                cands = []
                if w.op == "arr" and len(w.args[0]) == 1:
                    cands.append((s1, w.args[0][0]))
                else:
                    isref = p.op == "it" and p.args[1] == "ref" or item_is_ref(w)
                    y, n = ex.branch(s1, eq(vlen(w), c(0)))
                    cands += [(q, None) for q in y]
                    r = T("vmax" if mx else "vmin", strip_vref(w))
                    cands += [(q, T("vref", r) if isref else r) for q in n]
                for q, x in cands:
                    if x is None or cur is None:
                        nxt.append((q, cur if x is None else x))
                    else:
                        nxt += minmax(ex, q, fr, cur, x, ty, span, mx)
        work = nxt
    return [(s, NONE if x is None else some(x)) for s, x in work]


def item_is_ref(w):
    if w.op == "comp":
        return all(x.op == "vref" for _, x in w.args[1])
    if w.op == "arr":
        return bool(w.args[0]) and w.args[0][0].op == "vref"
    return False


def strip_vref(w):
    if w.op == "comp" and item_is_ref(w):
        cl = frozenset((l, x.args[0]) for l, x in w.args[1])
        if len(cl) == 1:
            (l, x), = cl
            if not l and x.op == "belem" and x.args[0] is w.args[0]:
                return w.args[0]
        return T("comp", w.args[0], cl)
    if w.op == "arr" and item_is_ref(w):
        return T("arr", tuple(x.args[0] if x.op == "vref" else x for x in w.args[0]))
    return w


@TR(IT + "last", IT + "nth", IT + "reduce")
def _last(ex, st, fr, args, span, a, cal):
    return None


@TR(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def _collect(ex, st, fr, args, span, a, cal):
    it = owned_it(ex, st, args[0])
    if cal["d"].endswith("from_iter"):
        target = a[0]
    else:
        target = a[1] if len(a) > 1 else ("adt", "alloc::vec::Vec", ())
    if target[0] == "adt" and target[1] in (RESULT, OPTION):
        R = target[1]
        bad, good = ("Err", "Ok") if R == RESULT else ("None", "Some")

        def body(s, x, acc):
            e, o = ex.branch(s, isv(x, bad, R))
            for z in o:
                ex.store(z, acc, vpush(ex.load(z, acc), proj(x, good + ".0")), fr, span)
            return [(z, err(proj(x, "Err.0")) if R == RESULT else NONE) for z in e] + [(z, None) for z in o]
        return [(s, e if e is not None else adt(R, good, (("0", v),))) for s, v, e in consume(ex, st, fr, it, span, EMPTY, body, "collect")]
    if target[0] == "adt" and target[1] not in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
        return [(s, T("coll", target[1], w)) for s, w in collect_val(ex, st, fr, it, span)]
    return collect_val(ex, st, fr, it, span)


# ---- strings
@TR("alloc::string::ToString::to_string")
def _tostring(ex, st, fr, args, span, a, cal):
    return one(st, ex.deref_all(st, args[0]))


# ---- zerocopy / bincode are opaque pure functions (recorded with their argument values)
@TR("zerocopy::AsBytes::as_bytes", "zerocopy::IntoBytes::as_bytes")
def _asbytes(ex, st, fr, args, span, a, cal):
    t = strip_ref(a[0]) if a else None
    v = ex.deref_all(st, args[0])
    if t is not None and t[0] == "prim":
        return one(st, T("vref", T("app", "ne_bytes", (v,))))
    return one(st, T("vref", v))     # byte container viewed as bytes


@F("core::num::to_be_bytes", "core::num::to_le_bytes", "core::num::to_ne_bytes", "core::num::from_be_bytes", "core::num::from_le_bytes", "core::num::from_ne_bytes")
def _tobytes(ex, st, fr, args, span, a, cal):
    k = cal["d"].split("::")[-1]
    if k == "to_ne_bytes":
        k = "ne_bytes"
    return one(st, T("app", k, (ex.deref_all(st, args[0]),)))
