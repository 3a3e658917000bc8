"""Hash-consed value terms, boolean atoms and branch facts (difference-bound entailment; no solver)."""


class Term:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_tab)
        _tab[k] = t
    return t


def c(v):
    return T("c", int(v))


TRUE, FALSE = c(1), c(0)
UNIT = T("tup", ())


def is_c(t):
    return t.op == "c"


# ---- linear arithmetic --------------------------------------------------------
def lin_of(t):
    if t.op == "c":
        return t.args[0], ()
    if t.op == "lin":
        return t.args
    return 0, ((t, 1),)


def mk_lin(k, d):
    d = tuple(sorted(((t, n) for t, n in d.items() if n), key=lambda x: x[0].id))
    if not d:
        return c(k)
    if k == 0 and len(d) == 1 and d[0][1] == 1:
        return d[0][0]
    return T("lin", k, d)


def add(a, b, sign=1):
    ka, da = lin_of(a)
    kb, db = lin_of(b)
    d = dict(da)
    for t, n in db:
        d[t] = d.get(t, 0) + sign * n
    return mk_lin(ka + sign * kb, d)


def sub(a, b):
    return add(a, b, -1)


# ---- aggregates ----------------------------------------------------------------
def adt(path, variant, fields):
    return T("adt", path, variant, tuple(fields))       # fields: ((name, term), ...)


def tup(items):
    return T("tup", tuple(items))


def some(x):
    return adt("core::option::Option", "Some", (("0", x),))


NONE = adt("core::option::Option", "None", ())


def ok(x):
    return adt("core::result::Result", "Ok", (("0", x),))


def err(x):
    return adt("core::result::Result", "Err", (("0", x),))


def proj(t, key):
    """key: field name, or 'Variant.field' for an enum variant's field"""
    op = t.op
    if op == "adt":
        if "." in key:
            v, f = key.split(".", 1)
            if v != t.args[1]:
                return T("f", t, key)
        else:
            f = key
        for n, x in t.args[2]:
            if n == f:
                return x
        return T("f", t, key)
    if op == "tup":
        if key.isdigit() and int(key) < len(t.args[0]):
            return t.args[0][int(key)]
    if op == "rec":
        for k, v in t.args[1]:
            if k == key:
                return v
        return proj(t.args[0], key)
    if op == "clo":
        if key.isdigit() and int(key) < len(t.args[1]):
            return t.args[1][int(key)]
    if op == "ordsome":
        pass
    return T("f", t, key)


def setf(t, key, v):
    op = t.op
    if op == "adt":
        f = key.split(".", 1)[1] if "." in key else key
        if "." not in key or key.split(".", 1)[0] == t.args[1]:
            fs = list(t.args[2])
            for i, (n, _) in enumerate(fs):
                if n == f:
                    fs[i] = (n, v)
                    return T("adt", t.args[0], t.args[1], tuple(fs))
    if op == "tup" and key.isdigit() and int(key) < len(t.args[0]):
        fs = list(t.args[0])
        fs[int(key)] = v
        return T("tup", tuple(fs))
    if op == "clo" and key.isdigit() and int(key) < len(t.args[1]):
        fs = list(t.args[1])
        fs[int(key)] = v
        return T("clo", t.args[0], tuple(fs), t.args[2])
    if op == "rec":
        base, d = t.args[0], dict(t.args[1])
    else:
        base, d = t, {}
    if proj(base, key) is v:
        d.pop(key, None)
    else:
        d[key] = v
    if not d:
        return base
    return T("rec", base, tuple(sorted(d.items(), key=lambda x: x[0])))


# ---- vectors --------------------------------------------------------------------
EMPTY = T("arr", ())


def vlen(v):
    op = v.op
    if op == "arr":
        return c(len(v.args[0]))
    if op == "vpush":
        return add(vlen(v.args[0]), c(1))
    if op == "vapp":
        return add(vlen(v.args[0]), vlen(v.args[1]))
    if op in ("store",):
        return vlen(v.args[0])
    if op == "repeat":
        return v.args[1]
    if op == "rec":
        return vlen(v.args[0])
    if op == "slice":
        return sub(v.args[2], v.args[1])
    if op == "comp":
        if v.args[0].op not in ("zips", "chains") and total_comp(v):
            return vlen(v.args[0])
        return T("cnt", v.args[0], frozenset(cl for cl, _ in v.args[1]))
    if op == "range":
        return sub(v.args[1], v.args[0])
    if op == "rev":
        return vlen(v.args[0])
    if op == "vins":
        return add(vlen(v.args[0]), c(1))
    return T("len", v)


def vpush(v, x):
    if v.op == "arr":
        return T("arr", v.args[0] + (x,))
    return T("vpush", v, x)


def vapp(v, w):
    if w is EMPTY:
        return v
    if v is EMPTY:
        return w
    if w.op == "arr":
        for x in w.args[0]:
            v = vpush(v, x)
        return v
    if w.op == "vpush":
        return vpush(vapp(v, w.args[0]), w.args[1])
    if w.op == "vapp":
        return vapp(vapp(v, w.args[0]), w.args[1])
    return T("vapp", v, w)


def pos(v):
    return T("pos", v)


def elem(v):
    return T("elem", v)


def rng(a, b):
    return T("range", a, b)


def rng_elem(r):
    a, b = r.args
    if is_c(a) and a.args[0] == 0 and b.op == "len":
        return pos(b.args[0])
    return T("elem", r)


# ---- boolean atoms -----------------------------------------------------------------
def lnot(t):
    if is_c(t):
        return c(1 - t.args[0])
    if t.op == "not":
        return t.args[0]
    return T("not", t)


def lt(a, b):
    ka, da = lin_of(a)
    kb, db = lin_of(b)
    if da == db:
        return c(ka < kb)
    if is_c(b) and b.args[0] == 0:
        return FALSE
    # move constants: keep canonical by shifting the smaller constant to zero
    m = min(ka, kb)
    if m:
        a, b = add(a, c(-m)), add(b, c(-m))
    return T("lt", a, b)


def le(a, b):
    return lnot(lt(b, a))


def distinct_consts(a, b):
    return a.op in ("c", "str", "bytes") and b.op == a.op and a is not b


def eq(a, b):
    if a is b:
        return TRUE
    if distinct_consts(a, b):
        return FALSE
    if a.op in ("adt",) and b.op == "adt":
        if a.args[1] != b.args[1]:
            return FALSE
        return conj([eq(x, proj(b, (a.args[1] + "." + n) if a.args[1] else n)) for n, x in a.args[2]])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and x.args[1] and not x.args[2]:
            return isv(y, x.args[1], x.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "discr" and is_c(y):
            vs = VARIANTS.get(x.args[1])
            if vs and x.args[1] != "core::cmp::Ordering" and 0 <= y.args[0] < len(vs):
                return isv(x.args[0], vs[y.args[0]], x.args[1])
        if x.op == "discr" and y.op == "discr" and x.args[1] == y.args[1] and x.args[0].op == "adt":
            return isv(y.args[0], x.args[0].args[1], x.args[1])
    for x, y in ((a, b), (b, a)):
        if x.op == "tup":
            return conj([eq(u, proj(y, str(i))) for i, u in enumerate(x.args[0])])
        if x.op == "adt" and x.args[1] == "" and x.args[2]:
            return conj([eq(u, proj(y, n)) for n, u in x.args[2]])
    ka, da = lin_of(a)
    kb, db = lin_of(b)
    if da == db and ka != kb:
        return FALSE
    m = min(ka, kb)
    if m and (a.op in ("lin", "c") or b.op in ("lin", "c")):
        a, b = add(a, c(-m)), add(b, c(-m))
    if a.id > b.id:
        a, b = b, a
    return T("eq", a, b)


def conj(ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            out.extend(t.args[0])
        else:
            out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", tuple(out))


VARIANTS = {"core::option::Option": ("None", "Some"), "core::result::Result": ("Ok", "Err"),
            "core::cmp::Ordering": ("Less", "Equal", "Greater"), "core::ops::control_flow::ControlFlow": ("Continue", "Break"),
            "alloc::borrow::Cow": ("Borrowed", "Owned"), "core::ops::range::Bound": ("Included", "Excluded", "Unbounded")}


def isv(t, v, path):
    """variant test; path names the enum (its variants are in VARIANTS)"""
    if t.op == "adt":
        return c(t.args[1] == v)
    if t.op == "rec":
        return isv(t.args[0], v, path)
    if t.op == "ordcmp":
        a, b = t.args
        if v == "Less":
            return lt(a, b)
        if v == "Greater":
            return lt(b, a)
        return eq(a, b)
    if t.op == "vfirst" or t.op == "vlast" or t.op == "vmax" or t.op == "vmin":
        e = eq(vlen(t.args[0]), c(0))
        return e if v == "None" else lnot(e)
    return T("isv", t, v, path)


def subst(t, m, memo=None):
    """substitute terms in a term"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = t

    def go(x):
        if isinstance(x, Term):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    na = tuple(go(x) for x in t.args)
    if na == t.args:
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "f":
        return proj(a[0], a[1])
    if op == "lin":
        k, d = a
        r = c(k)
        for t, n in d:
            kk, dd = lin_of(t)
            r = add(r, mk_lin(kk * n, {x: y * n for x, y in dd}))
        return r
    if op == "lt":
        return lt(*a)
    if op == "eq":
        return eq(*a)
    if op == "not":
        return lnot(a[0])
    if op == "isv":
        return isv(a[0], a[1], a[2])
    if op == "and":
        return conj(a[0])
    if op == "len":
        return vlen(a[0])
    if op == "rec":
        r = a[0]
        for k, v in a[1]:
            r = setf(r, k, v)
        return r
    return T(op, *a)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return seen


def contains(t, x):
    return x in subterms(t)


# ---- facts ------------------------------------------------------------------------
Z = c(0)


def split_lin(t):
    k, d = lin_of(t)
    if not d:
        return Z, k
    return mk_lin(0, dict(d)), k


def part_of(x, y):
    """y is x plus nonnegative multiples of (unsigned) quantities"""
    if x is y:
        return False
    d = dict(y.args[1])
    for t, n in lin_of(x)[1]:
        if d.get(t, 0) < n:
            return False
        d[t] = d.get(t, 0) - n
    return all(n >= 0 for n in d.values())


def cancel(a, b):
    """(P, N) without common terms and P - N = a - b"""
    d = dict(lin_of(sub(a, b))[1])
    return mk_lin(0, {t: n for t, n in d.items() if n > 0}), mk_lin(0, {t: -n for t, n in d.items() if n < 0})


class Facts:
    """A set of boolean literals that hold on every concrete path through the abstract state.
    Order literals form a difference-bound graph  a - b <= k  over value numbers (all quantities unsigned)."""
    __slots__ = ("lits", "E", "nes", "isvs", "memo", "_al")

    def __init__(self):
        self.lits = frozenset()
        self.E = {}          # a -> {b: k}  meaning a - b <= k
        self.nes = ()
        self.isvs = {}       # term -> (is, frozenset(nots), path)
        self.memo = {}
        self._al = None

    @staticmethod
    def of(lits):
        f = Facts()
        for l in lits:
            g = f.add(l)
            f = g if g is not None else f
        return f

    def __eq__(self, o):
        return self.lits == o.lits

    def __hash__(self):
        return hash(self.lits)

    def inter(self, o):
        if self.lits == o.lits:
            return self
        common = self.lits & o.lits
        extra = [l for l in self.lits - common if o.decide(l) is True]
        extra += [l for l in o.lits - common if self.decide(l) is True]
        return Facts.of(list(common) + extra)

    def drop(self, pred):
        """facts without the literals matching pred"""
        keep = [l for l in self.lits if not pred(l)]
        if len(keep) == len(self.lits):
            return self
        return Facts.of(keep)

    def add(self, lit):
        """-> Facts with lit, or None if contradictory.  A negated conjunction is kept as an opaque literal
        (callers split it with branch())"""
        if lit.op == "and":
            f = self
            for x in lit.args[0]:
                f = f.add(x)
                if f is None:
                    return None
            return f
        d = self.decide(lit)
        if d is True:
            return self
        if d is False:
            return None
        f = Facts()
        f.lits = self.lits | {lit}
        f.E, f.nes, f.isvs = self.E, self.nes, self.isvs
        n, l = False, lit
        if l.op == "not":
            n, l = True, l.args[0]
        if l.op in ("lt", "eq"):
            a, ka = split_lin(l.args[0])
            b, kb = split_lin(l.args[1])
            new = []
            if l.op == "lt":
                new.append((a, b, kb - ka - 1) if not n else (b, a, ka - kb))
            elif not n:
                new += [(a, b, kb - ka), (b, a, ka - kb)]
            else:
                f.nes = self.nes + ((a, ka, b, kb),)
            if new:
                E = dict(self.E)
                for x, y, k in new:
                    m = dict(E.get(x, ()))
                    if k < m.get(y, 1 << 62):
                        m[y] = k
                    E[x] = m
                f.E = E
            f._tighten()
        if l.op == "isv":
            t, v, p = l.args
            r = dict(self.isvs)
            cur = r.get(t, (None, frozenset(), p))
            if n:
                nots = cur[1] | {v}
                vs = VARIANTS.get(p)
                left = [x for x in vs if x not in nots] if vs else ()
                r[t] = (left[0] if len(left) == 1 else cur[0], nots, p)
            else:
                r[t] = (v, cur[1], p)
            f.isvs = r
        return f

    def _tighten(self):
        for _ in range(2):
            ch = False
            for (x, kx, y, ky) in self.nes:
                for (p, kp, q, kq) in ((x, kx, y, ky), (y, ky, x, kx)):
                    if self.dist(p, q) == kq - kp:
                        E = dict(self.E)
                        m = dict(E.get(p, ()))
                        m[q] = kq - kp - 1
                        E[p] = m
                        self.E = E
                        ch = True
            if not ch:
                break

    def dist(self, a, b):
        """smallest derivable k with a - b <= k, or None"""
        if a is b:
            return 0
        E = self.E
        best = {a: 0}
        work = [a]
        n = 0
        lins = [y for y in E if y.op == "lin"]
        if b.op == "lin":
            lins.append(b)
        while work:
            x = work.pop()
            dx = best[x]
            n += 1
            if n > 4000:
                break
            for y, k in E.get(x, {}).items():
                d = dx + k
                if d < best.get(y, 1 << 62):
                    if y is a and d < 0:
                        return -(1 << 40)
                    best[y] = d
                    work.append(y)
            for y in lins:
                if dx < best.get(y, 1 << 62) and part_of(x, y):
                    best[y] = dx
                    work.append(y)
            if x is Z:
                # 0 - n <= 0 for every unsigned quantity: only the target and nodes with outgoing edges matter
                for y in list(E) + [b]:
                    if dx < best.get(y, 1 << 62):
                        best[y] = dx
                        work.append(y)
        return best.get(b)

    def decide(self, lit):
        """True / False / None"""
        if lit.op == "c":
            return lit.args[0] != 0
        r = self.memo.get(lit, 0)
        if r == 0:
            r = self._decide(lit)
            self.memo[lit] = r
        return r

    def _decide(self, lit):
        if lit in self.lits:
            return True
        if lit.op == "not":
            if lit.args[0] in self.lits:
                return False
            d = self.decide(lit.args[0])
            return None if d is None else (not d)
        if T("not", lit) in self.lits:
            return False
        if lit.op == "and":
            ds = [self.decide(x) for x in lit.args[0]]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
            return None
        if lit.op == "isv":
            t, v, p = lit.args
            nots = frozenset()
            for x in self.aliases(t):
                if x.op in ("adt", "rec", "ordcmp") and x is not t:
                    y = isv(x, v, p)
                    if y.op != "isv":
                        return self.decide(y)
                e = self.isvs.get(x)
                if e:
                    if e[0] is not None:
                        return e[0] == v
                    nots |= e[1]
            if v in nots:
                return False
            vs = VARIANTS.get(p)
            if vs and nots and set(vs) - nots == {v}:
                return True
            return None
        if lit.op in ("lt", "eq"):
            a, b = lit.args
            if a is Z and b.op == "cnt" and self.cnt_pos(b):
                return lit.op == "lt"
            if b is Z and a.op == "cnt" and lit.op == "eq" and self.cnt_pos(a):
                return False
            A, ka = split_lin(a)
            B, kb = split_lin(b)
            u = self.dist(A, B)
            w = self.dist(B, A)
            if (A.op == "lin" or B.op == "lin") and (u is None or w is None):
                P, N = cancel(A, B)
                if P is not A:
                    if u is None:
                        u = self.dist(P, N)
                    if w is None:
                        w = self.dist(N, P)
            hi = None if u is None else u + ka - kb      # a-b <= hi
            lo = None if w is None else -(w + kb - ka)   # a-b >= lo
            if lit.op == "lt":
                if hi is not None and hi <= -1:
                    return True
                if lo is not None and lo >= 0:
                    return False
                return None
            if hi == 0 and lo == 0:
                return True
            if (hi is not None and hi < 0) or (lo is not None and lo > 0):
                return False
            for (x, kx, y, ky) in self.nes:
                for (p, kp, q, kq) in ((x, kx, y, ky), (y, ky, x, kx)):
                    if kp - kq == ka - kb and self._eqn(p, A) and self._eqn(q, B):
                        return False
            # congruence on fields
            for x in self.aliases(a):
                for y in self.aliases(b):
                    if x.op == "f" and y.op == "f" and x.args[1] == y.args[1]:
                        if self.decide(eq(x.args[0], y.args[0])) is True:
                            return True
            # different variants
            for x in self.aliases(a):
                e = self.isvs.get(x)
                if e and e[0] is not None:
                    for y in self.aliases(b):
                        g = self.isvs.get(y)
                        if g and g[0] is not None and g[0] != e[0]:
                            return False
            return None
        if lit.op == "any":
            src, dnf = lit.args
            # all clauses already excluded / some weaker clause excluded
            for l in self.lits:
                if l.op == "not" and l.args[0].op == "any" and l.args[0].args[0] is src:
                    if all(any(k <= cl for k in l.args[0].args[1]) for cl in dnf):
                        return False
                if l.op == "any" and l.args[0] is src:
                    if all(any(k <= cl for k in dnf) for cl in l.args[1]):
                        return True
            if self.decide(eq(vlen(src), c(0))) is True:
                return False
            return None
        return None

    def cnt_pos(self, t):
        """a stored element is known to satisfy the counted predicate"""
        src, dnf = t.args
        v = src
        while v.op == "store":
            _, i, x = v.args
            for cl in dnf:
                m = {T("belem", src): x, T("bpos", src): i}
                if all(self.decide(subst(l, m)) is True for l in cl):
                    return True
            v = v.args[0]
        return False

    def _eqn(self, p, q):
        return p is q or (self.dist(p, q) == 0 and self.dist(q, p) == 0)

    def aliases(self, t):
        """terms known equal to t through eq facts"""
        if self._al is None:
            al = {}
            for l in self.lits:
                if l.op == "eq":
                    a, b = l.args
                    al.setdefault(a, set()).add(b)
                    al.setdefault(b, set()).add(a)
            self._al = al
        al = self._al
        if t not in al:
            return (t,)
        out, st = {t}, [t]
        while st:
            for y in al.get(st.pop(), ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def holds(self, lit):
        return self.decide(lit) is True

    def same(self, a, b):
        """provably equal terms"""
        if a is b:
            return True
        if a.op in ("tup", "adt") and b.op == a.op:
            e = eq(a, b)
            if e.op == "and":
                return all(self.same(*x.args) if x.op == "eq" else self.holds(x) for x in e.args[0])
            if e.op == "c":
                return e is TRUE
        return self.holds(eq(a, b))


# ---- printing ------------------------------------------------------------------------
def exhaustive(f, cls, depth=0):
    """under f every element satisfies one of the clauses"""
    left = []
    for cl in cls:
        und, dead = [], False
        for l in cl:
            d = f.decide(l)
            if d is False:
                dead = True
                break
            if d is None:
                und.append(l)
        if dead:
            continue
        if not und:
            return True
        left.append(und)
    if not left or depth > 24:
        return False
    l = min(left, key=len)[0]
    for k in (l, lnot(l)):
        g = f.add(k)
        if g is not None and not exhaustive(g, left, depth + 1):
            return False
    return True


_total = {}


def total(cls):
    """the clauses (frozensets of literals) cover every element"""
    k = frozenset(cls)
    r = _total.get(k)
    if r is None:
        r = _total[k] = exhaustive(Facts(), k)
    return r


def total_comp(v):
    """every element of the source gives an element of the comprehension"""
    return total(cl for cl, _ in v.args[1])


def show(t, depth=8):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ", ".join(sorted(show(x, depth) for x in t)) + "}"
        return str(t)
    if depth == 0:
        return "…"
    o, a = t.op, t.args
    d = depth - 1
    if o == "c":
        return str(a[0])
    if o == "sym":
        return a[0]
    if o == "f":
        return show(a[0], d) + "." + a[1]
    if o == "adt":
        v = a[1]
        if not a[2]:
            return v
        return v + "{" + ", ".join("%s: %s" % (n, show(x, d)) for n, x in a[2]) + "}"
    if o == "tup":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if o == "arr":
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    if o == "lin":
        s = " + ".join(("" if n == 1 else "%d*" % n) + show(x, d) for x, n in a[1])
        return "(%s%s)" % (s, "" if a[0] == 0 else (" + %d" % a[0] if a[0] > 0 else " - %d" % -a[0]))
    if o == "lt":
        return "%s < %s" % (show(a[0], d), show(a[1], d))
    if o == "eq":
        return "%s == %s" % (show(a[0], d), show(a[1], d))
    if o == "not":
        x = a[0]
        if x.op == "lt":
            return "%s <= %s" % (show(x.args[1], d), show(x.args[0], d))
        if x.op == "eq":
            return "%s != %s" % (show(x.args[0], d), show(x.args[1], d))
        return "!(" + show(a[0], d) + ")"
    if o == "isv":
        return "%s is %s" % (show(a[0], d), a[1])
    if o == "rec":
        return show(a[0], d) + "{..," + ", ".join("%s: %s" % (k, show(v, d)) for k, v in a[1]) + "}"
    if o == "ref":
        return "&%s%s" % (a[0], "".join("." + (x if isinstance(x, str) else "[%s]" % show(x[1], d)) for x in a[1]))
    if o == "vref":
        return "&" + show(a[0], d)
    return o + "(" + ", ".join(show(x, d) for x in a) + ")"
