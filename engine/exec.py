"""Path-sensitive interprocedural dataflow over MIR: a trace-partitioned abstract interpreter.

Abstract state = store of value numbers (terms) + branch facts + the event trace of the partition.
Every CFG path is covered: branches fork the partition unless the facts decide them, loops are summarised
by one generic iteration (all places the body can change are replaced by loop symbols first), calls are analysed
in context through their bodies, library containers/iterators through the transfer functions in models.py."""
import heapq, sys
from terms import *
import mir

sys.setrecursionlimit(20000)


class Event:
    __slots__ = ("k", "d", "span", "stack", "facts", "ver", "env")

    def __init__(self, k, d, span, stack, facts, ver=None, env=None):
        self.k, self.d, self.span, self.stack, self.facts, self.ver, self.env = k, d, span, stack, facts, ver, env

    def key(self):
        return (self.k, self.d, self.span)

    def __repr__(self):
        return "%s%s @%s" % (self.k, show(self.d, 6), self.span)


class Loop:
    """payload of a 'loop' event: one generic iteration per continuing partition of the body"""
    __slots__ = ("lid", "it", "iters", "early", "where", "base", "bfacts", "init", "skips")

    def __init__(self, lid, it, iters, early, where, base=None, bfacts=None, init=None):
        self.init = init or {}
        self.lid, self.it, self.iters, self.early, self.where = lid, it, iters, early, where
        self.base, self.bfacts = base, bfacts
        self.skips = []

    def __repr__(self):
        return "Loop(%s, %d iters)" % (self.it, len(self.iters))


class Iter:
    __slots__ = ("facts", "delta", "events", "upd", "end", "st")

    def __init__(self, facts, delta, events, upd, end=None, st=None):
        self.facts, self.delta, self.events, self.upd, self.end, self.st = facts, delta, events, upd, end, st


class State:
    __slots__ = ("mem", "facts", "ev", "ver")

    def __init__(self, mem=None, facts=None, ev=None, ver=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts or Facts()
        self.ev = ev          # (prev, Event)
        self.ver = ver or c(0)

    def copy(self):
        return State(dict(self.mem), self.facts, self.ev, self.ver)

    def events(self):
        out, e = [], self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    def events_since(self, mark):
        out, e = [], self.ev
        while e is not mark:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    def key(self):
        return (frozenset(self.mem.items()), id(self.ev), self.facts.lits, self.ver)


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("fn", "tsub", "depth", "stack")

    def __init__(self, fn, tsub, depth, stack):
        self.fn, self.tsub, self.depth, self.stack = fn, tsub, depth, stack


LOCALISH = ("L", "A", "I", "H", "V")


def flatten_events(evs):
    """events including those of summarised loops (the generic iterations), with the loop nesting"""
    def go(evs, loops):
        for e in evs:
            if e.k == "loop":
                yield e, loops
                for it in e.d[0].iters:
                    for x in go(it.events, loops + ((e.d[0], it),)):
                        yield x
            else:
                yield e, loops
    return go(evs, ())


class Exec:
    def __init__(self, prog, cut=None, budget=2_000_000):
        self.prog = prog
        self.skips = {}          # loop -> facts of the elements its iterator filters out
        self.cut = cut or (lambda fn: False)
        self.steps = 0
        self.budget = budget
        self.panics = []
        self.sums = []           # unchecked additions of two unknowns
        self.diffs = []
        self.unmodelled = {}
        self.lidc = 0
        self.hidc = 0
        self.jidc = 0
        self.join_at = 6
        self.fns_seen = set()
        self.argtys = None
        self.restype = None
        self.calls_seen = 0
        self.loops_seen = 0
        for p, a in prog.adts.items():
            if a["kind"] == "enum":
                VARIANTS[p] = tuple(a["order"])
        import models
        self.models = models

    # ---- memory -------------------------------------------------------------------
    def read_root(self, st, root):
        if isinstance(root, tuple) and root[0] == "V":
            return root[1]
        v = st.mem.get(root)
        if v is None:
            if isinstance(root, tuple) and root[0] == "D":
                v = T("deref", root[1])
            elif isinstance(root, tuple) and root[0] in ("L", "H"):
                v = T("undef", str(root))
            else:
                v = T("sym", root)
            st.mem[root] = v
        return v

    def load(self, st, loc):
        root, path = loc
        v = self.read_root(st, root)
        for k in path:
            v = self.step(st, v, k)
        return v

    def step(self, st, v, k):
        if isinstance(k, tuple):
            return self.vget(st, v, k[1])
        return proj(v, k)

    def vget(self, st, v, i):
        op = v.op
        if op == "arr" and is_c(i) and i.args[0] < len(v.args[0]):
            return v.args[0][i.args[0]]
        if op == "vpush":
            if st.facts.same(i, vlen(v.args[0])):
                return v.args[1]
            if st.facts.holds(lt(i, vlen(v.args[0]))):
                return self.vget(st, v.args[0], i)
        if op == "vapp":
            if st.facts.holds(lt(i, vlen(v.args[0]))):
                return self.vget(st, v.args[0], i)
        if op == "store":
            if st.facts.same(i, v.args[1]):
                return v.args[2]
            if st.facts.decide(eq(i, v.args[1])) is False:
                return self.vget(st, v.args[0], i)
        if op == "repeat":
            return v.args[0]
        if i.op == "pos" and i.args[0] is v:
            return T("elem", v, i.args[1])
        if op == "slice":
            return self.vget(st, v.args[0], add(i, v.args[1]))
        return T("at", v, i)

    def put(self, st, v, path, x):
        if not path:
            return x
        k = path[0]
        sub = self.put(st, self.step(st, v, k), path[1:], x)
        if isinstance(k, tuple):
            return self.vstore(st, v, k[1], sub)
        return setf(v, k, sub)

    def vstore(self, st, v, i, x):
        if v.op == "arr" and is_c(i) and i.args[0] < len(v.args[0]):
            l = list(v.args[0])
            l[i.args[0]] = x
            return T("arr", tuple(l))
        if v.op == "vpush" and st.facts.same(i, vlen(v.args[0])):
            return vpush(v.args[0], x)
        if v.op == "store" and st.facts.same(i, v.args[1]):
            return T("store", v.args[0], v.args[1], x)
        if self.vget(st, v, i) is x:
            return v
        return T("store", v, i, x)

    def store(self, st, loc, x, fr, span, kind="w", data=None):
        """in-place update of st"""
        root, path = loc
        if isinstance(root, tuple) and root[0] == "V":
            return
        v = self.read_root(st, root)
        env = st.mem.get("self")
        st.mem[root] = self.put(st, v, path, x)
        if not (isinstance(root, tuple) and root[0] in LOCALISH):
            self.emit(st, kind, (root, path, x if data is None else data), fr, span, env)

    def emit(self, st, kind, data, fr, span, env=None):
        st.ev = (st.ev, Event(kind, data, span, fr.stack, st.facts, st.ver, env if env is not None else st.mem.get("self")))

    # ---- places / operands ------------------------------------------------------------
    def loc(self, st, fr, place):
        local, projs, _ = place
        root, path = ("L", fr.depth, local), ()
        var = None
        for p in projs:
            if p == "*":
                v = self.load(st, (root, path))
                root, path = self.target(st, v)
            elif p[0] == "f":
                path = path + ((var + "." + p[2]) if var else p[2],)
                var = None
            elif p[0] == "d":
                var = p[2]
            elif p[0] == "i":
                path = path + (("i", self.load(st, (("L", fr.depth, p[1]), ()))),)
            elif p[0] == "c":
                if p[2]:
                    v = self.load(st, (root, path))
                    path = path + (("i", sub(vlen(v), c(p[1]))),)
                else:
                    path = path + (("i", c(p[1])),)
            elif p[0] == "s":
                v = self.load(st, (root, path))
                root, path = ("V", T("slice", v, c(p[1]), c(p[2]) if not p[3] else sub(vlen(v), c(p[2])))), ()
        return root, path

    def target(self, st, v):
        """location a pointer value points to"""
        if v.op == "ref":
            return v.args[0], v.args[1]
        if v.op == "vref":
            return ("V", v.args[0]), ()
        if v.op == "box":
            return ("V", v.args[0]), ()
        return ("D", v), ()

    def deref(self, st, v):
        return self.load(st, self.target(st, v))

    def deref_all(self, st, v, ty=None):
        while v.op in ("ref", "vref"):
            v = self.deref(st, v)
        return v

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.load(st, self.loc(st, fr, o[1]))
        if o[0] == "k":
            return self.const(st, fr, o)
        return T("opq", str(o))

    def const(self, st, fr, o):
        ty, v = o[1], o[2]
        if "fn" in v:
            return T("fnitem", Wrap(v["fn"]), Wrap(fr.tsub))
        if "int" in v:
            n = v["int"]
            if ty[0] == "adt" and ty[1] == "core::option::Option" and int(n) == 0 and ty[2] and ty[2][0][0] in ("ref", "adt"):
                return NONE            # niche-encoded constant
            return c(int(n))
        if "str" in v:
            return T("vref", T("str", v["str"]))
        if "bytes" in v:
            return T("vref", T("str", str(v["bytes"])))
        if "prom" in v:
            pr = v["prom"]
            pf = None
            if isinstance(pr, int):
                pf = fr.fn.prom[pr]
            elif pr[0] in self.prog.fns and pr[1] < len(self.prog.fns[pr[0]].prom):
                pf = self.prog.fns[pr[0]].prom[pr[1]]
            if pf is not None:
                outs = self.exec_fn(st.copy(), pf, fr.tsub, [], fr.stack, fr.depth + 1, keep=True)
                if len(outs) == 1:
                    s2, r = outs[0]
                    if r.op == "ref":
                        return T("vref", self.load(s2, r.args))
                    return r
            return T("opq", "prom%s" % (v,))
        if "def" in v:
            f = self.prog.fns.get(v["def"])
            if f is not None:
                outs = self.exec_fn(st.copy(), f, {}, [], fr.stack, fr.depth + 1, keep=True)
                if len(outs) == 1:
                    s2, r = outs[0]
                    if r.op == "ref":
                        return T("vref", self.load(s2, r.args))
                    return r
            return T("const", v["def"])
        if "zst" in v:
            t = mir.subst(ty, fr.tsub)
            if t[0] == "tuple":
                return UNIT
            if t[0] == "adt":
                return self.unit_value(t)
            if t[0] == "closure":
                return T("clo", t[1], (), Wrap(self.clo_sub(t, fr.tsub)))
            if t[0] == "fndef":
                return T("fnitem", Wrap({"d": t[1], "a": t[2], "n": t[1].split("::")[-1]}), Wrap(fr.tsub))
            return T("zst", str(t))
        return T("opq", str(sorted(v.items(), key=str)))

    def unit_value(self, t):
        a = self.prog.adts.get(t[1])
        if a and a["kind"] == "struct":
            v = a["order"][0]
            return adt(t[1], "", [(f[0], T("zst", f[0])) for f in a["vars"][v][1]])
        return adt(t[1], "", ())

    def clo_sub(self, t, tsub):
        f = self.prog.fns.get(t[1])
        if f is None:
            return {}
        return {g[1]: mir.subst(a, tsub) for g, a in zip(f.gen, t[2]) if g[0] == "param"}

    # ---- branching -----------------------------------------------------------------------
    def branch(self, st, lit):
        """-> (states where lit holds, states where it does not)"""
        d = st.facts.decide(lit)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        if lit.op == "not":
            b, a = self.branch(st, lit.args[0])
            return a, b
        if lit.op == "and":
            pos_, neg = [st], []
            for x in lit.args[0]:
                nxt = []
                for s in pos_:
                    a, b = self.branch(s, x)
                    nxt += a
                    neg += b
                pos_ = nxt
            return pos_, neg
        a, b = [], []
        f = st.facts.add(lit)
        if f is not None:
            s = st.copy()
            s.facts = f
            a.append(s)
        f = st.facts.add(lnot(lit))
        if f is not None:
            s = st.copy()
            s.facts = f
            b.append(s)
        return a, b

    def assume(self, st, lit):
        return self.branch(st, lit)[0]

    # ---- functions --------------------------------------------------------------------------
    def exec_fn(self, st, fn, tsub, args, stack, depth, keep=False):
        """-> [(state, return value)]"""
        self.fns_seen.add(fn.key)
        if depth > 120:
            raise Budget("call depth")
        fr = Frame(fn, tsub, depth, stack)
        for i, a in enumerate(args):
            st.mem[("L", depth, i + 1)] = a
        outs = []
        conts, exits, rets = self.region(fr, {0: [st]}, None, None)
        for s in rets:
            r = s.mem.get(("L", depth, 0), UNIT)
            if not keep:
                for k in [k for k in s.mem if isinstance(k, tuple) and k[0] == "L" and k[1] >= depth]:
                    del s.mem[k]
            outs.append((s, r))
        return self.dedupe(outs)

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for s, r in outs:
            k = (s.key(), r)
            if k not in seen:
                seen.add(k)
                res.append((s, r))
        return res

    def rpo(self, fn):
        o = getattr(self, "_rpo", None)
        if o is None:
            o = self._rpo = {}
        r = o.get(fn.key)
        if r is None:
            order, seen = [], {0}
            stack = [(0, iter(mir.succs(fn.blocks[0][1])))]
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(mir.succs(fn.blocks[s][1]))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            r = o[fn.key] = {b: i for i, b in enumerate(order[::-1])}
        return r

    def region(self, fr, init, blocks, header):
        """analyse from the states in init ({block: [states]}) inside the block set (None = whole function).
        -> (states that reached the loop header again, [(target block, state)] leaving the set, returned states)"""
        rpo = self.rpo(fr.fn)
        loops = fr.fn.loops()
        pend = {}
        heap = []

        def push(b, s):
            l = pend.get(b)
            if l is None:
                pend[b] = [s]
                heapq.heappush(heap, (rpo[b], b))
            else:
                l.append(s)
        conts, exits, rets = [], [], []

        def edge(b, s):
            if b == header:
                conts.append(s)
            elif blocks is not None and b not in blocks:
                exits.append((b, s))
            else:
                push(b, s)
        for b, ss in init.items():
            for s in ss:
                push(b, s)
        while heap:
            _, b = heapq.heappop(heap)
            ss = pend.pop(b)
            if len(ss) > 1:
                ss = [s for s, _ in self.dedupe([(s, None) for s in ss])]
            if b in loops and b != header:
                if len(ss) > self.join_at:
                    le, lr = self.joined_loop(fr, b, loops[b], ss)
                    rets.extend(lr)
                    for tb, x in le:
                        edge(tb, x)
                    continue
                for s in ss:
                    le, lr = self.run_loop(fr, b, loops[b], s)
                    rets.extend(lr)
                    for tb, x in le:
                        edge(tb, x)
                continue
            for s in ss:
                self.block(fr, b, s, edge, rets)
        return conts, exits, rets

    def block(self, fr, b, st, edge, rets, start=0):
        stmts, t = fr.fn.blocks[b]
        self.steps += 1 + len(stmts) - start
        if self.steps > self.budget:
            raise Budget("step budget exhausted in %s" % fr.fn.key)
        for i in range(start, len(stmts)):
            s = stmts[i]
            k = s[0]
            if k == "=":
                if s[2][0] == "cast" and s[2][2][0] in ("c", "m") and mir.subst(s[2][2][1][2], fr.tsub) == ("prim", "bool"):
                    # a condition as a number: one partition each
                    good, bad = self.branch(st, self.operand(st, fr, s[2][2]))
                    for n, xs in ((1, good), (0, bad)):
                        for x in xs:
                            self.store(x, self.loc(x, fr, s[1]), c(n), fr, s[3])
                            self.block(fr, b, x, edge, rets, i + 1)
                    return
                self.assign(st, fr, s[1], s[2], s[3])
            elif k == "dead":
                st.mem.pop(("L", fr.depth, s[1]), None)
            elif k == "setd":
                l = self.loc(st, fr, s[1])
                ty = mir.subst(s[1][2], fr.tsub)
                self.store(st, l, self.mk_variant(ty, s[2]), fr, s[3])
        k = t[0]
        if k == "goto":
            edge(t[1], st)
        elif k == "ret":
            rets.append(st)
        elif k == "drop":
            edge(t[2], st)
        elif k == "switch":
            self.switch(st, fr, t, edge)
        elif k == "assert":
            cond = self.operand(st, fr, t[1])
            good, bad = self.branch(st, cond if t[2] else lnot(cond))
            for s in bad:
                self.panics.append((s, "assert " + str(t[4]), t[5], fr.stack, fr.fn.key))
            for s in good:
                edge(t[3], s)
        elif k == "call":
            args = [self.operand(st, fr, a) for a in t[2]]
            self.argtys = [mir.subst(a[1][2] if a[0] in ("c", "m") else a[1], fr.tsub) if a[0] in ("c", "m", "k") else None for a in t[2]]
            self.restype = mir.subst(t[3][2], fr.tsub)
            fv = t[1][2]["fn"] if t[1][0] == "k" and "fn" in t[1][2] else None
            self.calls_seen += 1
            if fv is not None:
                outs = self.call(st, fr, fv, fr.tsub, args, t[5], t)
            else:
                outs = self.call_value(st, fr, self.operand(st, fr, t[1]), args, t[5])
            if t[4] is None:
                for s, r in outs:
                    self.panics.append((s, "diverges", t[5], fr.stack, fr.fn.key))
                return
            for s, r in outs:
                self.store(s, self.loc(s, fr, t[3]), r, fr, t[5])
                edge(t[4], s)
        elif k == "unreach":
            pass
        else:
            self.panics.append((st, k, None, fr.stack, fr.fn.key))

    def mk_variant(self, ty, vidx):
        a = self.prog.adts.get(ty[1])
        return adt(ty[1], a["order"][vidx], ())

    def switch(self, st, fr, t, edge):
        v = self.operand(st, fr, t[1])
        cur = [st]
        if v.op == "discr":
            x, path = v.args
            info = self.prog.adts.get(path)
            names = {}
            if path == "core::cmp::Ordering":
                names = {255: "Less", 0: "Equal", 1: "Greater", -1: "Less"}
            elif info:
                names = {d: n for n, (d, _) in info["vars"].items()}
            else:
                names = dict(enumerate(VARIANTS.get(path, ())))
            rest = []
            for val, bb in t[2]:
                nxt = []
                for s in cur:
                    lit = isv(x, names.get(val, "?%s" % val), path)
                    a, b = self.branch(s, lit)
                    for y in a:
                        edge(bb, y)
                    nxt += b
                cur = nxt
            for s in cur:
                # no variant left -> infeasible
                left = [n for n in names.values() if s.facts.decide(isv(x, n, path)) is not False]
                if left or not names:
                    edge(t[3], s)
            return
        isbool = t[4] == ("prim", "bool")
        for val, bb in t[2]:
            nxt = []
            for s in cur:
                lit = (lnot(v) if val == 0 else v) if isbool else eq(v, c(val))
                a, b = self.branch(s, lit)
                for y in a:
                    edge(bb, y)
                nxt += b
            cur = nxt
        for s in cur:
            edge(t[3], s)

    def assign(self, st, fr, place, rv, span):
        k = rv[0]
        if k == "use":
            v = self.operand(st, fr, rv[1])
        elif k in ("ref", "reborrow"):
            root, path = self.loc(st, fr, rv[1])
            v = T("vref", self.load(st, (root, path))) if isinstance(root, tuple) and root[0] == "V" else T("ref", root, path)
        elif k == "agg":
            v = self.aggregate(st, fr, rv[1], [self.operand(st, fr, x) for x in rv[2]])
        elif k == "bin":
            v = self.binop(rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), st)
        elif k == "un":
            x = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                ty = place[2]
                v = lnot(x) if ty == ("prim", "bool") else T("bitnot", x)
            elif rv[1] == "PtrMetadata":
                v = vlen(self.deref_all(st, x))
            else:
                v = T("un", rv[1], x)
        elif k == "discr":
            ty = mir.subst(rv[1][2], fr.tsub)
            x = self.load(st, self.loc(st, fr, rv[1]))
            v = T("discr", x, ty[1] if ty[0] == "adt" else str(ty))
        elif k == "cast":
            x = self.operand(st, fr, rv[2])
            b = x
            while b.op == "f":
                b = b.args[0]
            if b is not x and b.op == "boxu":
                v = T("ref", ("H", b.args[0]), ())
            elif b is not x and b.op == "box":
                v = T("vref", b.args[0])
            else:
                v = x
        elif k == "repeat":
            v = T("repeat", self.operand(st, fr, rv[1]), c(rv[2]) if isinstance(rv[2], int) else T("sym", str(rv[2])))
        else:
            v = T("opq", str(rv[1]))
        self.store(st, self.loc(st, fr, place), v, fr, span)

    def aggregate(self, st, fr, kk, ops):
        if kk[0] == "tuple":
            return tup(ops)
        if kk[0] == "array":
            return T("arr", tuple(ops))
        if kk[0] == "adt":
            a = self.prog.adts.get(kk[1])
            variant = kk[3] if a is None or a["kind"] == "enum" or kk[1] in VARIANTS else ""
            return adt(kk[1], variant, list(zip(kk[4], ops)))
        if kk[0] == "closure":
            t = mir.subst(kk[2], fr.tsub)
            return T("clo", kk[1], tuple(ops), Wrap(self.clo_sub(t, fr.tsub)))
        return T("agg", str(kk), tuple(ops))

    def binop(self, op, a, b, st):
        if op in ("Add", "AddUnchecked"):
            if op == "Add" and not is_c(a) and not is_c(b):
                self.sums.append((st.facts, a, b))
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            if op == "Sub":
                self.diffs.append((st.facts, a, b))
            return sub(a, b)
        if op == "AddWithOverflow":
            return tup([add(a, b), FALSE])
        if op == "SubWithOverflow":
            return tup([sub(a, b), FALSE])
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return lnot(eq(a, b))
        if op == "Cmp":
            return T("ordcmp", a, b)
        if op == "BitAnd":
            return conj([a, b]) if bool_like(a) and bool_like(b) else T("band", a, b)
        if op == "BitOr":
            return lnot(conj([lnot(a), lnot(b)])) if bool_like(a) and bool_like(b) else T("bor", a, b)
        if op in ("Div", "Rem", "Mul", "MulWithOverflow", "MulUnchecked"):
            if is_c(a) and is_c(b):
                x, y = a.args[0], b.args[0]
                if op.startswith("Mul"):
                    r = c(x * y)
                elif y:
                    r = c(x // y if op == "Div" else x % y)
                else:
                    r = T("opq", "div0")
            elif op.startswith("Mul") and (is_c(a) or is_c(b)):
                k, x = (a.args[0], b) if is_c(a) else (b.args[0], a)
                kk, d = lin_of(x)
                r = mk_lin(kk * k, {t: n * k for t, n in d})
            elif op == "Div" and is_c(b):
                r = T("div", a, b)
            else:
                r = T(op, a, b)
            return tup([r, FALSE]) if op == "MulWithOverflow" else r
        return T("bin", op, a, b)

    # ---- calls ---------------------------------------------------------------------------------
    def call(self, st, fr, cal, tsub, args, span, term=None):
        return self.models.call(self, st, fr, cal, tsub, args, span)

    def inline(self, st, fr, fn, tsub, args, span):
        if self.cut(fn):
            return self.models.cut_call(self, st, fr, fn, args, span)
        return self.exec_fn(st, fn, tsub, args, fr.stack + ((fn.label(), span),), fr.depth + 1)

    def call_value(self, st, fr, f, args, span):
        """call a closure / fn item / fn pointer value with an argument list"""
        g = self.deref_all(st, f)
        if g.op == "clo":
            fn = self.prog.fns.get(g.args[0])
            if fn is not None:
                t0 = fn.locals[1] if len(fn.locals) > 1 else None
                if t0 is not None and t0[0] == "ref":
                    if f.op in ("ref", "vref"):
                        # innermost reference to the closure
                        r = f
                        while True:
                            x = self.deref(st, r)
                            if x.op in ("ref", "vref"):
                                r = x
                            else:
                                break
                        me = r
                    else:
                        self.hidc += 1
                        root = ("H", "c%d" % self.hidc)
                        st.mem[root] = g
                        me = T("ref", root, ())
                else:
                    me = g
                return self.exec_fn(st, fn, dict(g.args[2].v), [me] + list(args),
                                    fr.stack + (("closure in " + fn.parent.split("::")[-1], span),), fr.depth + 1)
        if g.op == "fnitem":
            return self.models.call(self, st, fr, g.args[0].v, g.args[1].v, list(args), span)
        self.note("indirect call " + g.op)
        self.emit(st, "ext", ("indirect", g, tuple(args)), fr, span)
        return [(st, T("app", g, tuple(args)))]

    def note(self, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    # ---- loops -----------------------------------------------------------------------------------
    def run_loop(self, fr, header, body, st):
        """MIR loop -> ([(target block, state)], returned states)"""
        used = self.borrowed(fr.fn, header, body)
        its = [v for k, v in st.mem.items() if isinstance(k, tuple) and k[0] == "L" and k[1] == fr.depth and k[2] in used and self.models.is_concrete_iter(self, st, v)]
        if its:
            return self.unroll(fr, header, body, st)

        def once(s):
            conts, exits, rets = self.region(fr, {header: [s]}, body, header)
            return conts, [(x, ("b", tb)) for tb, x in exits] + [(x, ("r",)) for x in rets]
        outs = self.drive(st, once, fr, "%s bb%d" % (fr.fn.label(), header), fr.fn.span)
        return [(p[1], s) for s, p in outs if p[0] == "b"], [s for s, p in outs if p[0] == "r"]

    def joined_loop(self, fr, header, body, ss):
        """many partitions reach the same loop: join them (value numbers that differ become join symbols, facts are
        intersected), analyse the loop once, and instantiate the result for every partition"""
        self.jidc += 1
        jid = self.jidc
        maps = [dict() for _ in ss]
        n = [0]

        def join(vals):
            a = vals[0]
            if all(v is a for v in vals):
                return a
            if a.op == "adt" and all(v.op == "adt" and v.args[:2] == a.args[:2] and len(v.args[2]) == len(a.args[2]) for v in vals):
                return adt(a.args[0], a.args[1], [(nm, join([v.args[2][i][1] for v in vals])) for i, (nm, _) in enumerate(a.args[2])])
            if a.op == "tup" and all(v.op == "tup" and len(v.args[0]) == len(a.args[0]) for v in vals):
                return tup([join([v.args[0][i] for v in vals]) for i in range(len(a.args[0]))])
            bases = {v.args[0] if v.op == "rec" else v for v in vals}
            if len(bases) == 1:
                keys = sorted({k for v in vals if v.op == "rec" for k, _ in v.args[1]})
                if not any("." in k for k in keys):
                    r = bases.pop()
                    for k in keys:
                        r = setf(r, k, join([proj(v, k) for v in vals]))
                    return r
            key = tuple(v.id for v in vals)
            j = memo.get(key)
            if j is None:
                n[0] += 1
                j = memo[key] = T("join", jid, n[0])
                for m, v in zip(maps, vals):
                    m[j] = v
            return j
        memo = {}
        for r in {r for s in ss for r in s.mem}:
            if not (isinstance(r, tuple) and r[0] in LOCALISH):
                for s in ss:
                    self.read_root(s, r)
        roots = set(ss[0].mem)
        for s in ss[1:]:
            roots &= set(s.mem)
        J = State()
        for r in roots:
            J.mem[r] = join([s.mem[r] for s in ss])
        J.ver = join([s.ver for s in ss])
        common = None
        for s, m in zip(ss, maps):
            inv = {}
            for j, v in m.items():
                if v.op not in ("c", "adt", "tup", "arr"):
                    inv.setdefault(v, j)
            ls = set(s.facts.lits)
            if inv:
                ls |= {subst(l, inv) for l in s.facts.lits}
            if common is None:
                common = ls
            else:
                common = {l for l in common if l in ls or s.facts.decide(subst(l, m)) is True}
        J.facts = Facts.of(common)
        jl = J.facts.lits
        le, lr = self.run_loop(fr, header, body, J.copy())

        def back(x):
            out = []
            evs = x.events()
            new = [l for l in x.facts.lits if l not in jl]
            for s, m in zip(ss, maps):
                memo2 = {}
                f = s.facts
                for l in new:
                    l = subst(l, m, memo2)
                    f = f.add(l)
                    if f is None:
                        break
                if f is None:
                    continue
                y = State({r: subst(v, m, memo2) for r, v in x.mem.items()}, f, s.ev, subst(x.ver, m, memo2))
                for r, v in s.mem.items():
                    if r not in roots and r not in y.mem:
                        y.mem[r] = v
                for e in evs:
                    y.ev = (y.ev, Event(e.k, e.d if e.k == "loop" else subst_d(e.d, m, memo2), e.span, e.stack, f, e.ver, s.mem.get("self") if e.k == "loop" else (subst(e.env, m, memo2) if e.env is not None else None)))
                out.append(y)
            return out
        return [(tb, y) for tb, x in le for y in back(x)], [y for x in lr for y in back(x)]

    def borrowed(self, fn, header, body):
        """locals mutably borrowed as a whole inside the loop (iterators being advanced)"""
        k = (fn.key, header)
        m = getattr(self, "_borrowed", None)
        if m is None:
            m = self._borrowed = {}
        if k not in m:
            out = set()
            for b in body:
                for s in fn.blocks[b][0]:
                    if s[0] == "=" and s[2][0] == "ref" and not s[2][1][1]:
                        out.add(s[2][1][0])
            m[k] = out
        return m[k]

    def unroll(self, fr, header, body, st):
        cur, le, lr = [st], [], []
        for _ in range(40):
            nxt = []
            for s in cur:
                conts, exits, rets = self.region(fr, {header: [s]}, body, header)
                nxt += conts
                le += exits
                lr += rets
            cur = nxt
            if not cur:
                return le, lr
        raise Budget("unrolling")

    def drive(self, st0, once, fr, where, span):
        """Generic loop: `once(state)` runs one iteration and returns (continuing states, [(leaving state, payload)]).
        Every place the iteration may change is replaced by a loop symbol before the recorded run."""
        self.loops_seen += 1
        self.lidc += 1
        lid = self.lidc
        mark = st0.ev
        changed = {}       # (root, path) -> value at entry
        verch = False
        counter = None     # (place, its value in the generic iteration, range it runs through)
        induct = None      # places every iteration advances by a constant -> value in the generic iteration
        rnd = 0
        while rnd < 14:
            rnd += 1
            s = st0.copy()
            for (root, path), old in changed.items():
                new = self.models.generic_iter(self, old, lid)
                if new is None:
                    new = T("phi", lid, (root, path))
                if counter is not None and counter[0] == (root, path):
                    new = counter[1]
                    f = s.facts.add(le(old, new))
                    if f is not None:
                        s.facts = f
                if induct and (root, path) in induct:
                    new = induct[(root, path)]
                s.mem[root] = self.put(s, self.read_root(s, root), path, new)
            if verch:
                s.ver = T("phi", lid, "ver")
            base = s.copy()
            np = len(self.panics)
            self.skips[lid] = []
            conts, exits = once(s)
            grow = False
            for x in conts:
                if x.ver is not base.ver and not verch:
                    verch = grow = True
                for root in list(x.mem):
                    if root not in base.mem and not (isinstance(root, tuple) and root[0] in LOCALISH):
                        self.read_root(base, root)      # a place first touched inside the loop
                for root, old in base.mem.items():
                    new = x.mem.get(root)
                    if new is None or new is old:
                        continue
                    for path in self.diff(old, new, ()):
                        key = (root, path)
                        if any(r == root and path[:len(p)] == p for (r, p) in changed):
                            continue
                        for k in [k for k in changed if k[0] == root and k[1][:len(path)] == path]:
                            del changed[k]
                        changed[key] = self.load(st0.copy(), (root, path))
                        grow = True
            if not grow:
                if counter is None:
                    counter = self.find_counter(lid, base, conts, changed)
                    if counter is not None:
                        del self.panics[np:]
                        continue
                if induct is None:
                    induct = self.find_induct(lid, base, conts, changed, counter)
                    if induct:
                        del self.panics[np:]
                        continue
                break
            del self.panics[np:]
        else:
            raise Budget("loop does not stabilise in " + where)
        phis = {}
        for (root, path), old in changed.items():
            phis[(root, path)] = self.load(base, (root, path))
        iters = []
        for x in conts:
            delta = frozenset(x.facts.lits - base.facts.lits)
            upd = {k: self.load(x, k) for k in changed}
            iters.append(Iter(x.facts, delta, x.events_since(mark), upd, x.mem.get("self"), x))
        itsrc = None
        for (root, path), v in phis.items():
            if v.op == "itp":
                itsrc = v.args[0]
                break
        early = []
        done = T("done", lid)
        if counter is not None:
            itsrc = counter[2]
            for x, p in exits:
                if x.facts.decide(lt(counter[1], itsrc.args[1])) is False:
                    f = x.facts.add(done)
                    if f is not None:
                        x.facts = f
        for x, p in exits:
            if done not in x.facts.lits:
                early.append(frozenset(l for l in x.facts.lits - base.facts.lits))
        lp = Loop(lid, itsrc, iters, early, where, base.mem.get("self"), base.facts, dict(changed))
        lp.skips = self.skips.pop(lid, [])
        # closed forms for the changed places after a complete run
        closed, mono, splits = {}, [], []
        base_of = self.models.iter_base(itsrc) if itsrc is not None else None
        for k, phi in phis.items():
            if phi.op == "itp":
                continue
            old = changed[k]
            if induct and k in induct:
                src = self.models.canon_src(itsrc)
                closed[T("pos", src, lid)] = vlen(src)
                continue
            if counter is not None and k == counter[0]:
                B = itsrc.args[1]
                d = st0.facts.decide(le(old, B))
                closed[phi] = B if d is True or is_c(old) and old.args[0] == 0 else T("final", lid, str(k[1][-1:]), T("phi", lid, k))
                continue
            if iters and all(it.facts.decide(lt(it.upd[k], phi)) is False for it in iters):
                mono.append(le(old, phi))
            cf = self.running_extreme(k, phi, old, iters, itsrc, lid, st0)
            if cf is not None:
                splits.append((phi, cf))
                continue
            cf = self.closed_form(k, phi, old, iters, itsrc, lid, phis)
            if cf is not None:
                closed[phi] = cf
        elems = self.models.loop_terms(lid)
        anyd = None
        if itsrc is not None and early:
            anyd = T("any", self.models.canon_src(itsrc), frozenset(canon_clause(d, lid) for d in early))
        has_ev = any(it.events for it in iters)
        res = []
        for x, p in exits:
            tail = x.events_since(mark)
            isdone = done in x.facts.lits
            if has_ev:
                x.ev = (mark, Event("loop", (lp,), span, fr.stack, base.facts, st0.ver, st0.mem.get("self")))
            else:
                x.ev = mark
            for e in tail:
                x.ev = (x.ev, e)
            alts = [()]
            if isdone and splits:
                for phi, cf in splits:
                    alts = [a + ((phi, ls, v),) for a in alts for ls, v in cf]
            for alt in alts[1:] + alts[:1]:
              x0, p0 = x, p
              if len(alts) > 1 and alt is not alts[0]:
                  x0 = x.copy()
              r = self.loop_exit(x0, p0, isdone, closed, alt, lid, anyd, mono)
              if r is not None:
                  res.append(r)
        return res

    def loop_exit(self, x, p, isdone, closed, alt, lid, anyd, mono):
            f = x.facts
            if isdone:
                m = dict(closed)
                for phi, ls, v in alt:
                    m[phi] = v
                f = Facts.of(subst_l(l, m) for l in f.lits if not mentions_loop(l, lid, keep=m))
                if m:
                    for root in list(x.mem):
                        x.mem[root] = subst(x.mem[root], m)
                    if p is not None and len(p) > 2 and isinstance(p[2], Term):
                        p = p[:2] + (subst(p[2], m),)
                if anyd is not None:
                    f = f.add(lnot(anyd))
                for _, ls, _ in alt:
                    for l in ls:
                        f = f.add(l) if f is not None else None
            elif anyd is not None:
                f = f.add(anyd)
            if f is None:
                return None
            for l in mono:
                l2 = subst(l, m) if isdone else l
                g = f.add(l2)
                f = g if g is not None else f
            x.facts = f
            return x, p

    def running_extreme(self, key, phi, old, iters, it, lid, st0):
        """a running maximum/minimum: [(facts, value)] of the place after the loop"""
        if it is None or not iters:
            return None
        byref = False
        place = phi
        if old.op in ("ref", "vref") and any(contains(l, T("deref", phi)) for i in iters for l in i.delta):
            # a reference to the best element so far
            byref = True
            phi = T("deref", phi)
            old = self.deref_all(st0, old)
        if it.op not in ("it", "range") and it.op not in self.models.ADAPT:
            return None
        for mx in (True, False):
            cl, upd, every = [], 0, True
            for i in iters:
                u = i.upd[key]
                lits, x = [], None
                for l in i.delta:
                    if not contains(l, phi):
                        lits.append(l)
                        continue
                    neg = l.op == "not"
                    a = l.args[0] if neg else l
                    if a.op != "lt" or x is not None:
                        return None
                    p, q = a.args
                    if neg:
                        p, q = q, p                    # p <= q
                    # p < q (or <=)
                    if (p is phi) == (q is phi):
                        return None
                    x = q if p is phi else p
                    if contains(x, phi):
                        return None
                    wins = (p is phi) == mx           # the element replaces the running value
                    if wins and (self.deref_all(i.st, u) if byref else u) is not x or not wins and u is not place:
                        x = None
                        break
                    upd += wins
                else:
                    if x is None:
                        if u is not place:
                            break
                        every = False
                        continue
                    cl.append((canon_clause(lits, lid), canon(x, lid)))
                    continue
                break
            else:
                if not upd or len({x for _, x in cl}) != 1:
                    continue
                if every and self.whole(it):
                    cl = [(frozenset(), cl[0][1])]
                w = self.models.comp_term(it, frozenset(cl))
                m = T("vmax" if mx else "vmin", w)
                empty = eq(vlen(w), c(0))
                if byref:
                    o, better = T("vref", old), lt(old, m) if mx else lt(m, old)
                    eqv = eq(old, m) if old.op == "at" and old.args[0] is w else lnot(better)
                    return [([empty], o), ([lnot(empty), eqv], o), ([lnot(empty), better], T("vref", m))]
                if mx and old is c(0):
                    return [([empty], old), ([lnot(empty)], m)]
                better = lt(old, m) if mx else lt(m, old)
                return [([empty], old), ([lnot(empty), lnot(better)], old), ([lnot(empty), better], m)]
        return None

    def find_counter(self, lid, base, conts, changed):
        """a place that every iteration increments by one under the guard  place < bound  (a counting while loop)"""
        if not conts:
            return None
        vals = {k: self.load(base, k) for k in changed}
        if any(v.op == "itp" for v in vals.values()):
            return None
        for k, phi in vals.items():
            if phi.op != "phi" or phi.args != (lid, k):
                continue
            if any(self.load(x, k) is not add(phi, c(1)) for x in conts):
                continue
            for l in conts[0].facts.lits:
                if l.op == "lt" and l.args[0] is phi and not any(t.op == "phi" and t.args[0] == lid for t in subterms(l.args[1])) and all(l in x.facts.lits for x in conts):
                    it = T("range", changed[k], l.args[1])
                    src = self.models.base_src(it)
                    e = T("pos", src, lid) if src is not it else T("elem", it, lid)
                    return k, e, it
        return None

    def find_induct(self, lid, base, conts, changed, counter):
        """places that every iteration of a loop over a whole collection advances by the same constant"""
        it = [v for v in (self.load(base, k) for k in changed) if v.op == "itp"]
        if not conts or len(it) != 1 or counter is not None or not self.models.plain(it[0].args[0]):
            return {}
        src = self.models.canon_src(it[0].args[0])
        if src.op in ("range", "zips", "chains"):
            return {}
        out = {}
        for k, old in changed.items():
            phi = self.load(base, k)
            if phi.op != "phi" or phi.args != (lid, k) or old.op in ("arr", "adt", "tup", "vpush", "vapp", "comp"):
                continue
            ds = {sub(u, phi) if u.op in ("lin", "phi") else None for u in (self.load(x, k) for x in conts)}
            if len(ds) == 1:
                d, = ds
                if d is not None and is_c(d) and d.args[0] >= 1 and not contains(d, phi):
                    kk, dd = lin_of(T("pos", src, lid))
                    out[k] = add(old, mk_lin(kk * d.args[0], {x: n * d.args[0] for x, n in dd}))
        return out

    def diff(self, a, b, path):
        """paths at which two values differ"""
        if a is b:
            return []
        if a.op in ("it", "itp", "adv") or b.op in ("it", "itp", "adv"):
            if a.op == "itp" and b is a:
                return []
            return [path]
        if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and a.args[1] == "":
            out = []
            for (n, x), (m, y) in zip(a.args[2], b.args[2]):
                out += self.diff(x, y, path + (n,))
            return out
        if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
            out = []
            for i, (x, y) in enumerate(zip(a.args[0], b.args[0])):
                out += self.diff(x, y, path + (str(i),))
            return out
        if b.op == "rec" or a.op == "rec":
            ba = a.args[0] if a.op == "rec" else a
            bb = b.args[0] if b.op == "rec" else b
            if ba is bb:
                keys = {k for k, _ in (a.args[1] if a.op == "rec" else ())} | {k for k, _ in (b.args[1] if b.op == "rec" else ())}
                if not any("." in k for k in keys):
                    out = []
                    for k in sorted(keys):
                        out += self.diff(proj(a, k), proj(b, k), path + (k,))
                    return out
        return [path]

    def whole(self, it):
        """a loop over all elements of a collection (no filter in the source)"""
        return it.op in ("it", "range") and self.models.base_src(it).op != "comp"

    def closed_form(self, key, phi, old, iters, it, lid, phis):
        if it is None:
            return None
        others = [p for p in phis.values() if p is not phi and p.op != "itp"]
        # counters
        incs, ok_ = [], True
        for i in iters:
            u = i.upd[key]
            d = sub(u, phi) if u.op in ("lin", "phi", "c") or u is phi else None
            if d is None or not is_c(d):
                ok_ = False
                break
            if any(contains(l, phi) for l in i.delta):
                ok_ = False
                break
            incs.append((i.delta, d.args[0]))
        if ok_ and incs and all(k in (0, 1) for _, k in incs):
            if self.whole(it) and all(k == 1 for _, k in incs):
                dnf = frozenset([frozenset()])       # every iteration of a completed loop counts
            else:
                dnf = frozenset(canon_clause(d, lid) for d, k in incs if k == 1)
            return add(old, self.models.count_term(it, dnf))
        # pushes
        cl, ok_ = [], True
        for i in iters:
            u = i.upd[key]
            if u is phi:
                continue
            if u.op == "vpush" and u.args[0] is phi and not contains(u.args[1], phi) and not any(contains(l, phi) for l in i.delta):
                cl.append((canon_clause(i.delta, lid), canon(u.args[1], lid)))
            else:
                ok_ = False
                break
        if ok_ and cl:
            if self.whole(it) and len(cl) == len(iters) and len({x for _, x in cl}) == 1:
                cl = [(frozenset(), cl[0][1])]       # every iteration of a completed loop pushes
            return vapp(old, self.models.comp_term(it, frozenset(cl)))
        # every element of the collection looped over is replaced
        src = self.models.canon_src(it)
        if iters and self.whole(it) and src is old:
            cl = []
            for i in iters:
                u = i.upd[key]
                v = None
                if u is phi:
                    v = T("elem", src, lid)
                elif u.op == "store" and u.args[0] is phi and u.args[1] is T("pos", src, lid):
                    v = u.args[2]
                if v is None or any(contains(x, p) for p in phis.values() if p.op != "itp" for x in [v, *i.delta]):
                    cl = None
                    break
                cl.append((canon_clause(i.delta, lid), canon(v, lid)))
            if cl:
                vs = {x for _, x in cl}
                if len(vs) == 1:
                    v, = vs
                    if not any(x.op in ("belem", "bpos") for x in subterms(v)):
                        return T("repeat", v, vlen(old))
                    cl = [(frozenset(), v)]
                return self.models.comp_term(it, frozenset(cl))
        # flag set to the same constant / value whenever an iteration changes it
        return T("final", lid, str(key[1][-1:]), phi)


class Wrap:
    """hashable box for python dicts inside terms (identity by content)"""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = repr(sorted(v.items(), key=lambda x: str(x[0])))

    def __eq__(self, o):
        return isinstance(o, Wrap) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return self.v.get("n", "{}") if isinstance(self.v, dict) else "w"


def bool_like(t):
    return t.op in ("lt", "eq", "not", "and", "isv", "any") or (is_c(t) and t.args[0] in (0, 1)) or t.op in ("f", "sym", "app", "elem", "at", "call")


def canon(t, lid):
    """bind the generic element of loop lid"""
    m = {}
    for x in subterms(t):
        if x.op in ("elem", "pos") and x.args[-1] == lid:
            m[x] = T("b" + x.op, x.args[0])
    return subst(t, m) if m else t


def canon_clause(lits, lid):
    return frozenset(canon(l, lid) for l in lits if l.op != "done" and not (l.op == "not" and l.args[0].op == "done") and not (l.op == "lt" and is_range_guard(l, lid)) and not is_range_low(l, lid))


def is_range_low(l, lid):
    # every element of a range is at least its start
    if l.op != "not" or l.args[0].op != "lt":
        return False
    a, b = l.args[0].args
    return a.op == "elem" and a.args[-1] == lid and a.args[0].op == "range" and b is a.args[0].args[0]


def is_range_guard(l, lid):
    # pos(v) < len(v) holds for every element
    a, b = l.args
    if a.op == "elem" and a.args[-1] == lid and a.args[0].op == "range" and b is a.args[0].args[1]:
        return True
    return a.op == "pos" and a.args[-1] == lid and b is vlen(a.args[0])


def mentions_loop(l, lid, keep=()):
    for x in subterms(l):
        if x.op in ("elem", "pos", "done") and x.args and x.args[-1] == lid:
            return True
        if x.op == "done" and x.args[0] == lid:
            return True
        if x.op == "phi" and x.args[0] == lid and x not in keep:
            return True
    return False


def subst_l(l, m):
    return subst(l, m) if m else l


def subst_d(d, m, memo):
    if isinstance(d, Term):
        return subst(d, m, memo)
    if isinstance(d, tuple):
        return tuple(subst_d(x, m, memo) for x in d)
    return d
