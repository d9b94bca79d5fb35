"""Closed-form summaries of counted loops for the value numbering (vn.py)."""
from core import walk
from term import *
import term as T
from vn import Ptr, Phi, NULL, Give, Layer, Rec, St, isbool, mapatoms2, subst2, phis


def summarise(vn, s, st):
    if s["k"] == "For" and s.get("i") is not None:
        st = vn.exec(s["i"], st)
    if s["k"] in ("Do", "DoWhile") or s["k"] == "While" and s.get("do"):
        return vn.havoc_stmt(s, st, "do loop")
    if getattr(vn, "unroll", 0):
        r = unrolled(vn, s, st)
        if r is not NotImplemented:
            return r
    try:
        return Loop(vn, s, st).go()
    except (Give, TooBig) as g:
        vn.trace.append("loop at line %s: %s" % (s.get("l"), g))
        return vn.havoc_stmt(s, st, "loop: %s" % g)


def unrolled(vn, s, st):
    """a loop whose end is decided after a number of steps (iteration over a list of given length), possibly left earlier under conditions"""
    st0, exits, trace = st.copy(), list(vn.exits), list(vn.trace)
    left = []               # (guard, state) of the ways out

    def out(st):
        for g, x in left:
            if st is None:
                st = x.copy()
                st.guard = g
                continue
            tot = st.guard + g
            st = vn.merge(g, x, st, st0)
            st.guard = tot
        return st
    for step in range(vn.unroll + 1):
        c = vn.cond(s["c"], st) if s.get("c") is not None else ONE
        if c.const() == 0:
            return out(st)
        if step == vn.unroll:
            break
        if c.const() is None:
            x = st.copy()
            left.append((st.guard * (ONE - c), x))
            st = st.copy()
            st.guard = st.guard * c
        saved, vn.loopctl = vn.loopctl, {"brk": [], "cnt": []}
        try:
            b = vn.exec(s["b"], st)
            ctl = vn.loopctl
        finally:
            vn.loopctl = saved
        left += ctl["brk"]
        for g, x in ctl["cnt"]:
            if b is None:
                b = x
                continue
            tot = b.guard + g
            b = vn.merge(g, x, b, st0)
            b.guard = tot
        if b is None:
            return out(None)
        st = b
        if s.get("n") is not None:
            vn.ev(s["n"], st)
    vn.exits[:], vn.trace[:] = exits, trace
    vn.assign_state(st, st0)
    return NotImplemented


class Loop:
    def __init__(self, vn, s, st):
        self.vn, self.s, self.entry = vn, s, st
        vn.uid += 1
        self.uid = vn.uid
        self.k = T.raw("k", self.uid)
        self.W = {}
        self.WA = set()
        self.boolean = {}

    def ls(self, key):
        v0 = self.v0(key)
        a = T.raw("ls", (self.uid, key, bool(self.boolean.get(key))), mask=bool(self.boolean.get(key)))
        if isinstance(v0, Ptr):
            return Ptr(v0.base, v0.idx[:-1] + (a,))
        if isinstance(v0, Poly):
            return a
        raise Give("loop-carried pointer")

    def lsatom(self, key):
        return T.raw("ls", (self.uid, key, bool(self.boolean.get(key))), mask=bool(self.boolean.get(key)))

    def v0(self, key):
        v = self.entry.cells.get(key)
        if v is None:
            t = self.vn.celltypes.get(key)
            if t is None:
                raise Give("unknown cell")
            v = self.vn.cell_init(key, t, self.entry)
        return v

    def iterate(self):
        vn, s = self.vn, self.s
        lst = self.entry.copy()
        lst.recs = {}
        for key in self.W:
            lst.cells[key] = self.ls(key)
        lst.guard = ONE
        layer = Layer(self.uid, set(self.WA), vn.layer)
        layer.pst = self.entry
        layer.newwa = set()
        layer.hv = False
        saved = vn.layer, vn.exits, vn.loopctl
        vn.layer, vn.exits, vn.loopctl = layer, [], {"brk": [], "cnt": []}
        refs = dict(vn.refs)
        try:
            start = lst.copy()
            c = vn.cond(s["c"], lst) if s.get("c") is not None else ONE
            if c.const() == 0:
                return None
            b = vn.exec(s["b"], lst.copy())
            outs = [(g, x) for g, x in vn.loopctl["cnt"]]
            if b is not None:
                outs.append((b.guard, b))
            if not outs:
                fin = None
            else:
                g, fin = outs[-1]
                for g, x in reversed(outs[:-1]):
                    fin = vn.merge(g, x, fin, lst)
                if s.get("n") is not None:
                    fin = fin.copy()
                    vn.ev(s["n"], fin)
            if layer.hv:
                raise Give("calls with unknown effects in the loop")
            return start, lst, c, fin, list(vn.loopctl["brk"]), list(vn.exits), layer
        finally:
            vn.layer, vn.exits, vn.loopctl = saved
            vn.refs = refs

    def go(self):
        vn = self.vn
        counted = False
        for attempt in range(11):
            r = self.iterate()
            if r is None:
                return self.entry
            start, lst, c, fin, brk, rets, layer = r
            if fin is None and not brk and not rets:
                raise Give("loop body never completes")
            newW = False
            states = [lst] + ([fin] if fin is not None else []) + [x for _, x in brk]
            for x in states:
                for key, v in x.cells.items():
                    if key in self.W:
                        continue
                    if key not in self.entry.cells and key[0] == "L":
                        continue
                    if v != self.v0(key):
                        self.W[key] = True
                        v0 = self.v0(key)
                        if isinstance(v0, Poly) and v0.const() in (0, 1) and self.boolcand(key):
                            self.boolean[key] = True
                        newW = True
            if layer.newwa - self.WA:
                self.WA |= layer.newwa
                newW = True
            if newW:
                continue
            # optimistic 0/1 assumption must be inductive
            for key in list(self.boolean):
                if self.boolean[key]:
                    for x in states:
                        v = x.cells.get(key)
                        if not (isinstance(v, Poly) and isbool(v)):
                            self.boolean[key] = False
                            newW = True
            if not newW and not counted and fin is not None:
                # counters that only grow: a lower bound for nested loops
                counted = True
                for key in self.W:
                    v0, x = self.v0(key), fin.cells.get(key)
                    if isinstance(v0, Poly) and isinstance(x, Poly):
                        d, lo = (x - self.lsatom(key)).const(), v0.const()
                        if d is not None and d >= 0 and lo is not None:
                            vn.counters[self.lsatom(key).single()] = lo
                            newW = True
                newW = newW and any(n["k"] in ("For", "While") for n in walk(self.s["b"]))
            if not newW:
                break
        else:
            raise Give("loop effects do not stabilise")
        return self.solve(lst, c, fin, brk, rets)

    def boolcand(self, key):
        t = self.vn.bare(self.vn.celltypes.get(key) or "")
        return t in ("bool", "int", "long", "long long", "size_t")

    # ------------------------------------------------------------
    def solve(self, lst, c, fin, brk, rets):
        vn, k, uid = self.vn, self.k, self.uid
        self.map = {}
        lsall = {self.lsatom(key).single(): key for key in self.W}
        LSSYM = T.raw("ls", uid).single()
        self.LSSYM = LSSYM
        carried = frozenset(lsall) | {LSSYM}

        def last(v):
            return v.idx[-1] if isinstance(v, Ptr) else v
        if fin is None:
            fin = lst
        # induction variables
        for key in self.W:
            new, v0 = fin.cells.get(key), self.v0(key)
            if isinstance(v0, Ptr) and not (isinstance(new, Ptr) and new.base == v0.base and new.idx[:-1] == v0.idx[:-1]):
                raise Give("pointer changes in the loop")
            if not isinstance(new, (Ptr, Poly)):
                raise Give("loop-carried value")
            d = last(new) - self.lsatom(key)
            if not d.deps() & carried and not d.opq() and k.single() not in d.deps():
                self.map[self.lsatom(key)] = last(v0) + d * k
        ind = set(self.map)

        def sb(p):
            return subst(p, self.map)
        c1 = sb(c)
        N, rest = self.trip(c1, carried)
        others = [key for key in self.W if self.lsatom(key) not in ind]
        simple = not brk and not rets
        arrexit = bool(rets) and not brk and rest == ONE and N is not None and bool(self.WA)
        if (rest != ONE or not simple) and not arrexit:
            return self.early(lst, c1, fin, brk, rets, N, rest, others, sb, carried)
        if N is None:
            j = self.join(c, fin, simple)
            if j is not None:
                return j
            raise Give("trip count not recognised")
        self.N = N
        # other loop-carried scalars
        final = {}
        pend = list(others)
        recs = fin.recs
        while pend:
            progress = False
            for key in list(pend):
                v0 = self.v0(key)
                a = self.lsatom(key)
                new = self.resolve(sb(last(fin.cells[key])), recs, carried)
                foreign = {d for d in new.deps() & carried if d != a.single()}
                if foreign:
                    continue
                r = self.reduce(new, a, last(v0), N)
                if r is None:
                    if a.single() not in new.deps():
                        # plain temporary
                        fv = ite(lt0(-N, True), subst(new, {k: N - 1}), last(v0)) if not new.opq() else T.opq("last value")
                        final[key] = fv
                        self.map[a] = T.opq("value of the previous iteration")
                    else:
                        final[key] = T.opq("loop-carried value")
                        self.map[a] = T.opq("loop-carried value")
                else:
                    final[key], self.map[a] = r
                pend.remove(key)
                progress = True
            if not progress:
                for key in pend:
                    final[key] = T.opq("loop-carried value")
                    self.map[self.lsatom(key)] = T.opq("loop-carried value")
                break
        out = self.entry.copy()
        out.guard = self.entry.guard
        for key in self.W:
            a = self.lsatom(key)
            v0 = self.v0(key)
            v = subst(self.map[a], {k: N}) if a in ind else final[key]
            out.cells[key] = Ptr(v0.base, v0.idx[:-1] + (v,)) if isinstance(v0, Ptr) else v
        if arrexit:
            self.array_exit(out, rets, recs, N, sb, carried)
        # arrays
        allrecs = {b: [Rec([tuple([d[0]] + [sb(x) for x in d[1:]]) for d in r.dims], sb(r.g), sb(r.v)) for r in l] for b, l in recs.items()}
        todo = []
        for b, l in allrecs.items():
            keep = []
            for q, r in enumerate(l):
                if any(r2.dims == r.dims and r2.g == ONE for r2 in l[q + 1:]):
                    continue
                keep.append(r)
            if len(keep) > 1 and all(d[0] == "pt" for r in keep for d in r.dims) and any(r.dims != keep[0].dims for r in keep):
                x = self.addends(b, keep, carried)
                if x is not None:
                    todo.append((b, x))
                    continue
            for r in keep:
                todo.append((b, self.lift(b, r, allrecs, carried)))
        for b, r in todo:
            if r[0] == "rec":
                vn.write(b, r[1], r[3], out, r[2])
            elif r[0] == "content":
                if vn.layer is not None:
                    raise Give("scatter in a nested loop")
                old = vn.read(b, [ix(d) for d in range(r[1])], vn.arrtypes.get(b, "double"), out)
                vn.setcontent(b, r[2](old), out)
        return out

    def array_exit(self, out, rets, recs, N, sb, carried):
        """the loop may return half way: what it has written by then is not described, the rest is"""
        vn = self.vn
        tot, vals = ZERO, set()
        for g, x, v in rets:
            g = self.resolve(sb(g), recs, carried)
            if g.deps() & carried or g.opq():
                raise Give("early exit condition")
            tot = tot + g
            vals.add(v)
        if len(vals) != 1:
            raise Give("different values returned")
        v = next(iter(vals))
        if isinstance(v, Poly):
            v = sb(v)
            if v.deps() & (carried | {self.k.single()}):
                raise Give("returned value depends on the iteration")
        hit = self.any(N, tot)
        s2 = self.entry.copy()
        for key in self.W:
            s2.cells[key] = T.opq("counter after early exit")
        for b in self.WA:
            s2.arr[b] = T.opq("content after an early exit")
        s2.guard = self.entry.guard * hit
        if vn.layer is not None:
            raise Give("early exit from a nested loop")
        vn.exits.append((s2.guard, s2, v))
        out.guard = self.entry.guard * (ONE - hit)

    def join(self, c, fin, simple):
        """while(p<P && q<Q) over two strictly increasing arrays A and B: if A[p]==B[q] { acc += g(p,q); p++; q++; } else the smaller one advances.
        acc grows by the sum of g over all pairs with A[p]==B[q]."""
        vn, k = self.vn, self.k
        if not simple or fin.recs and any(fin.recs.values()):
            return None
        step = {}
        for key in self.W:
            new = fin.cells.get(key)
            if not isinstance(new, Poly):
                return None
            d = new - self.lsatom(key)
            if T.isbool(d) if hasattr(T, "isbool") else isbool(d):
                step[key] = d
        for p in step:
            for q in step:
                if p == q:
                    continue
                ap, aq = self.lsatom(p), self.lsatom(q)
                E = {}
                for a in c.atoms():
                    kd, ar = INFO[a]
                    if kd == "lt0" and ar[1] == "int":
                        for x in (ap, aq):
                            for r in (x - ar[0], ar[0] + x + 1):
                                if not r.deps() & {ap.single(), aq.single()}:
                                    E[x] = r
                if len(E) != 2 or c != lt0(ap - E[ap], True) * lt0(aq - E[aq], True):
                    continue
                for a in sorted(step[p].atoms() | step[q].atoms()):
                    kd, ar = INFO[a]
                    if kd not in ("eq0", "lt0"):
                        continue
                    for d in (ar[0], -ar[0], ar[0] - 1, -ar[0] - 1, ar[0] + 1, 1 - ar[0]):
                        if not isinstance(d, Poly):
                            d = P(d)
                        # d = A[p] - B[q]
                        els = [x for x in d.atoms()]
                        if len(els) != 2 or any(INFO[x][0] != "el" for x in els):
                            continue
                        A = [x for x in els if ap.single() in DEPS[x] and aq.single() not in DEPS[x]]
                        B = [x for x in els if aq.single() in DEPS[x] and ap.single() not in DEPS[x]]
                        if len(A) != 1 or len(B) != 1 or d != Poly({((A[0], 1),): Fraction(1)}) - Poly({((B[0], 1),): Fraction(1)}):
                            continue
                        if any(INFO[x][1][1][-1] != y for x, y in ((A[0], ap), (B[0], aq))):
                            continue
                        eq, lt_ = eq0(d), lt0(d, True)
                        up, uq = eq + (ONE - eq) * lt_, eq + (ONE - eq) * (ONE - lt_)
                        if not (self.eqmask(step[p], up) and self.eqmask(step[q], uq)):
                            continue
                        return self.joined(p, q, E[ap], E[aq], eq, fin)
        return None

    def eqmask(self, a, b):
        return a == b or T.same(a, b)[0] is True

    def joined(self, p, q, P_, Q_, eq, fin):
        vn = self.vn
        ap, aq = self.lsatom(p), self.lsatom(q)
        vn.uid += 1
        k1 = T.raw("k", vn.uid)
        vn.uid += 1
        k2 = T.raw("k", vn.uid)
        p0, q0 = self.v0(p), self.v0(q)
        out = self.entry.copy()
        out.guard = self.entry.guard
        for key in self.W:
            if key in (p, q):
                out.cells[key] = T.opq("position after a merge")
                continue
            a = self.lsatom(key)
            D = fin.cells[key] - a
            g = T.setmask(D, eq.single(), 1) if eq.single() is not None else None
            own = {self.lsatom(x).single() for x in self.W} - {ap.single(), aq.single()}
            if g is None or g.deps() & own or g.opq() or self.LSSYM in g.deps() or not self.eqmask(D, eq * g):
                out.cells[key] = T.opq("loop-carried value")
                continue
            body = subst(eq * g, {ap: p0 + k1, aq: q0 + k2})
            out.cells[key] = self.v0(key) + mksum(P_ - p0, mksum(Q_ - q0, body, k2), k1)
        return out

    def trip(self, c, carried):
        """(number of iterations, remaining condition)"""
        k = self.k
        kid = k.single()
        for a in sorted(c.atoms()):
            kind, args = INFO[a]
            if kind not in ("lt0", "eq0") or kid not in DEPS[a] or DEPS[a] & carried:
                continue
            one, zero = T.setmask(c, a, 1), T.setmask(c, a, 0)
            d = args[0]
            if kind == "lt0":
                if not zero.t:
                    rest = one
                elif not one.t:
                    d, rest = (-d - 1 if args[1] == "int" else None), zero
                else:
                    continue
                if d is None or args[1] != "int":
                    continue
                co = self.coef(d)
                if co is None:
                    continue
                a1, b = co
                ac = a1.const()
                if ac is None or ac <= 0:
                    continue
                n = -b if ac == 1 else T.fn("idiv", -b + P(ac) - 1, P(ac))
                return n, rest
            if kind == "eq0" and not one.t:
                co = self.coef(d)
                if co is None:
                    continue
                a1, b = co
                ac = a1.const()
                if ac is None:
                    continue
                return -b * P(1 / ac), zero
        return None, ONE

    def coef(self, p, k=None):
        """(a, b) with p = a*k + b, a and b independent of k; None otherwise"""
        k = (k if k is not None else self.k).single()
        a, b = {}, {}
        for m, c in p.t.items():
            ks = [(x, e) for x, e in m if x == k]
            if any(k in DEPS[x] and x != k for x, e in m):
                return None
            if not ks:
                b[m] = c
            elif ks[0][1] == 1:
                a[tuple((x, e) for x, e in m if x != k)] = c
            else:
                return None
        return Poly(a), Poly(b)

    # ------------------------------------------------------------ reductions
    def reduce(self, new, a, v0, N):
        """the final value and the one at the start of iteration k: in closed form where one is known, as the iterated step otherwise"""
        r = self.closed(new, a, v0, N)
        if r is None and not new.opq() and a.single() in new.deps() and not MASK[a.single()]:
            f = lambda n: T.binder("fold", (n, new, v0, a), self.k)
            return f(N), f(self.k)
        return r

    def closed(self, new, a, v0, N):
        """(final value, value at the start of iteration k) of a scalar updated by new(ls)"""
        k = self.k
        aid = a.single()
        if new.opq():
            return None
        D = new - a
        if aid not in D.deps():
            return v0 + mksum(N, D, k), v0 + mksum(k, D, k)
        ms = sorted(x for x in new.atoms() if MASK[x] and aid not in DEPS[x] and x != aid)
        if MASK[aid]:
            A, B = T.setmask(new, aid, 0), T.setmask(new, aid, 1)
            if aid in A.deps() or aid in B.deps():
                return None
            if not A.t:
                f = lambda n: v0 * (ONE - self.any(n, ONE - B))
                return f(N), f(k)
            if B == ONE:
                f = lambda n: T.lor(v0, self.any(n, A))
                return f(N), f(k)
            return None
        if len(ms) > 6:
            return None
        cases = []

        def go(p, g, l):
            if not l:
                cases.append((g, p))
                return
            A = Poly({((l[0], 1),): Fraction(1)})
            go(T.setmask(p, l[0], 1), g * A, l[1:])
            go(T.setmask(p, l[0], 0), g * (ONE - A), l[1:])
        go(new, ONE, ms)
        kinds = {}
        for g, p in cases:
            if p == a or not g.t:
                continue
            if aid not in p.deps():
                kinds.setdefault("set", []).append((g, p))
                continue
            e = self.maxarg(p, a)
            if e is not None:
                kinds.setdefault("max", []).append((g, e))
                continue
            e = self.maxarg(-p, -a)
            if e is not None:
                kinds.setdefault("min", []).append((g, e))
                continue
            q = p * T.inv(a)
            if aid not in q.deps():
                kinds.setdefault("prod", []).append((g, q))
                continue
            return None
        if len(kinds) != 1:
            return None
        kd, l = next(iter(kinds.items()))
        if kd in ("max", "min"):
            by = {}
            for g, e in l:
                by.setdefault(e, []).append(g)
            ge = []
            for e, gs in by.items():
                t = ZERO
                for g in gs:
                    t = t + g
                ge.append((t, e))

            def f(n):
                r = T.binder("redmax", (n, tuple(ge)), k)
                return T.fmax(v0, r) if kd == "max" else -T.fmax(-v0, r)
            return f(N), f(k)
        if kd == "set":
            vals = {p for _, p in l}
            if len(vals) == 1:
                p = next(iter(vals))
                if k.single() in p.deps():
                    return None
                g = ZERO
                for x, _ in l:
                    g = g + x
                f = lambda n: T.ite(self.any(n, g), p, v0)
                return f(N), f(k)
            return None
        if kd == "prod":
            body = ONE
            for g, q in l:
                body = body + g * (q - 1)
            f = lambda n: v0 * T.binder("prod", (n, body), k)
            return f(N), f(k)
        return None

    def any(self, n, g):
        if not g.t:
            return ZERO
        if self.k.single() not in g.deps():
            return g * lt0(-n, True)
        return T.binder("any", (n, g), self.k)

    def maxarg(self, p, a):
        """e with p = max(a, e)"""
        s = p.single()
        if s is None or INFO[s][0] != "max":
            return None
        l = list(INFO[s][1][0])
        if a not in l:
            return None
        l.remove(a)
        e = T.fmax(*l)
        return e if a.single() is None or a.single() not in e.deps() else None

    # ------------------------------------------------------------ loop-carried array reads
    def resolve(self, p, recs, carried, own=None, cur=None):
        vn, k, uid = self.vn, self.k, self.uid
        if self.LSSYM not in p.deps():
            return p
        sel = lambda d: self.LSSYM in d

        def f(a):
            kind, args = INFO[a]
            if kind == "el" and args[0][0] == "LS" and args[0][1] == uid:
                base = args[0][2]
                idx = T.maparg(args[1], f, sel, {})
                if own is not None and own == (base, tuple(idx)):
                    return None
                if self.safe(base, idx, recs, cur):
                    sv = vn.layer
                    return vn.read(base, idx, vn.arrtypes.get(base, "double"), self.entry)
                return T.opq("element written by an earlier iteration")
            return None
        return T.mapatoms(p, f, sel)

    def lowbound(self, p, cur, sign=1):
        """a constant lower bound of p (sign=1), or upper bound negated (sign=-1), or None"""
        if sign < 0:
            p = -p
        r = self.lowbound1(p, cur)
        if r is None:
            for F in self.facts():
                r = self.lowbound1(p - F, cur)
                if r is not None:
                    break
        return r

    def facts(self):
        """polynomials that are >= 0 here, from the conditions under which the loop runs"""
        g = self.entry.guard
        out = []
        for a in g.atoms():
            if INFO[a][0] == "lt0" and INFO[a][1][1] == "int":
                p = INFO[a][1][0]
                if not T.setmask(g, a, 0).t:
                    out.append(-p - 1)
                elif not T.setmask(g, a, 1).t:
                    out.append(p)
        return out

    def lowbound1(self, p, cur):
        for it in range(4):
            b = ZERO
            changed = False
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and INFO[m[0][0]][0] == "ix" and cur is not None and INFO[m[0][0]][1][0] < len(cur.dims):
                    d = cur.dims[INFO[m[0][0]][1][0]]
                    if c > 0:
                        b = b + P(c) * subst(d[1], self.map)
                        changed = True
                        continue
                    if c < 0 and d[0] == "rng":
                        b = b + P(c) * (subst(d[2], self.map) - 1)
                        changed = True
                        continue
                if it == 3 and m == ((self.k.single(), 1),) and c < 0:
                    b = b + P(c) * (self.N - 1)
                    changed = True
                    continue
                b = b + Poly({m: c})
            p = b
        lo = Fraction(0)
        for m, c in p.t.items():
            if m == ():
                lo += c
            elif c < 0 or not all(INFO[a][0] in ("k", "ix", "bv") or INFO[a][0] == "ls" and self.counter(a) for a, e in m):
                return None
        return lo

    def counter(self, a):
        """a loop-carried value of an enclosing loop that starts at a non-negative constant and only grows"""
        l = self.vn.counters.get(a)
        return l is not None and l >= 0

    def safe(self, base, idx, recs, cur=None):
        """the element idx has not been written by an earlier iteration"""
        k = self.k
        prev = {k: k - 1}

        def low(p, cur, sign=1):
            # there is an earlier iteration: k >= 1
            b = self.lowbound(p, cur, sign)
            return b if b is not None and b >= (0 if sign > 0 else 1) else self.lowbound(subst(p, {k: k + 1}), cur, sign)
        for r in recs.get(base, ()):
            ok = False
            for d, dim in enumerate(r.dims):
                e = subst(dim[1], self.map)
                hi = subst(dim[2], self.map) if dim[0] == "rng" else e + 1
                co, ch = self.coef(e), self.coef(hi)
                if co is None or ch is None:
                    continue
                df = idx[d] - e
                # earlier iterations wrote [e(k'), hi(k')) with k' < k
                up, dn = ch[0].const(), co[0].const()
                if up is not None and up >= 0:
                    # nothing at or beyond hi(k-1)
                    b = low(idx[d] - subst(hi, prev), cur)
                    if b is not None and b >= 0:
                        ok = True
                        break
                if dn is not None and dn >= 0:
                    b = low(idx[d] - subst(e, {k: ZERO}), cur, -1)
                    if b is not None and b > 0:
                        ok = True
                        break
                if dn is not None and dn <= 0:
                    b = low(idx[d] - subst(e, prev), cur, -1)
                    if b is not None and b > 0:
                        ok = True
                        break
                if dim[0] == "pt":
                    if dn is None and not df.t:
                        ok = True
                        break
                elif co[0].t and dn is None and idx[d] == ix(d):
                    # a region that moves with k: own region only
                    ok = True
                    break
            if not ok:
                return False
        return True

    # ------------------------------------------------------------ array updates
    def addends(self, b, l, carried):
        """several elements of one array incremented by each iteration (elements may coincide)"""
        vn, k, N = self.vn, self.k, self.N
        nd = len(l[0].dims)
        if not all(any(k.single() in x.deps() for x in d[1:]) for r in l for d in r.dims[:1]):
            return None
        t = vn.typ(vn.arrtypes.get(b, "double"))
        tot = ZERO
        for q, r in enumerate(l):
            own = tuple(d[1] for d in r.dims)
            cur = T.raw("el", ("LS", self.uid, b), own, t)
            prev = cur
            for p in l[:q]:
                same_ = p.g
                for x, y in zip(own, p.dims):
                    same_ = same_ * eq0(x - y[1])
                prev = ite(same_, p.v, prev)
            D = r.g * (r.v - prev)
            if self.LSSYM in D.deps():
                # the increments must not depend on what earlier iterations stored
                for x in sorted(D.deps()):
                    pass
                return None
            D = self.scrub(D, carried)
            if any(x.deps() & carried for x in own):
                return None
            here = ONE
            for d, x in enumerate(own):
                here = here * eq0(ix(d) - x)
            tot = tot + mksum(N, here * D, k)
        return ("content", nd, lambda old: old + tot)

    def lift(self, b, r, recs, carried):
        """turn the update of one iteration into the update of the whole loop"""
        vn, k, N = self.vn, self.k, self.N
        kid = k.single()
        kd = None
        for d, dim in enumerate(r.dims):
            if dim[0] == "pt":
                co = self.coef(dim[1])
                if co is not None and co[0].const() in (1, -1):
                    kd = d
                    break
        dep = [d for d, dim in enumerate(r.dims) if any(kid in x.deps() for x in dim[1:])]
        nd = len(r.dims)
        ownidx = tuple(dim[1] if dim[0] == "pt" else ix(d) for d, dim in enumerate(r.dims))
        if kd is not None:
            s, c0 = self.coef(r.dims[kd][1])
            sc = int(s.const())
            g, v = self.resolve(r.g, recs, carried, None, r), self.resolve(r.v, recs, carried, None, r)
            g, v = self.scrub(g, carried), self.scrub(v, carried)
            kk = (ix(kd) - c0) * sc
            mp = {k: kk}
            dims = list(r.dims)
            for d in dep:
                if d != kd:
                    dims[d] = tuple([dims[d][0]] + [subst(x, mp) for x in dims[d][1:]])
            dims[kd] = ("rng", c0, c0 + N) if sc == 1 else ("rng", c0 - N + 1, c0 + 1)
            return ("rec", dims, subst(g, mp), subst(v, mp))
        if not dep:
            own = (b, ownidx)
            ownatom = T.raw("el", ("LS", self.uid, b), ownidx, vn.typ(vn.arrtypes.get(b, "double")))
            g = self.resolve(r.g, recs, carried, own)
            v = self.resolve(r.v, recs, carried, own)
            if ownatom.single() is None:
                raise Give("array update")
            if len([x for x in recs[b]]) > 1 and any(x.dims != r.dims for x in recs[b]):
                raise Give("several updates of one array")
            new = T.ite(g, v, ownatom)
            D = new - ownatom
            v0 = vn.read(b, list(ownidx), vn.arrtypes.get(b, "double"), self.entry)
            if self.LSSYM not in D.deps():
                D = self.scrub(D, carried)
                return ("rec", r.dims, ONE, v0 + mksum(N, D, k))
            if self.LSSYM not in new.deps():
                if kid not in new.deps():
                    return ("rec", r.dims, lt0(-N, True), self.scrub(new, carried))
                return ("rec", r.dims, lt0(-N, True), subst(self.scrub(new, carried), {k: N - 1}))
            # general reduction on one element
            a = T.raw("ls", (self.uid, "elem"))
            new2 = mapatoms2(new, ownatom.single(), a)
            if self.LSSYM in new2.deps():
                raise Give("array recurrence")
            rr = self.reduce(self.scrub(new2, carried), a, v0, N)
            if rr is None:
                raise Give("array recurrence")
            return ("rec", r.dims, ONE, rr[0])
        # a block of consecutive elements that moves with the iteration
        if len(dep) == 1 and r.dims[dep[0]][0] == "rng":
            d = dep[0]
            lo, hi = r.dims[d][1], r.dims[d][2]
            co = self.coef(lo)
            w = hi - lo
            if co is not None and co[0] == w and kid not in w.deps():
                g, v = self.resolve(r.g, recs, carried, None, r), self.resolve(r.v, recs, carried, None, r)
                g, v = self.scrub(g, carried), self.scrub(v, carried)
                kk = T.fn("idiv", ix(d) - co[1], w)
                dims = list(r.dims)
                dims[d] = ("rng", co[1], co[1] + w * N)
                return ("rec", dims, subst(g, {k: kk}), subst(v, {k: kk}))
            raise Give("moving block")
        # scatter
        if all(dim[0] == "pt" for dim in r.dims):
            if len(recs[b]) > 1 and any(x.dims != r.dims for x in recs[b]):
                raise Give("several scatters into one array")
            own = (b, ownidx)
            ownatom = T.raw("el", ("LS", self.uid, b), ownidx, vn.typ(vn.arrtypes.get(b, "double")))
            g = self.resolve(r.g, recs, carried, own)
            v = self.resolve(r.v, recs, carried, own)
            idx = tuple(dim[1] for dim in r.dims)
            for x in idx:
                if x.deps() & carried:
                    raise Give("scatter index")
            D = v - ownatom
            if self.LSSYM not in D.deps() and self.LSSYM not in g.deps():
                D = self.scrub(g * D, carried)
                out = ZERO
                kids = kid
                rr = ZERO
                for m, c in D.t.items():
                    dp = tuple((x, e) for x, e in m if kid in DEPS[x])
                    rest = tuple((x, e) for x, e in m if kid not in DEPS[x])
                    body = Poly({dp: Fraction(1)})
                    rr = rr + Poly({rest: c}) * T.binder("scatadd", (tuple(ix(d) for d in range(nd)), N, tuple(idx), body), self.k)
                return ("content", nd, lambda old: old + rr)
            if self.LSSYM in v.deps() or self.LSSYM in g.deps():
                # largest (smallest) contribution to the element
                a = T.raw("ls", (self.uid, "elem"))
                new2 = mapatoms2(ite(g, v, ownatom), ownatom.single(), a)
                if self.LSSYM in new2.deps():
                    raise Give("scatter recurrence")
                here = ONE
                for d, x in enumerate(idx):
                    here = here * eq0(ix(d) - x)
                s0 = T.raw("sym", (self.uid, "elem0"))
                rr = self.reduce(self.scrub(ite(here, new2, a), carried), a, s0, N)
                if rr is None or s0.single() not in rr[0].deps():
                    raise Give("scatter recurrence")
                return ("content", nd, lambda old: subst(rr[0], {s0: old}))
            g, v = self.scrub(g, carried), self.scrub(v, carried)
            return ("content", nd, lambda old: T.binder("scat", (tuple(ix(d) for d in range(nd)), N, tuple(idx), g, v, old), self.k))
        raise Give("array update not recognised")

    def scrub(self, p, carried):
        if p.deps() & carried:
            return T.opq("loop-carried value")
        return p

    # ------------------------------------------------------------ early exits
    def early(self, lst, c1, fin, brk, rets, N, rest, others, sb, carried):
        """loops that only search or test: break / return / flag in the condition"""
        vn, k = self.vn, self.k
        if self.WA or N is None:
            raise Give("early exit from a loop with array effects")
        out = self.entry.copy()
        # flags: `for(...; i<n && flag; ...)`
        if rest != ONE:
            if brk or rets:
                raise Give("two kinds of early exit")
            flags = [key for key in others]
            if len(flags) != 1 or not self.boolean.get(flags[0]):
                raise Give("loop condition")
            a = self.lsatom(flags[0])
            new = self.scrub(sb(fin.cells[flags[0]]), carried - {a.single()})
            A, B = T.setmask(new, a.single(), 0), T.setmask(new, a.single(), 1)
            v0 = self.v0(flags[0])
            if rest == a:
                # runs while the flag is set: only the update under flag=1 matters
                if B.deps() & carried:
                    raise Give("flag")
                out.cells[flags[0]] = v0 * (ONE - self.any(N, ONE - B))
            elif rest == ONE - a:
                if A.deps() & carried:
                    raise Give("flag")
                out.cells[flags[0]] = T.lor(v0, self.any(N, A))
            else:
                raise Give("loop condition")
            for key in self.W:
                if key != flags[0]:
                    out.cells[key] = T.opq("counter after early exit")
            return out
        if fin is not None:
            for key in others:
                if fin.cells.get(key) != self.ls(key):
                    raise Give("early exit from a loop with other effects")
        if brk and rets:
            raise Give("break and return")
        tot = ZERO
        ex = []
        for item in (brk or rets):
            g, x = item[0], item[1]
            g = sb(g)
            if g.deps() & carried or g.opq():
                raise Give("early exit condition")
            tot = tot + g
            ex.append((g, x, item[2] if rets else None))
        hit = self.any(N, tot)
        if rets:
            vals = {v for _, _, v in ex}
            if len(vals) != 1:
                raise Give("different values returned")
            v = next(iter(vals))
            if isinstance(v, Poly):
                v = sb(v)
                if v.deps() & (carried | {k.single()}):
                    raise Give("returned value depends on the iteration")
            s2 = self.entry.copy()
            for key in self.W:
                s2.cells[key] = T.opq("counter after early exit")
            s2.guard = self.entry.guard * hit
            vn.exits.append((s2.guard, s2, v))
            for key in self.W:
                v0 = self.v0(key)
                if self.lsatom(key) in self.map and isinstance(v0, Poly):
                    out.cells[key] = subst(self.map[self.lsatom(key)], {k: N})
                elif self.lsatom(key) in self.map:
                    out.cells[key] = Ptr(v0.base, v0.idx[:-1] + (subst(self.map[self.lsatom(key)], {k: N}),))
            out.guard = self.entry.guard * (ONE - hit)
            return out
        # breaks: cells set to a constant on the way out
        for key in self.W:
            v0 = self.v0(key)
            same_in_fin = fin is not None and fin.cells.get(key) == self.ls(key)
            if self.lsatom(key) in self.map and not same_in_fin:
                out.cells[key] = T.opq("counter after early exit") if isinstance(v0, Poly) else Ptr(v0.base, v0.idx[:-1] + (T.opq("counter"),))
                continue
            vals = {x.cells.get(key) for _, x, _ in ex}
            if len(vals) != 1:
                raise Give("different values at break")
            v = next(iter(vals))
            if v == self.ls(key):
                continue
            if not isinstance(v, Poly):
                raise Give("value at break")
            v = sb(v)
            if v.deps() & (carried | {k.single()}):
                raise Give("value at break depends on the iteration")
            out.cells[key] = T.ite(hit, v, v0)
        return out
