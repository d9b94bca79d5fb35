"""Normal forms for the value-numbering analysis.

A value is a polynomial over interned atoms with rational coefficients.  Some
atoms are 0/1-valued ("masks": comparisons, selection patterns); they are
idempotent, so a gated merge of two branches is the polynomial
c*a + (1-c)*b.  Array contents are polynomials in the universal index atoms
("ix", d).
"""
from fractions import Fraction
import math, random, zlib

INFO = []            # id -> (kind, args)
_IDS = {}
DEPS = []            # id -> frozenset of leaf ids (symbols that may be substituted)
MASK = []            # id -> bool
OPQ = []             # id -> bool
MAXTERMS = 600


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ("t", "_k", "_d")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._d = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def deps(self):
        if self._d is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= DEPS[a]
            self._d = frozenset(s)
        return self._d

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return Fraction(self.t[()])
        return None

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def opq(self):
        return any(OPQ[a] for a in self.atoms())

    def single(self):
        """the atom if the polynomial is exactly one atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > 40 * MAXTERMS:
            raise TooBig()
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                if m is None:
                    continue
                v = t.get(m, 0) + c1 * c2
                if v == 0:
                    t.pop(m, None)
                else:
                    t[m] = v
        if len(t) > MAXTERMS:
            raise TooBig()
        return Poly(t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = P(o)
        return self * inv(o)

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __repr__(self):
        return show(self)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, float):
        return P(Fraction(repr(x)))
    raise TypeError(repr(x))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            if MASK[a]:
                continue
            e2 = d[a] + e
            if e2 == 0:
                del d[a]
            else:
                d[a] = e2
        else:
            d[a] = e
    return tuple(sorted(d.items()))


def polys_in(args):
    for x in args:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, tuple):
            yield from polys_in(x)


# binders: the positions of the arguments in which the bound variable may occur; the number of the bound variable is the last argument
BOUND = {"sum": (1,), "any": (1,), "redmax": (1,), "prod": (1,), "scat": (2, 3, 4), "scatadd": (2, 3), "fold": (1, 3)}


def raw(kind, *args, mask=False, opq=False):
    """intern an atom; returns it as a polynomial"""
    k = (kind, args, mask)
    i = _IDS.get(k)
    if i is None:
        lsym = raw("ls", args[0][1]).single() if kind == "el" and args[0] and args[0][0] == "LS" else None
        if kind in BOUND:
            raw("bv", args[-1])
        i = len(INFO)
        _IDS[k] = i
        INFO.append((kind, args))
        d = set()
        o = opq
        for p in polys_in(args):
            d |= p.deps()
            o = o or p.opq()
        if kind in ("ix", "k", "ls", "bv", "sym", "acc"):
            d.add(i)
        if lsym is not None:
            d.add(lsym)
        if kind in BOUND:
            d.discard(raw("bv", args[-1]).single())
        if kind == "fold":
            d.discard(args[3].single())
        DEPS.append(frozenset(d))
        MASK.append(mask)
        OPQ.append(o)
    return Poly({((i, 1),): Fraction(1)})


def ix(d):
    return raw("ix", d)


_n = [0]


def opq(why=""):
    _n[0] += 1
    return raw("opq", _n[0], str(why), opq=True)


def inp(loc, typ="real"):
    return raw("in", loc, typ)


def el(base, idxs, typ="real", mask=False):
    return raw("el", base, tuple(idxs), typ, mask=mask)


def lead(p):
    m = min(p.t, key=lambda m: (len(m) == 0, m))
    return p.t[m]


def lt0(p, isint):
    c = p.const()
    if c is not None:
        return P(int(c < 0))
    k = lead(p)
    if isint:
        if all(x.denominator == 1 for x in p.t.values()):
            if k < 0:
                return ONE - lt0i(-p - 1)
            return lt0i(p)
    q = p * P(Fraction(1) / abs(k))
    return raw("lt0", q, "real", mask=True)


def lt0i(p):
    # known facts: universal indices and counters are non-negative
    ok = True
    for m, c in p.t.items():
        if m == ():
            ok = ok and c >= 0
        else:
            ok = ok and c > 0 and all(INFO[a][0] in ("ix", "k", "bv") for a, e in m)
    if ok:
        return ZERO
    return raw("lt0", p, "int", mask=True)


def eq0(p):
    c = p.const()
    if c is not None:
        return P(int(c == 0))
    at = p.atoms()
    if len(at) <= 2 and all(MASK[a] for a in at):
        return expand_masks(p, lambda q: P(int(q.const() == 0)))
    return raw("eq0", p * P(Fraction(1) / lead(p)), mask=True)


def expand_masks(p, fn):
    at = sorted(a for a in p.atoms() if MASK[a])
    if not at:
        return fn(p)
    a = at[0]
    A = Poly({((a, 1),): Fraction(1)})
    return A * expand_masks(setmask(p, a, 1), fn) + (ONE - A) * expand_masks(setmask(p, a, 0), fn)


def setmask(p, a, v):
    t = {}
    for m, c in p.t.items():
        if any(x == a for x, _ in m):
            if not v:
                continue
            m = tuple((x, e) for x, e in m if x != a)
        w = t.get(m, 0) + c
        if w == 0:
            t.pop(m, None)
        else:
            t[m] = w
    return Poly(t)


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return opq("division by zero")
        return P(Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(MASK[a] for a, _ in m):
            return Poly({tuple((a, -e) for a, e in m): Fraction(1) / c})
    k = lead(p)
    return raw("inv", p * P(1 / k)) * P(1 / k)


def neg(c):
    return ONE - c


def land(a, b):
    return a * b


def lor(a, b):
    return a + b - a * b


def fmax(*xs):
    args, cst = {}, None
    todo = list(xs)
    while todo:
        x = P(todo.pop())
        s = x.single()
        if s is not None and INFO[s][0] == "max":
            todo.extend(INFO[s][1][0])
            continue
        c = x.const()
        if c is not None:
            cst = c if cst is None else max(cst, c)
        else:
            args[x.key()] = x
    l = list(args.values())
    if cst is not None:
        l.append(P(cst))
    if len(l) == 1:
        return l[0]
    if len(l) == 2 and l[0] == -l[1]:
        return fabs(l[0])
    # |x| >= 0
    if cst is not None and cst <= 0:
        for x in l[:-1]:
            if len(x.t) == 1:
                (m, c), = x.t.items()
                if c > 0 and all(INFO[a][0] == "fn" and INFO[a][1][0] in ("fabs", "sqrt") for a, e in m):
                    l.pop()
                    break
        if len(l) == 1:
            return l[0]
    l.sort(key=pkey)
    return raw("max", tuple(l))


def fmin(*xs):
    return -fmax(*[-P(x) for x in xs])


def pkey(p):
    return sorted(((tuple(m), c) for m, c in p.t.items()))


def fabs(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    k = lead(p)
    return fn0("fabs", p * P(1 / k)) * P(abs(k))


def fn0(name, *args):
    return raw("fn", name, *args)


def fn(name, *args):
    if name in ("fabs", "abs"):
        return fabs(args[0])
    if name in ("fmax", "max"):
        return fmax(*args)
    if name in ("fmin", "min"):
        return fmin(*args)
    if name == "sqrt" and args[0].const() in (0, 1):
        return args[0]
    if name == "pow" and args[1].const() is not None and args[1].const().denominator == 1 and 0 < args[1].const() <= 4:
        r = ONE
        for _ in range(int(args[1].const())):
            r = r * args[0]
        return r
    return raw("fn", name, *args)


def ite(c, a, b):
    """gated merge: a where c, b elsewhere"""
    if a == b:
        return a
    k = c.const()
    if k is not None:
        return a if k else b
    # max/min/abs recognition
    for cc, x, y in ((c, a, b), (ONE - c, b, a)):
        s = cc.single()
        if s is not None and INFO[s][0] == "lt0":
            d = INFO[s][1][0]
            df = x - y
            r = ratio(df, d)
            if r is not None:
                return fmin(x, y) if r > 0 else fmax(x, y)
    try:
        return c * a + (ONE - c) * b
    except TooBig:
        return raw("ite", c, a, b)


def ratio(p, q):
    """constant r with p == r*q, or None"""
    if len(p.t) != len(q.t) or not q.t:
        return None
    r = None
    for m, c in q.t.items():
        v = p.t.get(m)
        if v is None:
            return None
        x = Fraction(v) / c
        if r is None:
            r = x
        elif r != x:
            return None
    return r


# ---------------------------------------------------------------- substitution
def rebuild(kind, args):
    if kind == "lt0":
        return lt0(args[0], args[1] == "int")
    if kind == "eq0":
        return eq0(args[0])
    if kind == "inv":
        return inv(args[0])
    if kind == "max":
        return fmax(*args[0])
    if kind == "fn":
        return fn(args[0], *args[1:])
    if kind == "el" and LAY and unls(args[0]) in LAY:
        return raw("el", args[0], rowcol(args[0], args[1]), args[2])
    return None


LAY = {}             # two-dimensional arrays stored row by row: base -> number of columns


def replaced(p, a, v):
    """the symbol a of the monomials of p replaced by v"""
    r = ZERO
    for m, c in p.t.items():
        x = Poly({tuple(y for y in m if y[0] != a): c})
        for y, k in m:
            if y == a:
                for _ in range(k):
                    x = x * v
        r = r + x
    return r


def divisor(n):
    """the symbol a of n = a + constant"""
    c = [m[0][0] for m, k in n.t.items() if k == 1 and len(m) == 1 and m[0][1] == 1]
    return c[0] if len(c) == 1 and all(not m or m[0][0] == c[0] for m in n.t) else None


def divmod_by(e, n):
    """(q, r) with e = q*n + r, n one symbol, or a sum with a plain symbol"""
    a = n.single()
    if a is None:
        b = divisor(n)
        if b is None:
            return ZERO, e
        t = raw("in", ("divisor", b), "int")
        back = Poly({((b, 1),): Fraction(1)})
        q, r = divmod_by(replaced(e, b, t - (n - back)), t)
        q, r = replaced(q, t.single(), n), replaced(r, t.single(), n)
        if r.const() is not None and r.const() < 0:
            q, r = q - 1, r + n
        return q, r
    q, r = {}, {}
    for m, c in e.t.items():
        for x, k in m:
            if x == a and k >= 1:
                q[tuple((y, j if y != a else j - 1) for y, j in m if not (y == a and j == 1))] = c
                break
        else:
            r[m] = c
    return Poly(q), Poly(r)


def unls(base):
    while base and base[0] == "LS":
        base = base[2]
    return base


def rowcol(base, idx):
    """canonical (row, column) of an element of a row-major array"""
    n = LAY.get(unls(base))
    if n is None or len(idx) != 2 or n.single() is None and divisor(n) is None:
        return tuple(idx)
    q, r = divmod_by(idx[1], n)
    return (idx[0] + q, r)


def mapatoms(p, f, sel, cache=None):
    """replace atoms: f(id) -> Poly or None; only atoms with sel(deps) are visited"""
    if cache is None:
        cache = {}
    if not sel(p.deps()):
        return p
    r = ZERO
    for m, c in p.t.items():
        q = Poly({(): c})
        keep = []
        for a, e in m:
            if not sel(DEPS[a]):
                keep.append((a, e))
                continue
            v = cache.get(a)
            if v is None:
                v = f(a)
                if v is None:
                    kind, args = INFO[a]
                    if kind in BOUND:
                        v = opened(kind, args, lambda x: maparg(x, f, sel, cache))
                    else:
                        nargs = maparg(args, f, sel, cache)
                        v = rebuild(kind, nargs)
                    if v is None:
                        v = raw(kind, *nargs, mask=MASK[a])
                cache[a] = v
            if e < 0:
                v = inv(v)
            for _ in range(abs(e)):
                q = q * v
        if keep:
            q = q * Poly({tuple(keep): Fraction(1)})
        r = r + q
        if len(r.t) > MAXTERMS:
            raise TooBig()
    return r


def maparg(args, f, sel, cache):
    out = []
    for x in args:
        if isinstance(x, Poly):
            out.append(mapatoms(x, f, sel, cache))
        elif isinstance(x, tuple):
            out.append(maparg(x, f, sel, cache))
        else:
            out.append(x)
    return tuple(out)


def subst(p, mp):
    """mp: {Poly single symbol: Poly}"""
    ids = {k.single(): v for k, v in mp.items()}
    s = frozenset(ids)
    if not (p.deps() & s):
        return p
    return mapatoms(p, lambda a: ids.get(a), lambda d: bool(d & s))


def binder(kind, args, k):
    """bind counter k: the number of the bound variable is one more than the depth of the binders inside"""
    pos = BOUND[kind]
    h = 0
    for i in pos:
        for q in polys_in((args[i],)):
            h = max(h, height(q))
    h += 1
    mp = {k: raw("bv", h)}
    if kind == "fold":
        mp[args[3]] = raw("acc", h)     # value after n steps from v0: acc = body(acc, k)

    def sub(x):
        return subst(x, mp) if isinstance(x, Poly) else tuple(sub(y) for y in x)
    out = [sub(x) if i in pos else x for i, x in enumerate(args)]
    if kind == "redmax":
        out[1] = tuple(sorted(out[1], key=lambda q: (pkey(q[0]), pkey(q[1]))))
    return raw(kind, *out, h, mask=(kind == "any"))


_OPEN = [0]


def opened(kind, args, f):
    """apply f to the bound arguments of a binder with its variable made free, and to the others; bind again"""
    _OPEN[0] += 1
    try:
        k = raw("k", ("ub", _OPEN[0]))
        ids = {raw("bv", args[-1]).single(): k}
        s = frozenset(ids)
        out = []
        for i, x in enumerate(args[:-1]):
            if i in BOUND[kind]:
                x = maparg((x,), lambda a: ids.get(a), lambda d: bool(d & s), {})[0]
            out.append(x)
        out = f(tuple(out))
        if kind == "sum":
            return mksum(out[0], out[1], k)
        return binder(kind, out, k)
    finally:
        _OPEN[0] -= 1


def height(p, seen=None):
    """largest bound variable used anywhere inside (bound ones included)"""
    h = 0
    for m in p.t:
        for a, _ in m:
            h = max(h, aheight(a))
    return h


_H = {}


def aheight(a):
    if a in _H:
        return _H[a]
    kind, args = INFO[a]
    h = args[-1] if kind in BOUND else 0
    for q in polys_in(args):
        h = max(h, height(q))
    _H[a] = h
    return h


def mksum(n, body, k):
    """sum of body over counter k = 0..n-1"""
    if not body.t:
        return ZERO
    r = ZERO
    kid = k.single()
    for m, c in body.t.items():
        dep = tuple((a, e) for a, e in m if kid in DEPS[a])
        rest = tuple((a, e) for a, e in m if kid not in DEPS[a])
        f = Poly({rest: c})
        if not dep:
            r = r + f * n
        else:
            r = r + f * binder("sum", (n, Poly({dep: Fraction(1)})), k)
    return r


def show(p, depth=0):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        fs = []
        for a, e in m:
            s = showatom(a, depth)
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        if c != 1 or not fs:
            s = str(c if c.denominator == 1 else float(c) if len(str(c)) > 9 else c)
            fs.insert(0, s)
        out.append("*".join(fs))
    return " + ".join(out).replace("+ -", "- ")


def showloc(l):
    return ".".join(str(x) for x in l if x not in ("*",)) if isinstance(l, tuple) else str(l)


def showatom(a, depth=0):
    kind, args = INFO[a]
    if depth > 6:
        return "..."
    s = lambda x: show(x, depth + 1)
    if kind == "ix":
        return "ijkl"[args[0]]
    if kind in ("k", "bv"):
        return "%s%s" % (kind, args[0])
    if kind == "in":
        return showloc(args[0])
    if kind == "el":
        return showloc(args[0]) + "".join("[%s]" % s(x) for x in args[1])
    if kind == "lt0":
        return "(%s<0)" % s(args[0])
    if kind == "eq0":
        return "(%s==0)" % s(args[0])
    if kind == "inv":
        return "1/(%s)" % s(args[0])
    if kind == "max":
        return "max(%s)" % ", ".join(s(x) for x in args[0])
    if kind == "fn":
        return "%s(%s)" % (args[0], ", ".join(s(x) if isinstance(x, Poly) else showloc(x) for x in args[1:]))
    if kind == "opq":
        return "?%s" % args[1]

    def arg(x):
        if isinstance(x, Poly):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ",".join(arg(y) for y in x) + ")"
        return str(x)
    return "%s(%s)" % (kind, ", ".join(arg(x) for x in args))


# ---------------------------------------------------------------- identity testing of two normal forms
class Opaque(Exception):
    pass


class Undef(Exception):
    pass


POOL = [0.0, 1.0, -1.0, 2.0, 0.5]


DOM = {}        # inputs that only take the given values


class Rnd:
    """a small generator seeded by a hash (seeding the library generator dominates the cost of an interpretation)"""
    __slots__ = ("s",)

    def __init__(self, h):
        self.s = (h * 0x9E3779B97F4A7C15 + 0x1234567) & 0xFFFFFFFFFFFFFFFF
        self.random()

    def random(self):
        z = self.s = (self.s + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        return ((z ^ (z >> 31)) >> 11) * (1.0 / 9007199254740992.0)

    def randrange(self, a, b):
        return a + int(self.random() * (b - a))

    def choice(self, l):
        return l[int(self.random() * len(l))]

    def uniform(self, a, b):
        return a + (b - a) * self.random()


FLAT = {}


def isflat(b):
    r = FLAT.get(b)
    if r is None:
        r = FLAT[b] = all(isinstance(x, (str, int)) or isinstance(x, tuple) and isflat(x) for x in b)
    return r


KEYS = {}


def depkeys(a):
    """what the value of an atom depends on, as keys of the bound values: () when it is not worth remembering"""
    if INFO[a][0] in ("ix", "bv", "in", "sym", "acc"):
        return ()
    out = []
    for d in sorted(DEPS[a], key=repr):
        kind, args = INFO[d]
        if kind == "ix":
            out.append(("ix", args[0]))
        elif kind == "bv":
            out.append(args[0])
        else:
            return ()
    return tuple(out)


WIDE = (8192.0, -8192.0, 2.0 ** 17, -2.0 ** 17, 2.0 ** -12, -2.0 ** -12)      # exact powers: no rounding of products


class Env:
    """one interpretation of the free atoms of normal forms"""

    def __init__(self, seed, fixed=None, sizes=3):
        self.seed = seed
        self.fixed = fixed or {}
        self.sizes = sizes
        self.bv = {}
        self.memo = {}
        self.elm = {}
        self.pool = ()

    def rnd(self, key, typ):
        h = zlib.crc32(("%s|%d" % (key, self.seed)).encode())
        r = Rnd(h)
        if typ == "int":
            return r.randrange(0, self.sizes + 1)
        if typ == "bool":
            return r.randrange(0, 2)
        if typ == "pos":
            return r.choice([0.25, 1.0, 2.0, r.uniform(0.1, 3.0)])
        if self.pool and r.random() < 0.4:
            return r.choice(self.pool)
        if self.seed % 7 == 3 and r.random() < 0.3:
            return r.choice(WIDE)
        if r.random() < (0.85 if self.seed % 3 == 0 else 0.35):
            return r.choice(POOL)
        return r.uniform(-3, 3)

    def poly(self, p):
        vs = []
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                if MASK[a]:
                    if not self.atom(a):
                        x = 0.0
                        break
            if x == 0.0:
                continue
            for a, e in m:
                if MASK[a]:
                    continue
                y = self.atom(a)
                if e < 0:
                    if y == 0:
                        raise Undef()
                x *= y ** e
            vs.append(x)
        # exact summation: large constants under complementary conditions cancel exactly
        return math.fsum(vs) if len(vs) > 1 else vs[0] if vs else 0.0

    def int(self, p):
        v = self.poly(p)
        return int(round(v))

    def atom(self, a):
        if DEPS[a]:
            ks = KEYS.get(a)
            if ks is None:
                ks = KEYS[a] = depkeys(a)
            if not ks:
                return self.atom0(a)
            bv = self.bv
            k = (a,) + tuple([bv.get(x) for x in ks])
            v = self.memo.get(k)
            if v is None:
                v = self.memo[k] = self.atom0(a)
            return v
        if a not in self.memo:
            self.memo[a] = self.atom0(a)
        return self.memo[a]

    def bound(self, body, h, v):
        old = self.bv.get(h)
        self.bv[h] = v
        try:
            return self.poly(body)
        finally:
            if old is None:
                self.bv.pop(h, None)
            else:
                self.bv[h] = old

    def atom0(self, a):
        kind, args = INFO[a]
        if a in self.fixed:
            return self.fixed[a]
        if kind == "opq":
            raise Opaque(args[1])
        if kind == "ix":
            return self.bv[("ix", args[0])]
        if kind == "bv":
            return self.bv[args[0]]
        if kind in ("in", "sym"):
            if DOM and args[0] in DOM:
                return Rnd(zlib.crc32(("%r|%d" % (args[0], self.seed)).encode())).choice(DOM[args[0]])
            return self.rnd("in%r" % (args[0],), args[1] if len(args) > 1 else "real")
        if kind == "el":
            idx = tuple(self.int(x) for x in args[1])
            typ = "bool" if MASK[a] else args[2]
            if LAY and len(idx) == 2 and args[0] in LAY:
                idx = (idx[0] * self.int(LAY[args[0]]) + idx[1],)
            if isinstance(args[0], tuple) and isflat(args[0]):
                key = (args[0], idx, typ)
                v = self.elm.get(key)
                if v is None:
                    v = self.elm[key] = self.rnd("el%r%r" % (args[0], idx), typ)
                return v
            return self.rnd("el%r%r" % (self.name(args[0]), idx), typ)
        if kind == "lt0":
            v = self.poly(args[0])
            return int(v < (-0.5 if args[1] == "int" else -1e-11))
        if kind == "eq0":
            return int(abs(self.poly(args[0])) < 1e-12)
        if kind == "inv":
            v = self.poly(args[0])
            if abs(v) < 1e-14:
                raise Undef()
            return 1.0 / v
        if kind == "max":
            return max(self.poly(x) for x in args[0])
        if kind == "ite":
            return self.poly(args[1]) if self.poly(args[0]) > 0.5 else self.poly(args[2])
        if kind == "fn":
            vals = [self.poly(x) if isinstance(x, Poly) else x for x in args[1:]]
            return self.fnval(args[0], vals)
        if kind == "sum":
            n = self.int(args[0])
            if n > 64:
                raise Undef()
            h = args[-1]
            return sum(self.bound(args[1], h, i) for i in range(n))
        if kind in ("any",):
            n = self.int(args[0])
            h = args[-1]
            return int(any(self.bound(args[1], h, i) > 0.5 for i in range(min(n, 64))))
        if kind == "redmax":
            n = self.int(args[0])
            h = args[-1]
            best = -math.inf
            for i in range(min(n, 64)):
                for g, e in args[1]:
                    if self.bound(g, h, i) > 0.5:
                        best = max(best, self.bound(e, h, i))
            return best
        if kind == "acc":
            return self.bv[("acc", args[0])]
        if kind == "fold":
            n = self.int(args[0])
            h = args[-1]
            if n > 64:
                raise Undef()
            acc = self.poly(args[2])
            key = ("acc", h)
            old = self.bv.get(key)
            try:
                for i in range(n):
                    self.bv[key] = acc
                    acc = self.bound(args[1], h, i)
            finally:
                self.bv[key] = old
            return acc
        if kind == "prod":
            n = self.int(args[0])
            h = args[-1]
            v = 1.0
            for i in range(min(n, 64)):
                v *= self.bound(args[1], h, i)
            return v
        if kind == "scat":
            # content of an array after x[idx(k)] = val(k) for k=0..n-1 where guard(k)
            at, n, idx, g, val, old, h = args
            pos = tuple(self.int(x) for x in at)
            n = self.int(n)
            h = args[-1]
            for i in reversed(range(min(n, 64))):
                if self.bound(g, h, i) > 0.5 and all(int(round(self.bound(x, h, i))) == q for x, q in zip(idx, pos)):
                    return self.bound(val, h, i)
            return self.poly(old)
        if kind == "scatadd":
            at, n, idx, val, h = args
            pos = tuple(self.int(x) for x in at)
            n = self.int(n)
            h = args[-1]
            s = 0.0
            for i in range(min(n, 64)):
                if all(int(round(self.bound(x, h, i))) == q for x, q in zip(idx, pos)):
                    s += self.bound(val, h, i)
            return s
        if kind in ("lin",):
            # linear operator application: opaque but linear in its last argument
            return self.rnd("lin%r" % (self.freeze(args),), "real")
        if kind == "allreduce":
            v = self.poly(args[1])
            if self.seed % 2 == 0:
                return v            # one rank
            if args[0] == "sum":    # ranks with equal shares: additive and sign preserving
                return v * (2 + self.seed % 3)
            r = self.rnd("allreduce%r" % ((args[0], round(v, 9)),), "bool" if MASK[a] else "real")
            # the contribution of the other ranks
            if args[0] == "max":
                return max(v, r)
            if args[0] == "land":
                return min(v, r)
            return r
        if kind in ("ls", "k"):
            raise Opaque("loop-carried value")
        return self.rnd("%s%r" % (kind, self.freeze(args)), "bool" if MASK[a] else "real")

    def name(self, base):
        return self.freeze(base) if isinstance(base, tuple) else base

    def freeze(self, args):
        out = []
        for x in args:
            if isinstance(x, Poly):
                out.append(round(self.poly(x), 9))
            elif isinstance(x, tuple):
                out.append(self.freeze(x))
            else:
                out.append(x)
        return tuple(out)

    def fnval(self, name, v):
        if all(isinstance(x, (int, float)) for x in v):
            try:
                if name == "fabs":
                    return abs(v[0])
                if name == "sqrt":
                    return math.sqrt(abs(v[0]))
                if name == "log":
                    if v[0] == 0:
                        raise Undef()
                    return math.log(abs(v[0]))
                if name == "exp":
                    return math.exp(max(-50, min(50, v[0])))
                if name == "pow":
                    return math.pow(abs(v[0]), v[1])
                if name == "idiv":
                    if v[1] == 0:
                        raise Undef()
                    return int(v[0] / v[1])
                if name == "imod":
                    if v[1] == 0:
                        raise Undef()
                    return math.fmod(v[0], v[1])
                if name in ("isnan", "isinf", "isfinite"):
                    # classes of a number, as uninterpreted but exclusive predicates of its value
                    w = zlib.crc32(("fpclass%r|%d" % (round(float(v[0]), 9), self.seed)).encode()) % 10 if self.seed % 2 else 9
                    return int(w >= 2 if name == "isfinite" else w == (0 if name == "isnan" else 1))
                if name == "trunc":
                    return int(v[0])
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Undef()
        return self.rnd("fn%s%r" % (name, tuple(round(x, 9) if isinstance(x, float) else x for x in v)), "real")


def same(a, b, assume=(), dims=0, extent=4, samples=240, guard=None, fixed=None, pool=()):
    """Are two normal forms equal?  (True | False | None, explanation).
    None: one of them contains a value the analysis knows nothing about."""
    if a == b and not a.opq():
        return True, "identical normal forms"
    opaque = None
    tested = 0
    seed = 0
    local = [q for q in assume if dims and subst(q, {ix(0): ix(7), ix(1): ix(8)}) != q]
    while tested < samples and seed < samples * 12:
        seed += 1
        env = Env(seed, fixed, sizes=3)
        if seed % 2:
            env.pool = pool
        try:
            env.bv.update({("ix", d): 0 for d in range(3)})
            ok = True
            for q in assume:
                if env.poly(q) < 0.5:
                    ok = False
                    break
            if not ok:
                continue
        except (Undef, OverflowError):
            continue
        except Opaque:
            pass
        for i in range(extent if dims >= 1 else 1):
            for j in range(extent if dims >= 2 else 1):
                env.bv[("ix", 0)] = i
                env.bv[("ix", 1)] = j
                try:
                    if guard is not None and env.poly(guard) < 0.5:
                        continue
                    if (i or j) and any(env.poly(q) < 0.5 for q in local):
                        continue
                    x, y = env.poly(a), env.poly(b)
                except (Undef, OverflowError):
                    continue
                except Opaque as e:
                    opaque = str(e) or "unknown value"
                    continue
                tested += 1
                if x != y and not (abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))):
                    if math.isnan(x) or math.isnan(y):
                        continue
                    import os
                    if os.environ.get("DBG"):
                        for at in a.atoms() | b.atoms(): print(showatom(at)[:150], "=", env.atom(at))
                    return False, "values differ (%.6g instead of %.6g for one choice of the inputs)" % (x, y)
    if opaque:
        return None, opaque
    if tested == 0:
        return None, "no interpretation satisfies the assumptions"
    return True, "equal on %d interpretations" % tested
