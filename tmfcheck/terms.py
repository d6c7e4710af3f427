"""Value numbering terms and the linear-inequality domain used by the abstract interpreter.

Integers are linear forms over interned atoms (mathematical integers; machine ranges are interval
facts of the atoms), floats are interned uninterpreted terms, booleans are small formulas.
Nothing here executes the analysed program and no external solver is used: entailment is decided by
interval bounds and bounded Fourier-Motzkin elimination over the facts that hold at a program point.
"""
from math import gcd

INF = float("inf")


class Atom:
    __slots__ = ("key", "sort", "lo", "hi", "dom", "weak", "axioms", "id", "deps", "_lin", "ty", "unk")
    table = {}
    n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def term_deps(x):
    """all atoms occurring in x (transitively), as a frozenset"""
    if isinstance(x, Atom):
        return x.deps
    if isinstance(x, (str, int, float, bytes, bool)) or x is None:
        return EMPTY
    if isinstance(x, tuple):
        if not x:
            return EMPTY
        r = EMPTY
        for y in x:
            d = term_deps(y)
            if d:
                r = r | d if r else d
        return r
    return x.deps


EMPTY = frozenset()

# weak values that stand for a value lost in a join or loop summary, or a quantity the program may choose
# freely; any other weak value comes from a construct the analyser has no model of
SUMMARY = frozenset(("phi", "h", "hq", "hl", "cap", "bits?"))


def mk(key, sort="i", lo=-INF, hi=INF, dom=None, weak=False, ty=None):
    k = (sort, key)
    a = Atom.table.get(k)
    if a is not None:
        return a
    a = Atom()
    a.key = key
    a.sort = sort
    a.lo = lo
    a.hi = hi
    a.dom = dom
    a.ty = ty
    a.axioms = ()
    a.id = Atom.n
    Atom.n += 1
    a._lin = None
    d = term_deps(key)
    w = weak
    u = False
    for y in d:
        if y.weak:
            w = True
            if y.unk:
                u = True
                break
    else:
        if weak and isinstance(key, tuple) and key[0] not in SUMMARY:
            u = not any(y.weak for y in d)
    a.weak = w
    a.unk = u
    a.deps = d | {a}
    Atom.table[k] = a
    return a


class Lin:
    __slots__ = ("c", "t", "_h", "_d")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))
        self._d = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    @property
    def deps(self):
        if self._d is None:
            r = EMPTY
            for a, _ in self.t:
                r = r | a.deps
            self._d = r
        return self._d

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items(), key=lambda p: p[0].id)))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, q * k) for a, q in self.t))

    def single(self):
        """the atom if this is exactly 1*atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    def __repr__(self):
        return show(self)


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin(int(x))
    if isinstance(x, Atom):
        if x._lin is None:
            x._lin = Lin(0, ((x, 1),))
        return x._lin
    raise TypeError(f"not an int term: {x!r}")


def interval(l):
    lo = hi = l.c
    for a, k in l.t:
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return lo, hi


# ------------------------------------------------------------------ nonlinear constructors
def mk_mul(a, b, facts=None):
    if a.is_const():
        return b.scale(a.c)
    if b.is_const():
        return a.scale(b.c)
    if (b._h, repr(b)) < (a._h, repr(a)):
        a, b = b, a
    al, ah = interval(a)
    bl, bh = interval(b)
    c = []
    for p in (al, ah):
        for q in (bl, bh):
            if (p == 0 or q == 0):
                c.append(0)
            else:
                c.append(p * q)
    return L(mk(("mul", a, b), "i", min(c), max(c)))


def floordiv_hi(x, k):
    return x if x in (INF, -INF) else x // k


def mk_div(a, b, floor=False):
    """truncating division for non-negative operands (floor); floor: the program point guarantees a
    non-negative dividend although its interval does not show it"""
    if b.is_const() and b.c > 0:
        if a.is_const():
            return Lin(a.c // b.c) if a.c >= 0 else Lin(-((-a.c) // b.c))
        k = b.c
        if k == 1:
            return a
        # pull out the divisible part when everything is non-negative-safe: (k*q + r)/k = q + r/k
        q = []
        r = []
        for at, co in a.t:
            if co % k == 0:
                q.append((at, co // k))
            else:
                r.append((at, co))
        cq, cr = divmod(a.c, k)
        lo, hi = interval(a)
        rest = Lin(cr, tuple(r))
        rl, rh = interval(rest)
        if lo >= 0 and rl >= 0:
            base = Lin(cq, tuple(q))
            if not rest.t:
                return base + (rest.c // k)
            if rh < k:
                return base
            at = mk(("div", rest, b), "i", 0, floordiv_hi(rh, k))
            if not at.axioms:
                A = L(at)
                at.axioms = (A.scale(k) - rest, rest - A.scale(k) - (k - 1))
            return base + L(at)
        if lo >= 0:
            at = mk(("div", a, b), "i", 0, floordiv_hi(hi, k))
            if not at.axioms:
                A = L(at)
                at.axioms = (A.scale(k) - a, a - A.scale(k) - (k - 1))
            return L(at)
        if floor:
            # floor division: its axioms hold whatever the sign of the dividend
            at = mk(("div", a, b), "i", -INF if lo == -INF else lo // k, floordiv_hi(max(hi, 0), k))
            if not at.axioms:
                A = L(at)
                at.axioms = (A.scale(k) - a, a - A.scale(k) - (k - 1))
            return L(at)
        at = mk(("sdiv", a, b), "i", -INF if lo == -INF else -((-lo) // k), floordiv_hi(max(hi, 0), k))
        return L(at)
    lo, hi = interval(a)
    at = mk(("divv", a, b), "i", 0 if lo >= 0 else -INF, hi)
    if lo >= 0 and not at.axioms and interval(b)[0] >= 0:
        at.axioms = (L(at) - a,)
    return L(at)


def mk_rem(a, b, floor=False):
    if b.is_const() and b.c > 0:
        if a.is_const():
            return Lin(a.c % b.c) if a.c >= 0 else Lin(-((-a.c) % b.c))
        lo, hi = interval(a)
        if lo >= 0:
            if hi < b.c:
                return a
            return a - mk_div(a, b).scale(b.c)
        if floor:
            return a - mk_div(a, b, True).scale(b.c)
        return L(mk(("srem", a, b), "i", -(b.c - 1), b.c - 1))
    lo, hi = interval(a)
    at = mk(("remv", a, b), "i", 0 if lo >= 0 else -INF, hi)
    if lo >= 0 and not at.axioms:
        at.axioms = (L(at) - a, L(at) - b + 1)  # r <= a ; r < b (b>0 is checked by the program)
    return L(at)


def pow2mask(c):
    return c >= 0 and (c & (c + 1)) == 0


def mk_and(a, b, ty):
    if a.is_const() and b.is_const():
        return Lin(wrap(a.c & b.c, ty))
    if a.is_const():
        a, b = b, a
    lo, hi = interval(a)
    if b.is_const():
        m = b.c
        if m == 0:
            return Lin(0)
        if lo >= 0 and pow2mask(m):
            return mk_rem(a, Lin(m + 1))
        if lo >= 0 and m >= 0:
            return L(mk(("and", a, b), "i", 0, min(m, hi)))
    if (b._h) < (a._h):
        a, b = b, a
    l2, h2 = interval(b)
    l1, h1 = interval(a)
    if l1 >= 0 or l2 >= 0:
        h = INF
        if l1 >= 0:
            h = min(h, h1)
        if l2 >= 0:
            h = min(h, h2)
        at = mk(("and", a, b), "i", 0, h)
        if not at.axioms:
            ax = []
            if l1 >= 0:
                ax.append(L(at) - a)
            if l2 >= 0:
                ax.append(L(at) - b)
            at.axioms = tuple(ax)
        return L(at)
    return L(mk(("and", a, b), "i", *ty))


def nextmask(h):
    return (1 << int(h).bit_length()) - 1


def mk_or(a, b, ty, op="or"):
    if a.is_const() and b.is_const():
        return Lin(wrap(a.c | b.c if op == "or" else a.c ^ b.c, ty))
    if a.is_const() and a.c == 0:
        return b
    if b.is_const() and b.c == 0:
        return a
    if b._h < a._h:
        a, b = b, a
    l1, h1 = interval(a)
    l2, h2 = interval(b)
    if l1 >= 0 and l2 >= 0 and h1 < INF and h2 < INF:
        at = mk((op, a, b), "i", 0, nextmask(max(h1, h2)))
        if op == "or" and not at.axioms:
            at.axioms = (a - L(at), b - L(at), L(at) - a - b)
        return L(at)
    return L(mk((op, a, b), "i", *ty))


def wrap(v, ty):
    lo, hi = ty
    if lo <= v <= hi:
        return v
    w = hi - lo + 1
    return (v - lo) % w + lo


def mk_wrap(a, ty):
    """a reduced modulo the width of ty; a itself when it is known to fit"""
    lo, hi = ty
    if a.is_const():
        return Lin(wrap(a.c, ty))
    l, h = interval(a)
    if lo <= l and h <= hi:
        return a
    at = mk(("wrap", a, lo, hi), "i", lo, hi)
    if lo == 0 and l >= 0 and not at.axioms:
        at.axioms = (L(at) - a,)
    return L(at)


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ("op", "x", "_h", "_d", "_n")
    table = {}

    def __new__(cls, op, x=None):
        k = (op, x)
        r = cls.table.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op = op
            r.x = x
            r._h = hash(k)
            r._d = None
            r._n = None
            cls.table[k] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @property
    def deps(self):
        if self._d is None:
            self._d = term_deps(self.x)
        return self._d

    def __repr__(self):
        return show(self)


TRUE = B("T")
FALSE = B("F")


def norm_gcd(l):
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    return g


def le0(l):
    if not l.t:
        return TRUE if l.c <= 0 else FALSE
    lo, hi = interval(l)
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    g = norm_gcd(l)
    if g > 1:
        # sum <= -c  ->  sum/g <= floor(-c/g)
        l = Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
    return B("le", l)


def eq0(l):
    if not l.t:
        return TRUE if l.c == 0 else FALSE
    lo, hi = interval(l)
    if lo > 0 or hi < 0:
        return FALSE
    if l.t[0][1] < 0:
        l = -l
    g = norm_gcd(l)
    if g > 1:
        if l.c % g:
            return FALSE
        l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    if len(l.t) == 1 and l.t[0][1] == 1:
        a = l.t[0][0]
        if a.dom is not None and -l.c not in a.dom:
            return FALSE
    return B("eq", l)


def bnot(b):
    r = b._n
    if r is None:
        r = b._n = bnot1(b)
    return r


def bnot1(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "le":
        return le0(-b.x + 1)
    if b.op == "eq":
        return B("ne", b.x)
    if b.op == "ne":
        return B("eq", b.x)
    if b.op == "lit":
        return B("lit", (b.x[0], not b.x[1]))
    if b.op == "and":
        return bor(*[bnot(y) for y in b.x])
    if b.op == "or":
        return band(*[bnot(y) for y in b.x])
    raise ValueError(b.op)


def band(*xs):
    return junction("and", FALSE, TRUE, xs)


def bor(*xs):
    return junction("or", TRUE, FALSE, xs)


def junction(op, absorbing, neutral, xs):
    r = {}
    for x in xs:
        if x is absorbing:
            return absorbing
        if x is neutral:
            continue
        if x.op == op:
            for y in x.x:
                r[y] = None
        else:
            r[x] = None
    for x in r:
        if bnot(x) in r:
            return absorbing
    if not r:
        return neutral
    if len(r) == 1:
        return next(iter(r))
    return B(op, tuple(r))


MAXCLAUSE = 80


def bsize(b):
    """number of literals (bounded)"""
    n = 0
    st = [b]
    while st and n <= MAXCLAUSE:
        x = st.pop()
        if x.op in ("and", "or"):
            st.extend(x.x)
        else:
            n += 1
    return n


def lit(a, pol=True):
    return B("lit", (a, pol))


def lt(a, b):
    return le0(a - b + 1)


def le(a, b):
    return le0(a - b)


def eq(a, b):
    return eq0(a - b)


def bool_to_int(b):
    if b is TRUE:
        return Lin(1)
    if b is FALSE:
        return Lin(0)
    return L(mk(("b2i", b), "i", 0, 1))


# ------------------------------------------------------------------ substitution
class Subst:
    """simultaneous substitution of atoms; map: Atom -> Lin/Atom/anything of the same sort"""

    def __init__(self, mp):
        self.mp = mp
        self.keys = frozenset(mp)
        self.memo = {}

    def touches(self, x):
        return not self.keys.isdisjoint(term_deps(x))

    def __call__(self, x):
        if isinstance(x, (str, int, float, bytes, bool)) or x is None:
            return x
        if isinstance(x, tuple):
            if self.keys.isdisjoint(term_deps(x)):
                return x
            return tuple(self(y) for y in x)
        if self.keys.isdisjoint(x.deps):
            return x
        r = self.memo.get(x)
        if r is None:
            r = self.rebuild(x)
            self.memo[x] = r
        return r

    def rebuild(self, x):
        if isinstance(x, Lin):
            r = Lin(x.c)
            for a, k in x.t:
                v = self(a)
                r = r + L(v).scale(k)
            return r
        if isinstance(x, Atom):
            if x in self.mp:
                return self.mp[x]
            return rebuild_atom(x, tuple(self(y) for y in x.key))
        if isinstance(x, B):
            if x.op == "le":
                return le0(self(x.x))
            if x.op == "eq":
                return eq0(self(x.x))
            if x.op == "ne":
                return bnot(eq0(self(x.x)))
            if x.op == "lit":
                a = self(x.x[0])
                if isinstance(a, B):
                    return a if x.x[1] else bnot(a)
                return lit(a, x.x[1])
            if x.op == "and":
                return band(*[self(y) for y in x.x])
            if x.op == "or":
                return bor(*[self(y) for y in x.x])
            return x
        return x.map(self)


def mk_minmax(op, a, b):
    """the smaller (larger) of two integers, as an atom"""
    if interval(b - a)[0] >= 0:
        return a if op == "imin" else b
    if interval(a - b)[0] >= 0:
        return b if op == "imin" else a
    f = min if op == "imin" else max
    lo = f(interval(a)[0], interval(b)[0])
    hi = f(interval(a)[1], interval(b)[1])
    x, y = sorted((a, b), key=lambda q: (q._h, repr(q)))
    at = mk((op, x, y), "i", lo, hi)
    r = L(at)
    at.axioms = (r - a, r - b) if op == "imin" else (a - r, b - r)
    return r


def rebuild_atom(x, key):
    """re-normalise an atom whose arguments changed; returns Atom or Lin or B"""
    op = key[0]
    if x.sort == "i":
        if op == "mul":
            return mk_mul(key[1], key[2])
        if op == "div" or op == "divv" or op == "sdiv":
            return mk_div(key[1], key[2], op == "div")
        if op in ("srem", "remv"):
            return mk_rem(key[1], key[2])
        if op == "and":
            return mk_and(key[1], key[2], (x.lo, x.hi))
        if op in ("or", "xor"):
            return mk_or(key[1], key[2], (x.lo, x.hi), op)
        if op == "wrap":
            return mk_wrap(key[1], (key[2], key[3]))
        if op == "b2i":
            return bool_to_int(key[1])
        if op in ("imin", "imax"):
            return mk_minmax(op, key[1], key[2])
        if op == "shr" and x.axioms:
            at = mk(key, "i", x.lo, x.hi)
            if not at.axioms and interval(key[1])[0] >= 0:
                at.axioms = (L(at) - key[1],)
            return L(at)
    f = REBUILD.get(op)
    if f is not None:
        r = f(x, key)
        if r is not None:
            return r
    return mk(key, x.sort, x.lo, x.hi, x.dom, x.weak, x.ty)


REBUILD = {}


ANY = mk(("anything",), "o")
LOST = frozenset((ANY,))


# ------------------------------------------------------------------ facts
UNK = []        # decisions on values of unknown origin made since the list was last cleared


class Facts:
    """facts holding at a program point"""
    __slots__ = ("ineqs", "nes", "lits", "clauses", "eqmap", "bad", "log", "foralls", "bix", "lossy", "unk")
    cache = {}

    def __init__(self):
        self.ineqs = ()
        self.nes = ()
        self.lits = {}
        self.clauses = ()
        self.eqmap = {}
        self.bad = False
        self.log = ()      # all formulas assumed, in order
        self.foralls = ()
        self.bix = None
        self.lossy = EMPTY     # the atoms of each fact that was lost in a join
        self.unk = False       # did a decision depend on a value of unknown origin?

    def copy(self):
        f = Facts.__new__(Facts)
        f.ineqs = self.ineqs
        f.nes = self.nes
        f.lits = self.lits
        f.clauses = self.clauses
        f.eqmap = self.eqmap
        f.bad = self.bad
        f.log = self.log
        f.foralls = self.foralls
        f.bix = self.bix
        f.lossy = self.lossy
        f.unk = self.unk
        return f

    def norm(self, l):
        m = self.eqmap
        if not m:
            return l
        hit = False
        for a, _ in l.t:
            if a in m or (a.key[0] == "div" and any(b in m for b, _ in a.key[1].t)):
                hit = True
                break
        if not hit:
            return l
        r = Lin(l.c)
        for a, k in l.t:
            v = m.get(a)
            if v is None and a.key[0] == "div":
                x = self.norm(a.key[1])
                if x is not a.key[1] and a not in term_deps(x):
                    v = mk_div(x, a.key[2], True)
            r = r + (v.scale(k) if v is not None else Lin(0, ((a, k),)))
        return r

    # -- adding
    def assume(self, b):
        if b is TRUE or self.bad:
            return
        if b is FALSE:
            self.bad = True
            return
        if b.op == "and":
            for y in b.x:
                self.assume(y)
            return
        self.log = self.log + (b,)
        if not self.unk:
            for a in b.deps:
                if a.unk:
                    self.unk = True
                    UNK.append(b)
                    break
        if b.op == "lit":
            a, pol = b.x
            if a in self.lits:
                if self.lits[a] != pol:
                    self.bad = True
                return
            self.lits = dict(self.lits)
            self.lits[a] = pol
            self._reclause(b.deps)
            return
        if b.op == "le":
            l = self.norm(b.x)
            q = le0(l)
            if q is FALSE:
                self.bad = True
                return
            if q is TRUE:
                return
            if q.x not in self.ineqs:
                self.ineqs = self.ineqs + (q.x,)
                # two opposite inequalities make an equality
                if (-q.x) in self.ineqs:
                    self._add_eq(q.x)
                self._reclause(b.deps | q.deps)
            return
        if b.op == "eq":
            l = self.norm(b.x)
            self._add_eq(l)
            self._reclause(b.deps | l.deps)
            return
        if b.op == "ne":
            l = self.norm(b.x)
            q = bnot(eq0(l))
            if q is FALSE:
                self.bad = True
                return
            if q is TRUE:
                return
            l = q.x
            if l not in self.nes:
                self.nes = self.nes + (l,)
            # sharpen at interval ends
            lo, hi = self.bounds(l)
            if lo == 0:
                self.ineqs = self.ineqs + (-l + 1,)
            elif hi == 0:
                self.ineqs = self.ineqs + (l + 1,)
            if len(l.t) == 1 and l.t[0][0].dom is not None:
                self._dom(l.t[0][0])
            self._reclause(b.deps | l.deps)
            return
        if b.op == "or":
            alive = []
            for y in b.x:
                d = self.decide(y, deep=False)
                if d is True:
                    return
                if d is None:
                    alive.append(y)
            z = bor(*alive)
            if z is TRUE:
                return
            if z.op == "or" and bsize(z) > MAXCLAUSE:
                return
            if z.op == "or":
                self.clauses = self.clauses + (z,)
            elif z is FALSE:
                self.bad = True
            else:
                self.assume(z)
            return
        raise ValueError(b.op)

    def _dom(self, a):
        """finite-domain propagation for enum discriminants"""
        left = [v for v in a.dom if Lin(-v, ((a, 1),)) not in self.nes and Lin(v, ((a, -1),)) not in self.nes]
        if not left:
            self.bad = True
        elif len(left) == 1:
            self._add_eq(Lin(-left[0], ((a, 1),)))

    def _add_eq(self, l):
        if not l.t:
            if l.c != 0:
                self.bad = True
            return
        q = eq0(l)
        if q is FALSE:
            self.bad = True
            return
        pick = None
        best = None
        for a, k in l.t:
            if abs(k) == 1:
                # prefer newest atoms, avoid atoms whose own term contains the others
                sc = (len(l.t) == 1, a.key[0] == "n", a.id)
                if best is None or sc > best:
                    best, pick = sc, (a, k)
        if pick is None:
            for y in (l, -l):
                if y not in self.ineqs:
                    self.ineqs = self.ineqs + (y,)
            return
        a, k = pick
        rest = Lin(l.c, tuple(p for p in l.t if p[0] is not a))
        rhs = rest.scale(-1) if k == 1 else rest
        m = {x: subst1(v, a, rhs) for x, v in self.eqmap.items()}
        m[a] = rhs
        self.eqmap = m
        # range of a carries over to rhs, as does its domain
        old = self.ineqs
        self.ineqs = ()
        for y in old:
            z = le0(subst1(y, a, rhs))
            if z is FALSE:
                self.bad = True
                return
            if z is not TRUE and z.x not in self.ineqs:
                self.ineqs = self.ineqs + (z.x,)
        if rhs.is_const():
            if not (a.lo <= rhs.c <= a.hi) or (a.dom is not None and rhs.c not in a.dom):
                self.bad = True
                return
        else:
            for z in ([Lin(0) + rhs - a.hi] if a.hi != INF else []) + ([-rhs + a.lo] if a.lo != -INF else []):
                q = le0(z)
                if q is FALSE:
                    self.bad = True
                    return
                if q is not TRUE and q.x not in self.ineqs:
                    self.ineqs = self.ineqs + (q.x,)
        for ax in a.axioms:
            q = le0(self.norm(ax))
            if q is FALSE:
                self.bad = True
                return
            if q is not TRUE and q.x not in self.ineqs:
                self.ineqs = self.ineqs + (q.x,)
        if a.key[0] == "clz" and rhs.is_const():
            v, n = self.norm(a.key[1]), a.key[2]
            c = rhs.c
            for z in ([v, -v] if c == n else [v - (2 ** (n - c) - 1), Lin(2 ** (n - 1 - c)) - v]):
                q = le0(z)
                if q is FALSE:
                    self.bad = True
                    return
                if q is not TRUE and q.x not in self.ineqs:
                    self.ineqs = self.ineqs + (q.x,)
        oldn = self.nes
        self.nes = ()
        for y in oldn:
            z = bnot(eq0(subst1(y, a, rhs)))
            if z is FALSE:
                self.bad = True
                return
            if z is not TRUE:
                self.nes = self.nes + (z.x,)

    def _reclause(self, touched):
        """re-examine the clauses that mention an atom of a new fact"""
        if not self.clauses:
            return
        old = self.clauses
        self.clauses = ()
        for c in old:
            if c.deps.isdisjoint(touched):
                self.clauses = self.clauses + (c,)
                continue
            alive = []
            sat = False
            for y in c.x:
                d = self.decide(y, deep=False)
                if d is True:
                    sat = True
                    break
                if d is None:
                    alive.append(self.normb(y))
            if sat:
                continue
            if not alive:
                self.bad = True
                return
            z = bor(*alive)
            if z is TRUE:
                continue
            if z.op == "or":
                self.clauses = self.clauses + (z,)
                continue
            self.assume(z)
            if self.bad:
                return
            touched = touched | z.deps

    def normb(self, b):
        """b over the current representatives"""
        if not self.eqmap:
            return b
        if b.op == "le":
            return le0(self.norm(b.x))
        if b.op == "eq":
            return eq0(self.norm(b.x))
        if b.op == "ne":
            return bnot(eq0(self.norm(b.x)))
        if b.op in ("and", "or"):
            return junction(b.op, FALSE if b.op == "and" else TRUE, TRUE if b.op == "and" else FALSE, [self.normb(y) for y in b.x])
        return b

    # -- querying
    def bounds(self, l):
        """interval of l using atom ranges and unary facts"""
        l = self.norm(l)
        lo, hi = interval(l)
        t = l.t
        if t and self.ineqs:
            # tighten with facts that are scalar multiples of l's non-constant part
            bx = self.bix
            if bx is None or bx[0] is not self.ineqs:
                d = {}
                for y in self.ineqs:
                    c = d.get(y.t)
                    if c is None or y.c > c:
                        d[y.t] = y.c
                bx = self.bix = (self.ineqs, d)
            d = bx[1]
            c = d.get(t)
            if c is not None and l.c - c < hi:
                hi = l.c - c
            c = d.get(tuple([(a, -k) for a, k in t]))
            if c is not None and l.c + c > lo:
                lo = l.c + c
        return lo, hi

    def decide(self, b, deep=True):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        op = b.op
        if op == "lit":
            v = self.lits.get(b.x[0])
            if v is None:
                if b in self.log:
                    return True
                return None
            return v == b.x[1]
        if op == "and":
            r = True
            for y in b.x:
                d = self.decide(y, deep)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        if op == "or":
            r = False
            for y in b.x:
                d = self.decide(y, deep)
                if d is True:
                    return True
                if d is None:
                    r = None
            if r is None and deep:
                # refute the negation jointly
                f = self.copy()
                for y in b.x:
                    f.assume(bnot(y))
                    if f.bad:
                        return True
                if f.refuted():
                    return True
            return r
        if op == "eq":
            l = self.norm(b.x)
            q = eq0(l)
            if q is TRUE:
                return True
            if q is FALSE:
                return False
            if l in self.nes or (-l) in self.nes or q.x in self.nes or (-q.x) in self.nes:
                return False
            lo, hi = self.bounds(l)
            if lo > 0 or hi < 0:
                return False
            if not deep:
                return None
            if self.infeasible_with((l,)) :
                # l <= 0 impossible -> l>0 -> not equal
                return False
            if self.infeasible_with((-l,)):
                return False
            if self.infeasible_with((-l + 1,)) and self.infeasible_with((l + 1,)):
                return True
            if self.infeasible_with((l, -l)):
                return False
            return None
        if op == "ne":
            d = self.decide(bnot(b), deep)
            return None if d is None else (not d)
        if op == "le":
            l = self.norm(b.x)
            q = le0(l)
            if q is TRUE:
                return True
            if q is FALSE:
                return False
            lo, hi = self.bounds(l)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            if not deep:
                return None
            if self.infeasible_with((-l + 1,)):
                return True
            if self.infeasible_with((l,)):
                return False
            return None
        raise ValueError(op)

    def settle(self, cond, depth=2):
        """decide a condition, by cases of what the joined paths have in common if need be: True when
        it holds in every case, False when some case excludes it"""
        d = self.decide(cond)
        if d is not None or not depth:
            return d
        if self.refuted():
            return True
        want = cond.deps
        cs = [c for c in self.clauses if c.op == "or" and len(c.x) <= 8]
        cs.sort(key=lambda c: not (c.deps & want))
        for c in cs[:4]:
            res = []
            for alt in c.x:
                f = self.copy()
                f.clauses = tuple(x for x in f.clauses if x is not c)
                f.assume(alt)
                if f.bad or f.refuted():
                    continue
                res.append(f.settle(cond, depth - 1))
            if not res or all(r is True for r in res):
                return True
            if any(r is False for r in res):
                return False
        return None

    def by_cases(self, cond, budget=96):
        """decide a condition over every case of the disjunctions that bear on it: True when it holds in
        all of them, False when one case with nothing left to split does not settle it, None when the
        cases are too many to tell"""
        left = [budget]
        want0 = cond.deps

        def go(f):
            if f.bad or f.decide(cond) is True or f.refuted():
                return True
            want = set(cond.deps)
            if not want:
                # an unreachable place: the conditions that led there are what has to be contradicted
                for g in [g for g in f.log if isinstance(g, B)][-3:]:
                    want |= g.deps
            cs = [c for c in f.clauses if c.op == "or"]
            for g in f.log:
                if isinstance(g, B) and g.op != "or" and g.deps & want:
                    want |= g.deps
            rel = [c for c in cs if c.deps & want]
            if not rel:
                return False
            c = min(rel, key=lambda c: (not (c.deps & want0), len(c.x)))
            if len(c.x) > left[0]:
                return None
            left[0] -= len(c.x)
            out = True
            for alt in c.x:
                h = f.copy()
                h.clauses = tuple(x for x in h.clauses if x is not c)
                h.assume(alt)
                r = go(h)
                if r is None:
                    return None
                if r is False:
                    out = False
                    break
            return out

        return go(self)

    def lossy_for(self, deps):
        """was a fact lost in a join that could bear on these atoms? Facts about one sequence say nothing
        about the agreement of two of them"""
        bases = {a for a in deps if a.sort == "o"}
        for d in self.lossy:
            if ANY in d or (len(d & bases) >= 2 if len(bases) >= 2 else d & deps):
                return True
        return False

    def weak_path(self, deps=None):
        """does the last decision on this path depend on a value lost in a join or loop summary?"""
        if self.unk or self.lossy and (deps is None or self.lossy_for(deps)):
            return True
        for g in reversed(self.log):
            if isinstance(g, B):
                return any(a.weak for a in g.deps)
        return False

    def refuted(self):
        if self.bad:
            return True
        if not self.ineqs:
            return False
        return self.infeasible_with(())

    def infeasible_with(self, extra):
        base = [self.norm(x) for x in extra]
        if extra:
            rel = relevant(base, self)
        else:
            rel = relevant(list(self.ineqs[-3:]), self)
        key = frozenset(rel)
        r = Facts.cache.get(key)
        if r is None:
            r = fm_infeasible(list(key))
            Facts.cache[key] = r
        if not r and self.nes:
            # split on a disequality that touches the goal (one level)
            atoms = set()
            for x in rel:
                for a, _ in x.t:
                    atoms.add(a)
            n = 0
            for ne in reversed(self.nes):
                if len(ne.t) > 3 or not any(a in atoms for a, _ in ne.t):
                    continue
                n += 1
                if n > 5:
                    break
                ok = True
                for sp in (ne + 1, -ne + 1):
                    if base:
                        k = frozenset(relevant(base + [sp], self))
                    else:
                        k = frozenset(list(rel) + [sp])
                    q = Facts.cache.get(k)
                    if q is None:
                        q = fm_infeasible(list(k))
                        Facts.cache[k] = q
                    if not q:
                        ok = False
                        break
                if ok:
                    return True
        return r


def subst1(l, a, rhs):
    for x, k in l.t:
        if x is a:
            return Lin(l.c, tuple(p for p in l.t if p[0] is not a)) + rhs.scale(k)
    return l


def atoms_of(l):
    return [a for a, _ in l.t]


def relevant(base, facts, depth=3):
    """constraints connected to base through shared atoms, plus atom ranges and axioms"""
    out = list(base)
    seen = set(out)
    atoms = set()
    frontier = set()
    for x in base:
        frontier.update(atoms_of(x))
    for _ in range(depth):
        if not frontier:
            break
        atoms |= frontier
        nxt = set()
        for y in facts.ineqs:
            if y in seen:
                continue
            ya = atoms_of(y)
            if any(a in frontier for a in ya):
                if len(ya) > 6:
                    continue
                out.append(y)
                seen.add(y)
                nxt.update(a for a in ya if a not in atoms)
        for a in frontier:
            for ax in a.axioms:
                y = facts.norm(ax)
                if y.t and y not in seen:
                    out.append(y)
                    seen.add(y)
                    nxt.update(q for q in atoms_of(y) if q not in atoms)
        frontier = nxt
        if len(out) > 60:
            break
    atoms |= frontier
    for a in atoms:
        if a.lo != -INF:
            out.append(Lin(int(a.lo), ((a, -1),)))
        if a.hi != INF:
            out.append(Lin(-int(a.hi), ((a, 1),)))
    return out


def tighten(l):
    g = norm_gcd(l)
    if g > 1:
        return Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
    return l


def fm_infeasible(cs, limit=400):
    """True when the system {c <= 0} has no rational (or tightened-integer) solution"""
    cur = {}

    def add(d, l):
        l = tighten(l)
        if not l.t:
            return l.c > 0
        o = d.get(l.t)
        if o is None or l.c > o:
            d[l.t] = l.c
        # opposite pair check
        neg = tuple((a, -k) for a, k in l.t)
        o = d.get(neg)
        if o is not None and d[l.t] + o > 0:
            return True
        return False

    for l in cs:
        if add(cur, l):
            return True
    steps = 0
    while cur:
        cnt = {}
        for t in cur:
            for a, k in t:
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        best = None
        bv = None
        for a, (p, n) in cnt.items():
            v = p * n - p - n
            if bv is None or v < bv:
                bv, best = v, a
        a = best
        pos = []
        neg = []
        nxt = {}
        for t, c in cur.items():
            co = 0
            for x, k in t:
                if x is a:
                    co = k
                    break
            if co == 0:
                nxt[t] = c
            elif co > 0:
                pos.append((Lin(c, t), co))
            else:
                neg.append((Lin(c, t), -co))
        for p, pc in pos:
            for q, qc in neg:
                g = gcd(pc, qc)
                r = p.scale(qc // g) + q.scale(pc // g)
                if add(nxt, r):
                    return True
        cur = nxt
        steps += 1
        if len(cur) > limit or steps > 60:
            return False
    return False


# ------------------------------------------------------------------ printing
def show(x, d=0):
    if d > 5:
        return "…"
    if isinstance(x, Atom):
        k = x.key
        if k[0] in ("fadd", "fsub", "fmul", "fdiv"):
            op = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[k[0]]
            return f"({show(k[1], d+1)} {op} {show(k[2], d+1)})"
        if k[0] == "fconst":
            return repr(k[1])
        return k[0] + "(" + ", ".join(show(y, d + 1) for y in k[1:]) + ")"
    if isinstance(x, Lin):
        if not x.t:
            return str(x.c)
        s = []
        for a, k in x.t:
            if k == 1:
                s.append(show(a, d))
            else:
                s.append(f"{k}*{show(a, d)}")
        if x.c:
            s.append(str(x.c))
        return " + ".join(s)
    if isinstance(x, B):
        if x.op in ("T", "F"):
            return x.op
        if x.op == "lit":
            return ("" if x.x[1] else "!") + show(x.x[0], d)
        if x.op in ("and", "or"):
            return "(" + f" {x.op} ".join(show(y, d + 1) for y in x.x) + ")"
        return show(x.x, d) + {"le": " <= 0", "eq": " == 0", "ne": " != 0"}[x.op]
    if isinstance(x, tuple):
        return "(" + ",".join(show(y, d + 1) for y in x) + ")"
    return str(x)
