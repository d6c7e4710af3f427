"""Abstract values: aggregates, lazily expanded symbolic values, sequences and references."""
from .terms import *


class V:
    """base of structural values: interned by structure through hash/eq"""
    __slots__ = ("_h", "_d", "_k")

    def _init(self, *k):
        self._k = k
        self._h = hash((self.__class__.__name__, k))
        self._d = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (self.__class__ is o.__class__ and self._h == o._h and self._k == o._k)

    @property
    def deps(self):
        if self._d is None:
            self._d = term_deps(self._k)
        return self._d

    def map(self, f):
        return self.__class__(*[f(y) for y in self._k])

    def __repr__(self):
        return show(self)


class Agg(V):
    """struct / tuple / enum variant; ty is the type id (or None for tuples)"""
    __slots__ = ("ty", "variant", "fields")

    def __init__(self, ty, variant, fields):
        self.ty = ty
        self.variant = variant
        self.fields = tuple(fields)
        self._init(ty, variant, self.fields)

    def __repr__(self):
        return f"Agg{self.ty}:{self.variant}{self.fields!r}"

    def with_field(self, i, v):
        fs = list(self.fields)
        fs[i] = v
        return Agg(self.ty, self.variant, fs)


class Sym(V):
    """symbolic value of a structured type, expanded on demand"""
    __slots__ = ("ty", "base")

    def __init__(self, ty, base):
        self.ty = ty
        self.base = base
        self._init(ty, base)

    def __repr__(self):
        return f"Sym<{self.ty}>({self.base!r})"


class Ref(V):
    """reference: memory location, path and (for slices) a range (offset, length)"""
    __slots__ = ("loc", "path", "rng")

    def __init__(self, loc, path=(), rng=None):
        self.loc = loc
        self.path = path
        self.rng = rng
        self._init(loc, path, rng)

    def __repr__(self):
        return f"&{self.loc}{list(self.path)}{'' if self.rng is None else self.rng}"


class FnV(V):
    """function item / constructor / closure-less callable"""
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee
        self._init(callee)

    def map(self, f):
        return self

    def __repr__(self):
        return f"fn#{self.callee}"


class Nat(V):
    """natively modelled library object: tag and components"""
    __slots__ = ("tag", "args")

    def __init__(self, tag, *args):
        self.tag = tag
        self.args = tuple(args)
        self._init(tag, *self.args)

    def map(self, f):
        return Nat(self.tag, *[f(y) for y in self.args])

    def __repr__(self):
        return f"{self.tag}{self.args!r}"


class Const(V):
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what
        self._init(what)

    def map(self, f):
        return self

    def __repr__(self):
        return f"<{self.what}>"


MOVED = Const("moved")
UNINIT = Const("uninit")
UNIT = Agg(None, 0, ())


# ------------------------------------------------------------------ sequences
class Seq(V):
    __slots__ = ("elem",)   # element type id or None

    @property
    def len(self):
        raise NotImplementedError


class SLit(Seq):
    __slots__ = ("items",)

    def __init__(self, elem, items):
        self.elem = elem
        self.items = tuple(items)
        self._init(elem, self.items)

    @property
    def len(self):
        return Lin(len(self.items))

    def __repr__(self):
        if self.items and len(self.items) > 12:
            return f"[{len(self.items)} items]"
        return "[" + ", ".join(map(repr, self.items)) + "]"


class SSym(Seq):
    """symbolic sequence with base atom and length term"""
    __slots__ = ("base", "length")

    def __init__(self, elem, base, length):
        self.elem = elem
        self.base = base
        self.length = length
        self._init(elem, base, length)

    def map(self, f):
        b = f(self.base)
        if isinstance(b, Seq):
            return b
        return SSym(self.elem, b, f(self.length))

    @property
    def len(self):
        return self.length

    def __repr__(self):
        return f"seq:{self.base!r}"


class SCat(Seq):
    __slots__ = ("parts",)

    def __init__(self, elem, parts):
        self.elem = elem
        self.parts = tuple(parts)
        self._init(elem, self.parts)

    def map(self, f):
        return mk_cat(self.elem, [f(y) for y in self.parts])

    @property
    def len(self):
        r = Lin(0)
        for p in self.parts:
            r = r + p.len
        return r

    def __repr__(self):
        return " ++ ".join(map(repr, self.parts))


class SRep(Seq):
    """concatenation over k in 0..count of one of the alternatives (guard, piece), in order.
    alts: tuple of (guards tuple, piece Seq); terms mention the bound atom k."""
    __slots__ = ("k", "count", "alts", "lenatom")

    def __init__(self, elem, k, count, alts, lenatom=None):
        self.elem = elem
        self.k = k
        self.count = count
        self.alts = tuple(alts)
        self.lenatom = lenatom
        self._init(elem, k, count, self.alts, lenatom)

    def map(self, f):
        # k is bound: do not substitute it inside the alternatives
        if isinstance(f, Subst) and self.k in f.mp:
            g = Subst({a: v for a, v in f.mp.items() if a is not self.k})
            alts = tuple(g(y) for y in self.alts)
            return SRep(self.elem, self.k, f(self.count), alts, f(self.lenatom))
        return SRep(self.elem, self.k, f(self.count), tuple(f(y) for y in self.alts), f(self.lenatom))

    @property
    def deps(self):
        if self._d is None:
            self._d = (term_deps(self.alts) - {self.k}) | term_deps(self.count) | term_deps(self.lenatom)
        return self._d

    def unit(self):
        """constant number of elements produced per iteration, or None"""
        n = None
        for _, s in self.alts:
            l = s.len
            if not l.is_const():
                return None
            if n is None:
                n = l.c
            elif n != l.c:
                return None
        return n if n is not None else 0

    @property
    def len(self):
        u = self.unit()
        if u is not None:
            return self.count.scale(u)
        if self.lenatom is not None:
            return self.lenatom
        return L(mk(("replen", self.k, self.count, self.alts), "i", 0, (1 << 63) - 1))

    def __repr__(self):
        return f"rep[{self.k!r}<{self.count!r}]{{" + " | ".join(
            (("if " + " & ".join(map(repr, g)) + ": ") if g else "") + repr(s) for g, s in self.alts) + "}"


class SSlice(Seq):
    __slots__ = ("seq", "off", "n")

    def __init__(self, elem, seq, off, n):
        self.elem = elem
        self.seq = seq
        self.off = off
        self.n = n
        self._init(elem, seq, off, n)

    def map(self, f):
        return mk_slice(f(self.seq), f(self.off), f(self.n))

    @property
    def len(self):
        return self.n

    def __repr__(self):
        return f"{self.seq!r}[{self.off!r};{self.n!r}]"


class SUpd(Seq):
    """seq with element idx replaced"""
    __slots__ = ("seq", "idx", "val")

    def __init__(self, elem, seq, idx, val):
        self.elem = elem
        self.seq = seq
        self.idx = idx
        self.val = val
        self._init(elem, seq, idx, val)

    @property
    def len(self):
        return self.seq.len

    def __repr__(self):
        return f"{self.seq!r}[{self.idx!r}:={self.val!r}]"


class SConstRep(Seq):
    """value repeated n times"""
    __slots__ = ("val", "n")

    def __init__(self, elem, val, n):
        self.elem = elem
        self.val = val
        self.n = n
        self._init(elem, val, n)

    @property
    def len(self):
        return self.n

    def __repr__(self):
        return f"[{self.val!r}; {self.n!r}]"


class SLe(Seq):
    """bytes of a scalar in little/big/native endian order"""
    __slots__ = ("val", "n", "order")

    def __init__(self, elem, val, n, order):
        self.elem = elem
        self.val = val
        self.n = n
        self.order = order
        self._init(elem, val, n, order)

    @property
    def len(self):
        return Lin(self.n)

    def __repr__(self):
        return f"{self.order}{self.n}({self.val!r})"


class SFun(Seq):
    """uninterpreted function producing a sequence (sorted copy, formatted text, ...)"""
    __slots__ = ("name", "args", "length")

    def __init__(self, elem, name, args, length):
        self.elem = elem
        self.name = name
        self.args = tuple(args)
        self.length = length
        self._init(elem, name, self.args, length)

    @property
    def len(self):
        return self.length

    def __repr__(self):
        return f"{self.name}{self.args!r}"


def is_empty(s):
    return s.len == Lin(0) and not isinstance(s, SRep) or (isinstance(s, SLit) and not s.items)


def mk_cat(elem, parts):
    out = []
    for p in parts:
        if isinstance(p, SCat):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, SLit) and not q.items:
                continue
            if q.len == Lin(0):
                continue
            if out and isinstance(q, SLit) and isinstance(out[-1], SLit):
                out[-1] = SLit(q.elem, out[-1].items + q.items)
                continue
            if out and isinstance(q, SSlice) and isinstance(out[-1], SSlice) and out[-1].seq == q.seq \
                    and out[-1].off + out[-1].n == q.off:
                out[-1] = mk_slice(q.seq, out[-1].off, out[-1].n + q.n)
                continue
            out.append(q)
    if not out:
        return SLit(elem, ())
    if len(out) == 1:
        return out[0]
    return SCat(elem, out)


def mk_slice(s, off, n):
    if off == Lin(0) and n == s.len:
        return s
    if n == Lin(0):
        return SLit(s.elem, ())
    if isinstance(s, SLit) and off.is_const() and n.is_const() and 0 <= off.c and off.c + n.c <= len(s.items):
        return SLit(s.elem, s.items[off.c:off.c + n.c])
    if isinstance(s, SSlice):
        return mk_slice(s.seq, s.off + off, n)
    if isinstance(s, SConstRep):
        return SConstRep(s.elem, s.val, n)
    if isinstance(s, SCat):
        # drop whole leading parts, split the first one, take parts until n is covered
        nn = lambda d: interval(d)[0] >= 0
        o = off
        ps = list(s.parts)
        while ps and nn(o - ps[0].len):
            o = o - ps[0].len
            ps.pop(0)
        if not ps:
            return SSlice(s.elem, s, off, n)
        rest = len(ps) < len(s.parts)
        if o != Lin(0):
            p = ps[0]
            if nn(o) and nn(p.len - o - n):
                return mk_slice(p, o, n)
            if isinstance(p, SLit) and nn(o) and nn(p.len - o):
                ps[0] = mk_slice(p, o, p.len - o)
                o = Lin(0)
                rest = True
        if o == Lin(0):
            acc, left = [], n
            for p in ps:
                if nn(p.len - left):
                    acc.append(mk_slice(p, Lin(0), left))
                    return mk_cat(s.elem, acc)
                if not nn(left - p.len):
                    break
                acc.append(p)
                left = left - p.len
        if rest:
            return mk_slice(mk_cat(s.elem, ps), o, n) if len(ps) > 1 else SSlice(s.elem, ps[0], o, n)
    return SSlice(s.elem, s, off, n)


# -- float terms
def fconst(x, bits):
    import struct
    if x != x:
        return mk(("fnan", bits), "f")
    return mk(("fconst", x, bits), "f")


def fop(op, *a):
    return mk((op,) + a, "f")
