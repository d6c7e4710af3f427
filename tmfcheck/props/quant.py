"""C10: the decoder is the inverse of the encoder, component by component.

For every quantised attribute the whole write -> read pipeline is evaluated abstractly; the result
is, for every position, a closed term giving the decoded component as a function of the encoded
element, the fold summaries (bounding box) and the bit widths. Over the reals, with the rounding to
the stored grid taken as the identity, that function must be the identity on the component, and every
packed number must fit its width. Both are decided by identity testing at random points."""
from .meshlib import *
from .. import feval
from ..feval import Point, NoValue, NAN
import math
import random

FLOATS = ("vertices", "normals", "uvs", "tangents")


def elem_path(a):
    """(data atom, position, component path) of an atom that projects an element of the mesh data"""
    path = []
    while isinstance(a, Atom) and a.key[0] == "fld":
        path.append(a.key[-1])
        a = a.key[1]
    if isinstance(a, Sym):
        a = a.base
    k = a.key if isinstance(a, Atom) else a if isinstance(a, tuple) else None
    if k and k[0] == "el":
        return k[1], k[2], tuple(reversed(path))
    return None


class Folds:
    """fold summaries classified as minimum or maximum of one component over all elements"""

    def __init__(self, e, facts, n_elems):
        self.e = e
        self.f = facts
        self.len = n_elems
        self.memo = {}

    def classify(self, h):
        if h not in self.memo:
            try:
                self.memo[h] = self._classify(h)
            except (KeyError, IndexError, TypeError, AttributeError):
                self.memo[h] = None
        return self.memo[h]

    def _classify(self, h):
        """('min'/'max', component path), ('bad', why) or None"""
        init, alts, n = self.e.hinfo[h]
        comp = kind = None
        idx = None
        for gs, v in alts:
            r = self._step(h, gs, v)
            if r is None:
                return None
            k, x = r
            if x is None:
                continue              # unchanged under a guard checked together with the others
            p = elem_path(x)
            if p is None:
                return None
            if kind not in (None, k) or (comp is not None and comp != p):
                return None
            kind, comp = k, p
        if kind is None:
            return None
        data, idx, path = comp
        # every alternative that keeps the accumulator must be justified
        for gs, v in alts:
            if v == h and not self._keeps(h, gs, kind, x_atom(comp, alts, h)):
                return None
        # coverage of the elements
        off = idx - L(n) if isinstance(idx, Lin) else L(idx) - L(n)
        if not off.is_const():
            return None
        last = self.f.norm(L(n)) + off - 1
        ip = elem_path(init)
        first = off.c
        if ip is not None:
            if ip[2] != path:
                return ("bad", f"starts from component {ip[2]} and continues with component {path}")
            if ip[1] == Lin(0):
                first = min(first, 0) if first <= 1 else first
            elif first > 0:
                return None
        else:
            c = const_of(init)
            if c is None:
                return None
            if kind == "min" and c < 3e38 or kind == "max" and c > -3e38:
                return ("bad", f"the {kind} starts from the constant {c:g}")
        if first > 0:
            return ("bad", f"elements before number {first} are not looked at")
        if self.f.decide(eq(last, self.len - 1)) is not True:
            if self.f.decide(eq(last, self.len - 1)) is False:
                return ("bad", "the last elements are not looked at")
            return None
        return (kind, path)

    def _step(self, h, gs, v):
        if v == h:
            return ("keep", None)
        if isinstance(v, Atom) and v.key[0] in ("fmin", "fmax"):
            x, y = v.key[1], v.key[2]
            o = y if x == h else x if y == h else None
            if o is None:
                return None
            return ("min" if v.key[0] == "fmin" else "max", o)
        # guarded replacement
        for g in gs:
            if g.op == "lit" and isinstance(g.x[0], Atom) and g.x[0].key[0] in ("flt", "fle"):
                a, b = g.x[0].key[1], g.x[0].key[2]
                pol = g.x[1]
                if a == v and b == h:
                    return ("min" if pol else "max", v)
                if a == h and b == v:
                    return ("max" if pol else "min", v)
        return None

    def _keeps(self, h, gs, kind, x):
        for g in gs:
            if g.op == "lit" and isinstance(g.x[0], Atom) and g.x[0].key[0] in ("flt", "fle"):
                a, b = g.x[0].key[1], g.x[0].key[2]
                pol = g.x[1]
                if (a, b) == (x, h):
                    if (kind == "min") != pol:
                        return True
                if (a, b) == (h, x):
                    if (kind == "min") == pol:
                        return True
        return False


def x_atom(comp, alts, h):
    for gs, v in alts:
        if v != h:
            if isinstance(v, Atom) and v.key[0] in ("fmin", "fmax"):
                return v.key[2] if v.key[1] == h else v.key[1]
            return v
    return None


def const_of(x):
    if isinstance(x, Atom) and x.key[0] == "fconst":
        return float(x.key[1])
    if isinstance(x, Const):
        try:
            return float(x.what)
        except (TypeError, ValueError):
            return None
    return None


class Bad(Exception):
    pass


def make_leaf(kind, folds, facts):
    """values of the leaves of the extracted terms at a random point"""

    def box(p, path):
        k = ("box", path)
        b = p.memo.get(k)
        if b is None:
            if kind == "unit":
                b = (0.0, 1.0)
            else:
                lo = p.rnd.uniform(-50, 50)
                b = (lo, lo + p.rnd.choice((0.5, 3.0, 40.0)))
            p.memo[k] = b
        return b

    def element(p, data, idx, path):
        k = ("elem", data, idx)
        v = p.memo.get(k)
        if v is None:
            if kind in ("normal", "tangent"):
                t = p.rnd.uniform(0, 2 * math.pi)
                z = p.rnd.uniform(-0.98, 0.98)
                r = math.sqrt(1 - z * z)
                xyz = [r * math.cos(t), r * math.sin(t), z]
                if p.rnd.random() < 0.2:
                    xyz = [0.0, 0.0, p.rnd.choice((-1.0, 1.0))]
                p.rnd.shuffle(xyz)
                v = {(i,): c for i, c in enumerate(xyz)}
                if kind == "tangent":
                    v = {(0, i): c for i, c in enumerate(xyz)}
                    v[(1,)] = p.rnd.choice((-1.0, 1.0))
            else:
                v = {}
            p.memo[k] = v
        if path not in v:
            if kind in ("normal", "tangent"):
                raise NoValue(f"component {path}")
            lo, hi = box(p, path)
            v[path] = p.rnd.choice((lo, hi, None, None, None, None))
            if v[path] is None:
                v[path] = p.rnd.uniform(lo, hi)
        return v[path]

    def leaf(p, a):
        k = a.key
        if a in facts.eqmap:
            return p.ev(facts.eqmap[a])
        if k[0] == "pow2":
            b = facts.norm(k[1])
            if b.is_const():
                return 2.0 ** b.c
            kk = ("width", b)
            if kk not in p.memo:
                p.memo[kk] = float(p.rnd.randint(6, 18))
            return 2.0 ** p.memo[kk]
        if a in folds.e.hinfo:
            c = folds.classify(a)
            if c is None:
                raise NoValue("fold " + repr(a)[:40])
            if c[0] == "bad":
                raise Bad(c[1])
            lo, hi = box(p, c[1])
            return lo if c[0] == "min" else hi
        ep = elem_path(a)
        if ep is not None:
            return element(p, *ep)
        return None
    return leaf


def fields(e, x):
    """leaves of a (nested) tuple of floats: [(component path, term)]"""
    if isinstance(x, Sym):
        y = e.expand(x)
        if isinstance(y, Sym):
            return [((), y)]
        x = y
    if isinstance(x, Agg):
        out = []
        for i, f in enumerate(x.fields):
            out += [((i,) + p, t) for p, t in fields(e, f)]
        return out
    return [((), x)]


def bit_items(s):
    """(width, value) of everything packed into a body, with the guards"""
    if isinstance(s, SCat):
        for p in s.parts:
            yield from bit_items(p)
    elif isinstance(s, SRep):
        for g, p in s.alts:
            for gs, m, v in bit_items(p):
                yield tuple(g) + gs, m, v
    elif isinstance(s, SLit):
        for x in s.items:
            if isinstance(x, Nat) and x.tag == "bit":
                yield (), x.args[0], x.args[1]
    elif hasattr(s, "items") and isinstance(s.items, Seq):
        yield from bit_items(s.items)


def top_atoms(g):
    if g.op in ("and", "or"):
        return [a for y in g.x for a in top_atoms(y)]
    if g.op == "lit":
        return [g.x[0]]
    return [a for a, _ in g.x.t] if isinstance(g.x, Lin) else []


def relevant(gs):
    """guards about floats (the others concern positions and widths)"""
    out = []
    for g in gs:
        if g in out:
            continue
        if g.op == "lit" or any(a.weak or a.key[0] in ("bits?", "bits", "phi", "b2i") for a in top_atoms(g)):
            out.append(g)
    return out


def compare(out, rule, key, w, f, x, y, guards, leaf):
    """one decoded element against the encoded one"""
    fx, fy = fields(w.e, x), fields(w.e, y)
    if len(fx) != len(fy):
        out.undecided(rule, key, key, f"decoded element has {len(fx)} components, {len(fy)} were encoded")
        return
    for (px, tx), (py, ty) in zip(fx, fy):
        n = f"{key}{''.join('.%d' % i for i in px)}"
        if tx == ty:
            out.good(rule)
            continue
        try:
            r, why = feval.same_function(tx, ty, guards, leaf)
        except Bad as ex:
            out.fail(rule, n, key, f"{n}: the stored bounding box is not the true one: {ex}")
            continue
        if r is True:
            out.good(rule)
        elif r is None:
            out.undecided(rule, n, key, f"{n}: {why}")
        else:
            out.fail(rule, n, key, f"{n}: decoding does not invert encoding: {why}")


def fits(out, rule, key, w, f, body, leaf):
    """packed numbers stay within their width before any clamping"""
    for gs, m, v in bit_items(body):
        a = v.single() if isinstance(v, Lin) else v
        if not (isinstance(a, Atom) and a.key[0] == "f2i"):
            continue
        t = a.key[1]
        top = L(mk(("pow2", f.facts.norm(m)), "i", 1, 1 << 127))
        gs = relevant(gs)
        n = 0
        bad = None
        try:
            for seed in range(2000):
                p = Point(seed, leaf)
                if not all(p.holds(g) for g in gs):
                    continue
                x = p.ev(t)
                lim = p.ev(top) - 1
                if x != x:
                    continue
                n += 1
                if x < -1e-6 * lim or x > lim * (1 + 1e-6):
                    bad = (x, lim)
                    break
                if n >= 24:
                    break
        except NoValue as ex:
            out.undecided(rule, key, key, f"no value for {ex}")
            continue
        except Bad as ex:
            out.fail(rule, key, key, f"{key}: the stored bounding box is not the true one: {ex}")
            continue
        if bad:
            out.fail(rule, key, key, f"{key}: a component inside the bounding box is encoded as {bad[0]:.6g}, outside 0..={bad[1]:.6g}")
        elif n:
            out.good(rule)
        else:
            out.undecided(rule, key, key, "no sample point satisfies the path condition")


def widths_ok(f, body):
    """every width is at least one bit in this state"""
    return not any(f.facts.norm(m).is_const() and f.facts.norm(m).c == 0 for _, m, _ in bit_items(body))


def body_of(data):
    """packed parts of a written file"""
    if isinstance(data, SCat):
        return mk_cat(None, [p for p in data.parts if hasattr(p, "items") and isinstance(p.items, Seq)]) if any(
            hasattr(p, "items") and isinstance(p.items, Seq) for p in data.parts) else SLit(None, ())
    if hasattr(data, "items") and isinstance(data.items, Seq):
        return data
    return SLit(None, ())


def run_pair(w, st, mref, name="mesh"):
    """write then read back -> (state, mesh ref, packed bodies)"""
    for s, res, data in w.write_one(st, mref, w.r.lit(name)):
        if res[0] != "Ok":
            continue
        body = packed_parts(data)
        for s2, r2, m2, rest in w.read_one(s, data):
            if r2[0] == "Ok":
                yield s2, m2, body


def packed_parts(data):
    from ..models import SBits
    if isinstance(data, SBits):
        return [data.items]
    if isinstance(data, SCat):
        return [y for p in data.parts for y in packed_parts(p)]
    return []


def quant_attr(out, C, attr):
    rule = "decode-inverts-encode"
    w = World(C, cap=80)
    st, m = w.start()
    mref = w.r.place(st, "mesh", m)
    d = w.attr_data(attr, lo=1)
    st = w.append(st, mref, attr, d)
    kind = {"uvs": "unit", "normals": "normal", "tangents": "tangent"}.get(attr, "box")
    n = 0
    for s2, m2, body in run_pair(w, st, mref):
        if not all(widths_ok(s2, b) for b in body):
            out.count("zero-width states skipped")
            continue
        got = w.get1(s2, m2, attr)
        if got is None:
            continue
        n += 1
        check_seq(out, rule, attr, w, s2, got, d, body, kind)
    if not n:
        out.undecided(rule, attr, attr, "no path on which the attribute is written and read back")


def check_seq(out, rule, key, w, s2, got, d, body, kind):
    folds = Folds(w.e, s2.facts, d.len)
    leaf = make_leaf(kind, folds, s2.facts)
    if s2.facts.decide(eq(got.len, d.len)) is not True:
        out.undecided(rule, key, key, f"length {got.len!r} instead of {d.len!r}"[:120])
        return
    for f, p, x, gs in cells(s2, w.e, got):
        if not all(widths_ok(f, b) for b in body):
            out.count("zero-width cells skipped")
            continue
        compare(out, rule, key, w, f, x, w.e.index(f, d, p), relevant(gs), leaf)
    for b in body:
        fits(out, "packed-number-fits", key, w, s2, b, leaf)


def quant_custom(out, C, ckind):
    rule = "decode-inverts-encode"
    w = World(C, cap=80)
    st, m = w.start()
    mref = w.r.place(st, "mesh", m)
    sts, d = w.custom(st, ckind, lo=1)
    n = 0
    for s, okk in [x for st, v in sts for x in w.add_custom(st, mref, v, w.r.lit("data"))]:
        if okk != "Ok":
            continue
        for s2, m2, body in run_pair(w, s, mref):
            if not all(widths_ok(s2, b) for b in body):
                continue
            for s3, g in w.lookup(s2, m2, w.r.lit("data")):
                if not isinstance(g, Agg):
                    continue
                got = g.fields[0]
                while isinstance(got, Ref):
                    got = w.e.deref(s3, got)
                n += 1
                check_seq(out, rule, "custom." + ckind, w, s3, got, d, body, {"color": "unit"}.get(ckind, "box"))
    if not n:
        out.undecided(rule, ckind, ckind, "no path on which the custom data is written and read back")


def c10(tier):
    t = []
    for a in ("vertices", "uvs"):
        t.append(Task("decode." + a, quant_attr, a, weight=2))
    for a in ("normals", "tangents"):
        t.append(Task("decode." + a, quant_attr, a, cfg=("default",), weight=3))
    for k in ("float", "color"):
        t.append(Task("decode.custom." + k, quant_custom, k, weight=2))
    return t
