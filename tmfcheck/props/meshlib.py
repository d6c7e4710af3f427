"""Abstract meshes built and observed only through the public API of the crate."""
from ..base import *

# attribute -> segment code of the file format
ATTRS = {"vertices": 1, "vertex_triangles": 2, "normals": 3, "normal_triangles": 4, "uvs": 5, "uv_triangles": 6,
         "tangents": 9, "tangent_triangles": 10}
CUSTOM = {"index": 15, "float": 16, "color": 23, "intiger": 24}
TRIS = ("vertex_triangles", "normal_triangles", "uv_triangles", "tangent_triangles")
MAXN = 1 << 24


class World:
    """a run, a state and a mesh in it"""

    def __init__(self, C, **kw):
        kw.setdefault("base_case", True)
        self.C = C
        self.r = Run(C, **kw)
        self.e = self.r.e
        self.data = {}

    def start(self):
        st = self.r.state()
        (st, m), = self.r.call("TMFMesh::empty", [], st)
        self.meshty = m.ty
        return st, m

    def elem_ty(self, path, arg=1):
        """element type of the slice argument of a method"""
        b = self.C.body(self.r.inst(path))
        t = b.locals[arg + 1]
        return self.C.elem_of(self.C.types[t]["to"]) if self.C.types[t]["k"] == "ref" else self.C.elem_of(t)

    def seq(self, elem, name, lo=0, hi=MAXN):
        a = mk(("in", name), "o")
        return SSym(elem, a, L(mk(("len", a), "i", lo, hi)))

    def slice_of(self, st, name, seq):
        d = self.r.place(st, name, seq)
        return Ref(d.loc, (), (Lin(0), seq.len))

    def attr_data(self, attr, name=None, lo=0, hi=MAXN):
        return self.seq(self.elem_ty("TMFMesh::append_" + attr), name or attr, lo, hi)

    def append(self, st, mref, attr, data, tag="data"):
        a = self.slice_of(st, f"{tag}.{attr}", data)
        outs = self.r.call("TMFMesh::append_" + attr, [mref, a], st)
        if len(outs) != 1:
            raise Undecided(f"append_{attr}: {len(outs)} outcomes")
        return outs[0][0]

    def custom(self, st, kind, name="", lo=0, hi=MAXN):
        """CustomData values of the given kind with symbolic contents -> [(state, value)], data"""
        t = {"index": "&[u32]", "intiger": "&[u32]", "float": "&[f32]", "color": "&[(f32, f32, f32, f32)]"}[kind]
        p = f"<custom_data::CustomData as core::convert::From<{t}>>::from"
        b = self.C.body(self.r.inst(p))
        el = self.C.elem_of(self.C.types[b.locals[1]]["to"])
        data = self.seq(el, "custom." + kind + name, lo, hi)
        ref = self.slice_of(st, "custom." + kind + name, data)
        out = []
        for st, v in self.r.call(p, [ref], st):
            if kind == "intiger":
                v = Agg(v.ty, self.e.vindex(v.ty, "CustomIntiger"), v.fields)
            out.append((st, v))
        return out, data

    def add_custom(self, st, mref, value, name):
        """-> [(state, 'Ok'/'Err')]"""
        nm = self.slice_of(st, "cname", name)
        return [(s, self.r.vname(v)) for s, v in self.r.call("TMFMesh::add_custom_data", [mref, value, nm], st)]

    def get(self, st, mref, attr):
        """sequence of an attribute, None when absent; -> [(state, seq or None)]"""
        out = []
        for s, v in self.r.call("TMFMesh::get_" + attr, [mref], st):
            out.append((s, self.opt_seq(s, v)))
        return out

    def get1(self, st, mref, attr):
        o = self.get(st, mref, attr)
        if len(o) != 1:
            raise Undecided(f"get_{attr}: {len(o)} outcomes")
        return o[0][1]

    def opt_seq(self, st, v):
        n = self.r.vname(v)
        if n == "None":
            return None
        if n == "Some":
            x = v.fields[0]
            while isinstance(x, Ref):
                x = self.e.deref(st, x)
            return x
        if isinstance(v, Sym):
            d = self.e.discr(v)
            for i, x in enumerate(self.e.variants(v.ty)):
                if st.facts.settle(eq(d, Lin(int(x["discr"])))) is True:
                    return None if x["name"] == "None" else self.e.field(v, 0, i)
        raise Undecided(f"undetermined option {v!r}"[:120])

    def lookup(self, st, mref, name):
        nm = self.slice_of(st, "lname", name)
        out = []
        for s, v in self.r.call("TMFMesh::lookup_custom_data", [mref, nm], st):
            n = self.r.vname(v)
            if n == "None":
                out.append((s, None))
            elif n == "Some":
                out.append((s, self.e.deref(s, v.fields[0])))
            else:
                out.append((s, "?"))
        return out

    # ---- writing and reading
    def prec(self, st):
        t = None
        b = self.C.body(self.r.inst("TMFMesh::write_tmf_one"))
        for k in range(b.argc):
            x = self.C.types[b.locals[k + 1]]
            if x["k"] == "ref" and self.C.types[x["to"]].get("path", "").endswith("TMFPrecisionInfo"):
                t = x["to"]
        return self.r.place(st, "prec", self.e.symval(t, ("in", "prec")))

    def write_one(self, st, mref, name, entry=None):
        """write to an empty Vec -> [(state, result, bytes)]"""
        out = self.r.place(st, "out", SLit(self.r.u8, []))
        pr = self.prec(st)
        nref = self.slice_of(st, "name", name)
        i = entry if entry is not None else self.vec_writer()
        res = []
        for s, v in self.r.e.analyse(i, args=[mref, out, pr, nref], st=st):
            res.append((s, self.r.result(s, v), self.e.deref(s, out)))
        return res

    def vec_writer(self):
        """the instance of write_tmf_one over Vec<u8>"""
        return self.find("TMFMesh::write_tmf_one", lambda a: "Vec" in a)

    def find(self, path, pred):
        c = [k for k, x in enumerate(self.C.insts) if x and x["path"] == path and x.get("body")]
        for k in c:
            b = self.C.body(k)
            s = " ".join(self.C.txt(b.locals[j + 1]) for j in range(b.argc))
            if pred(s):
                return k
        if c:
            return c[0]
        raise KeyError(path)

    def read_one(self, st, data, tag="src2"):
        """-> [(state, result, mesh ref or None, remaining length)]"""
        src = self.r.slice_reader(st, data, tag)
        out = []
        for s, v in self.r.call("TMFMesh::read_tmf_one", [src], st):
            res = self.r.result(s, v)
            m = None
            if res[0] == "Ok":
                m = self.r.place(s, "mesh." + tag, res[1].fields[0])
            x = self.e.deref(s, src)
            rest = x.rng[1] if isinstance(x, Ref) and x.rng else None
            out.append((s, res, m, rest))
        return out


# ------------------------------------------------------------------ element-wise view of sequences
def cells(st, e, s, pos=None, guards=()):
    """cover a sequence by cells: yields (state, position, element, guards). Positions range over all
    indices of the sequence; the state of each cell carries what is known about its position."""
    pos = Lin(0) if pos is None else pos
    if isinstance(s, SLit):
        for i, x in enumerate(s.items):
            yield st, pos + i, x, guards
        return
    if isinstance(s, SCat):
        o = pos
        for p in s.parts:
            yield from cells(st, e, p, o, guards)
            o = o + p.len
        return
    if isinstance(s, SRep):
        u = s.unit()
        if u is None:
            raise Undecided("a repetition of varying width")
        q = mk(("cell", s.k), "i", 0, 1 << 62)
        f = st.fork()
        f.facts.assume(lt(L(q), s.count))
        if f.facts.bad:
            return
        sb = Subst({s.k: L(q)})
        for g, piece in s.alts:
            f2 = f.fork()
            gs = tuple(sb(x) for x in g)
            for x in gs:
                f2.facts.assume(x)
            if f2.facts.bad:
                continue
            yield from cells(f2, e, sb(piece), pos + L(q).scale(u), guards + gs)
        return
    n = s.len
    if st.facts.settle(le(n, Lin(0))) is True:
        return
    q = mk(("cell", id_of(s)), "i", 0, 1 << 62)
    f = st.fork()
    f.facts.assume(lt(L(q), n))
    if f.facts.bad:
        return
    yield f, pos + L(q), e.index(f, s, L(q)), guards


def id_of(s):
    return ("seq", s)


def same_elements(st, e, s, data):
    """is every element of s the element of data at the same position? True / None / (False, why)"""
    for other in equal_seqs(st, data):
        if same_elements1(st, e, s, other)[0] is True:
            return True, ""
    return same_elements1(st, e, s, data)


def equal_seqs(st, data):
    """sequences the path condition says are equal to data"""
    pairs = [a.key[1:] for a, v in st.facts.lits.items() if v and a.key[0] == "seqeq"]
    out = [data]
    for x in out:
        for p, q in pairs:
            for y, z in ((p, q), (q, p)):
                if y == x and z not in out:
                    out.append(z)
    return out[1:]


def length_is(st, s, n):
    """does a sequence have n elements? An element appended in some iterations only (or twice in some)
    makes the lengths differ"""
    d = st.facts.settle(eq(s.len, n))
    if d is not None or not isinstance(s, SRep) or s.unit() is not None:
        return d
    if st.facts.settle(eq(s.count, n)) is not True or len(s.alts) < 2:
        return d
    seen = set()
    for g, piece in s.alts:
        f = st.fork()
        q = mk(("cell", s.k), "i", 0, 1 << 62)
        f.facts.assume(lt(L(q), s.count))
        sb = Subst({s.k: L(q)})
        for x in g:
            f.facts.assume(sb(x))
        if not g or f.facts.bad or f.facts.refuted():
            continue
        ln = sb(piece).len
        one = f.facts.decide(eq(ln, Lin(1)))
        few = f.facts.decide(le(ln, Lin(0)))
        seen.add(1 if one else 0 if few else 2 if f.facts.decide(le(Lin(2), ln)) else None)
    if None not in seen and len(seen) > 1 and (max(seen) == 1 or min(seen) == 1):
        return False
    return d


def same_elements1(st, e, s, data):
    d = length_is(st, s, data.len)
    if d is not True:
        return (False if d is False else None), f"length {s.len!r} instead of {data.len!r}"[:160]
    for f, p, x, _ in cells(st, e, s):
        y = e.index(f, data, p)
        g = same_value(f, e, x, y)
        if g is not True:
            return g, f"element {f.facts.norm(p)!r} is {norm_value(f, x)!r} instead of {norm_value(f, y)!r}"[:300]
    return True, ""


def norm_value(f, x):
    return f.facts.norm(x) if isinstance(x, Lin) else x


def same_value(f, e, x, y):
    if x == y:
        return True
    if isinstance(x, Lin) and isinstance(y, Lin):
        d = f.facts.settle(eq(x, y))
        if d is None and congruent(f, x, y):
            return True
        if d is None:
            # a difference of input elements nothing on this path makes zero
            l = f.facts.norm(x - y)
            if all(a.key[0] == "el" for a, _ in l.t) and not any(a.weak for a in l.deps) and not f.facts.lossy_for(l.deps):
                return False
        return d
    if isinstance(x, Sym):
        x = e.expand(x)
    if isinstance(y, Sym):
        y = e.expand(y)
    if isinstance(x, Agg) and isinstance(y, Agg) and len(x.fields) == len(y.fields):
        if x.variant != y.variant:
            return False
        r = True
        for a, b in zip(x.fields, y.fields):
            d = same_value(f, e, a, b)
            if d is False:
                return False
            if d is None:
                r = None
        return r
    if isinstance(x, Seq) and isinstance(y, Seq):
        return same_elements(f, e, x, y)[0]
    if isinstance(x, Const) or isinstance(y, Const):
        return False
    if isinstance(x, Atom) and isinstance(y, Atom):
        # two opaque floats: different terms are different unless a join hides them
        return None if weak_in(x) or weak_in(y) else False
    return None


def congruent(f, x, y):
    """elements of one sequence at positions that are equal under the facts"""
    a, b = f.facts.norm(x).single(), f.facts.norm(y).single()
    return (isinstance(a, Atom) and isinstance(b, Atom) and a.key[0] == "el" == b.key[0] and a.key[1] == b.key[1]
            and f.facts.settle(eq(a.key[2], b.key[2])) is True)


def weak_in(x):
    return any(a.weak for a in term_deps(x)) or (isinstance(x, Atom) and x.weak)
