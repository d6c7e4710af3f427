"""Interprocedural abstract interpreter over the dumped MIR.

Functions are analysed in their calling context; control flow joins merge abstract states (with
trace partitioning on variants up to a cap), loops are summarised by an inductive fixpoint over
their modified leaves (affine induction variables, bounded leaves, appended-sequence
comprehensions), library functions have abstract transformers (models.py).
"""
from .terms import *
from .values import *
from . import mir as M

STICKY = (("g", "ioerr"), ("g", "short"), ("g", "dirty"))


class Undecided(Exception):
    pass


UNMODELLED = {}     # calls without a model met since the table was last cleared


class State:
    __slots__ = ("mem", "facts", "ctx", "_own")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.ctx = ()
        self._own = True

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ctx = self.ctx
        s._own = True
        return s

    def bad(self):
        return self.facts.bad

    def get(self, loc, default=None):
        return self.mem.get(loc, default)


class Obl:
    """one obligation instance"""
    __slots__ = ("kind", "fn", "loc", "status", "goal", "chain", "note", "weak", "facts", "key")

    def __repr__(self):
        return f"{self.status} {self.kind} {self.fn} {self.loc} goal={self.goal!r} note={self.note}"


class Frame:
    __slots__ = ("inst", "body", "fid", "name", "chain")


class Engine:
    def __init__(self, crate, **opt):
        self.C = crate
        self.T = crate.types
        self.opt = opt
        self.fids = {}
        self.finfo = []
        self.obls = []
        self.record = True
        self.events = []
        self.stack = []
        self.meas = []
        self.dropped = []
        self.hinfo = {}
        self.unmodelled = {}
        self.called = {}
        self.cap = opt.get("cap", 24)
        self.keep_foralls = opt.get("keep_foralls", False)
        self.maxpass = 8
        self.trace = opt.get("trace", False)
        self.steps = 0
        self.cuts = {}          # path -> handler(engine, st, fr, f, args, dt, site)
        self.hooks_exit = {}
        self.param_hooks = {}
        self._u8 = crate.u8()
        self._disc = {}
        self.loopinfo = {}
        self.maxsteps = opt.get("maxsteps", 4000000)
        from . import models
        self.models = models
        self.declined = {}

    # ------------------------------------------------------------ naming
    def fid(self, parent, site, inst):
        k = (parent, site, inst)
        r = self.fids.get(k)
        if r is None:
            r = len(self.finfo)
            self.fids[k] = r
            self.finfo.append(k)
        return r

    def chain(self, fr):
        return fr.chain

    def fresh(self, st, site, tag, sort="i", lo=-INF, hi=INF, weak=False, ty=None):
        return mk((tag, site, st.ctx), sort, lo, hi, None, weak, ty)

    # ------------------------------------------------------------ types & symbolic values
    def tk(self, t):
        return self.T[t]["k"]

    def tt(self, t):
        return self.T[t]["txt"] if t is not None else "?"

    def symval(self, t, key, weak=False, st=None):
        """symbolic value of type t named by key (a tuple starting with a tag)"""
        x = self.T[t]
        k = x["k"]
        if k == "int":
            lo, hi = self.C.int_range(t)
            return L(mk(key, "i", lo, hi, None, weak))
        if k == "bool":
            return lit(mk(key, "b", weak=weak))
        if k == "char":
            return L(mk(key, "i", 0, 0x10FFFF, None, weak))
        if k == "float":
            return mk(key, "f", weak=weak, ty=x["bits"])
        if k in ("ref", "ptr"):
            a = mk(key, "o", weak=weak)
            return Ref(("m", a, x["to"]), ())
        if k == "tuple":
            if not x["of"]:
                return UNIT
            return Sym(t, mk(key, "o", weak=weak))
        if k == "never":
            return Sym(t, mk(key, "o", weak=weak))
        el = self.C.elem_of(t)
        if el is not None:
            a = mk(key, "o", weak=weak)
            if k == "array":
                if isinstance(x["len"], int):
                    return SSym(el, a, Lin(x["len"]))
                return SSym(el, a, L(mk(("alen", self.tt(t)), "i", 0, (1 << 60) - 1)))
            sz = self.C.size(el) or 1
            return SSym(el, a, L(mk(("len", a), "i", 0, ((1 << 63) - 1) // max(1, sz))))
        if k == "adt" and x.get("box"):
            return self.symval(self.C.args(x)[0], key, weak)
        if k == "fndef":
            return FnV(t)
        if k == "closure":
            return Agg(t, 0, [self.symval(u, key + (("up", i),), weak) for i, u in enumerate(x["upvars"])])
        return Sym(t, mk(key, "o", weak=weak))

    def unknown(self, st, t, site, tag="?"):
        return self.symval(t, (tag, site, st.ctx), weak=True)

    def variants(self, t):
        return self.T[t].get("variants")

    def discr_of(self, t, variant):
        vs = self.variants(t)
        return int(vs[variant]["discr"])

    def domain(self, t):
        d = self._disc.get(t)
        if d is None:
            vs = self.variants(t)
            d = None
            if vs:
                d = tuple(int(v["discr"]) for v in vs)
            self._disc[t] = d
        return d

    def discr(self, v):
        """discriminant value of an enum value"""
        if isinstance(v, Agg):
            if v.ty is not None and self.variants(v.ty):
                return Lin(self.discr_of(v.ty, v.variant))
            return Lin(v.variant)
        if isinstance(v, Sym):
            dom = self.domain(v.ty)
            if not dom:
                return L(mk(("discr", v.base), "i", 0, 1 << 64))
            return L(mk(("discr", v.base), "i", min(dom), max(dom), dom))
        raise Undecided(f"discr of {v!r}")

    def field_ty(self, t, variant, i):
        x = self.T[t]
        if x["k"] == "tuple":
            return x["of"][i]
        if x["k"] in ("closure", "coroutine"):
            return x["upvars"][i]
        vs = x.get("variants")
        if vs:
            return vs[variant]["fields"][i]["ty"]
        return None

    def nfields(self, t, variant):
        x = self.T[t]
        if x["k"] == "tuple":
            return len(x["of"])
        if x["k"] in ("closure", "coroutine"):
            return len(x["upvars"])
        vs = x.get("variants")
        if vs:
            return len(vs[variant]["fields"])
        return None

    def field(self, v, i, variant=0, fty=None):
        if isinstance(v, Agg):
            if i < len(v.fields) and (v.variant == variant or variant is None):
                return v.fields[i]
            return UNINIT
        if isinstance(v, Sym):
            t = self.field_ty(v.ty, variant or 0, i)
            if t is None:
                t = fty
            if t is None:
                return UNINIT
            return self.symval(t, ("fld", v.base, variant or 0, i))
        if v is MOVED or v is UNINIT:
            return UNINIT
        if isinstance(v, Nat) and v.tag == "moved_part":
            return UNINIT
        if isinstance(v, Nat) and v.tag == "box":
            return v
        if isinstance(v, Seq):
            return v
        return UNINIT

    def expand(self, v, variant=0):
        if isinstance(v, Sym):
            n = self.nfields(v.ty, variant or 0)
            if n is None:
                return v
            return Agg(v.ty, variant or 0, [self.field(v, i, variant or 0) for i in range(n)])
        return v

    def enum(self, t, name, *fields):
        for i, v in enumerate(self.variants(t)):
            if v["name"] == name:
                return Agg(t, i, fields)
        raise KeyError(f"{name} in {self.tt(t)}")

    def variant_is(self, v, name):
        """formula: enum value v has the named variant"""
        if isinstance(v, Agg):
            if v.ty is None:
                return FALSE
            return TRUE if self.variants(v.ty)[v.variant]["name"] == name else FALSE
        if isinstance(v, Sym):
            for i, q in enumerate(self.variants(v.ty)):
                if q["name"] == name:
                    return eq(self.discr(v), Lin(int(q["discr"])))
        return FALSE

    def vindex(self, t, name):
        for i, v in enumerate(self.variants(t)):
            if v["name"] == name:
                return i
        raise KeyError(name)

    # ------------------------------------------------------------ sequences
    def index(self, st, s, i, depth=0):
        """element i of sequence s (value)"""
        if not isinstance(s, Seq):
            return UNINIT
        i = st.facts.norm(i)
        if isinstance(s, SLit):
            if i.is_const() and 0 <= i.c < len(s.items):
                return s.items[i.c]
            if s.items and all(x == s.items[0] for x in s.items):
                return s.items[0]
            v = self._sel(s, i)
            if isinstance(v, Lin) and 2 <= len(s.items) <= 16 and all(isinstance(x, Lin) for x in s.items) and not v.is_const():
                # one of the items, whichever position it is
                if st.facts.decide(band(le(Lin(0), i), lt(i, Lin(len(s.items))))) is True:
                    vs = list(dict.fromkeys(s.items))
                    st.facts.assume(bor(*[eq(v, x) for x in vs]))
                    if all(x.is_const() for x in vs):
                        st.facts.assume(le(Lin(min(x.c for x in vs)), v))
                        st.facts.assume(le(v, Lin(max(x.c for x in vs))))
            return v
        if isinstance(s, SSym):
            r = self.symval(s.elem, ("el", s.base, i)) if s.elem is not None else UNINIT
            self.instantiate(st, s, i)
            return r
        if isinstance(s, SConstRep):
            return s.val
        if isinstance(s, SSlice):
            return self.index(st, s.seq, s.off + i, depth + 1)
        if isinstance(s, SLe):
            if s.n == 1:
                return s.val if isinstance(s.val, Lin) else self._sel(s, i)
            if i.is_const() and isinstance(s.val, Lin) and s.order == "le" and interval(s.val)[0] >= 0:
                return mk_rem(mk_div(s.val, Lin(1 << (8 * i.c))), Lin(256))
            return self._sel(s, i)
        if isinstance(s, SUpd):
            d = st.facts.decide(eq(i, s.idx))
            if d is True:
                return s.val
            if d is False:
                return self.index(st, s.seq, i, depth + 1)
            return self._sel(s, i)
        if isinstance(s, SCat):
            o = i
            for p in s.parts:
                inside = st.facts.decide(lt(o, p.len))
                if inside is True:
                    if st.facts.decide(le(Lin(0), o)) is not False:
                        return self.index(st, p, o, depth + 1)
                    return self._sel(s, i)
                if inside is None:
                    return self._sel(s, i)
                o = o - p.len
            return self._sel(s, i)
        if isinstance(s, SRep):
            u = s.unit()
            if u is not None and u > 0 and len(s.alts) == 1:
                q, r = self.divmod_const(st, i, u)
                if q is not None:
                    piece = Subst({s.k: q})(s.alts[0][1])
                    for g in Subst({s.k: q})(s.alts[0][0]):
                        st.facts.assume(g)
                    return self.index(st, piece, r, depth + 1)
            if u == 1 and s.elem is not None and all(isinstance(p, SLit) and len(p.items) == 1 for _, p in s.alts):
                sb = Subst({s.k: i})
                return self._common([sb(p.items[0]) for _, p in s.alts], s.elem, ("sel", s, i))
            return self._sel(s, i)
        return self._sel(s, i)

    def index_cases(self, st, s, i):
        """element i of sequence s, one case per alternative of the repetition it lies in"""
        i = st.facts.norm(i)
        if isinstance(s, SCat):
            o = i
            for p in s.parts:
                if st.facts.decide(lt(o, p.len)) is not True:
                    break
                if st.facts.decide(le(Lin(0), o)) is not True:
                    break
                return self.index_cases(st, p, o)
        if isinstance(s, SRep) and 1 < len(s.alts) <= 64:
            u = s.unit()
            if u:
                q, r = self.divmod_const(st, i, u)
                if q is not None:
                    sb = Subst({s.k: q})
                    out = []
                    for gs, piece in s.alts:
                        f = st.fork()
                        for g in gs:
                            f.facts.assume(sb(g))
                        if not f.facts.bad:
                            out += self.index_cases(f, sb(piece), r)
                    return out
        return [(st, self.index(st, s, i))]

    def _common(self, vs, t, key):
        """value known to be one of vs: the structure they share, with symbolic leaves"""
        v = vs[0]
        if all(x == v for x in vs[1:]):
            return v
        if isinstance(v, Agg) and all(isinstance(x, Agg) and x.ty == v.ty and x.variant == v.variant and len(x.fields) == len(v.fields) for x in vs):
            if v.ty is not None and v.ty == t:
                return Agg(v.ty, v.variant, tuple(self._common([x.fields[j] for x in vs], self.field_ty(v.ty, v.variant, j), key + (v.variant, j))
                                                  for j in range(len(v.fields))))
        return self.symval(t, key)

    def divmod_const(self, st, i, u):
        if u == 1:
            return i, Lin(0)
        q = []
        for a, k in i.t:
            if k % u:
                return None, None
            q.append((a, k // u))
        c, r = divmod(i.c, u)
        return Lin(c, tuple(q)), Lin(r)

    def _sel(self, s, i):
        if s.elem is None:
            return UNINIT
        return self.symval(s.elem, ("sel", s, i), weak=isinstance(s, SFun) and s.name == "sorted")

    def instantiate(self, st, s, i):
        f = st.facts
        if not f.foralls:
            return
        for fa in f.foralls:
            if s.base not in fa.bases:
                continue
            off = fa.bases[s.base]
            inst = i - off
            key = ("inst", fa, inst)
            if key in f.log:
                continue
            if f.decide(band(le(fa.lo, inst), lt(inst, fa.hi))) is True:
                f.log = f.log + (key,)
                sb = Subst({fa.bv: inst})
                alts = [band(*sb(tuple(a))) for a in fa.alts]
                f.assume(bor(*alts))

    # ------------------------------------------------------------ memory
    def load(self, st, loc):
        v = st.mem.get(loc)
        if v is None:
            if loc[0] == "m":
                return self.symval(loc[2], ("deref", loc[1]))
            if loc[0] == "k":
                return loc[1]
            return UNINIT
        return v

    def read(self, st, loc, path=(), rng=None):
        v = self.load(st, loc)
        for e in path:
            if e[0] == "f":
                v = self.field(v, e[1], e[2], e[3])
            else:
                v = self.index(st, v, e[1])
        if rng is not None and isinstance(v, Seq):
            v = mk_slice(v, rng[0], rng[1])
        return v

    def setp(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            if isinstance(v, Sym):
                v = self.expand(v, e[2])
            if isinstance(v, Agg):
                if e[1] < len(v.fields):
                    return v.with_field(e[1], self.setp(st, v.fields[e[1]], path[1:], new))
                fs = list(v.fields) + [UNINIT] * (e[1] + 1 - len(v.fields))
                fs[e[1]] = self.setp(st, UNINIT, path[1:], new)
                return Agg(v.ty, v.variant, fs)
            if v is UNINIT or v is MOVED:
                fs = [UNINIT] * (e[1] + 1)
                fs[e[1]] = self.setp(st, UNINIT, path[1:], new)
                return Agg(None, e[2] or 0, fs)
            return v
        i = e[1]
        if isinstance(v, Seq):
            if len(path) > 1:
                new = self.setp(st, self.index(st, v, i), path[1:], new)
            return self.upd(st, v, i, new)
        return v

    def upd(self, st, s, i, new):
        i = st.facts.norm(i)
        if isinstance(s, SLit) and i.is_const() and 0 <= i.c < len(s.items):
            it = list(s.items)
            it[i.c] = new
            return SLit(s.elem, it)
        if isinstance(s, SCat):
            o = i
            for n, p in enumerate(s.parts):
                d = st.facts.decide(lt(o, p.len))
                if d is True:
                    return mk_cat(s.elem, s.parts[:n] + (self.upd(st, p, o, new),) + s.parts[n + 1:])
                if d is None:
                    break
                o = o - p.len
        if isinstance(s, SConstRep) and s.n.is_const() and s.n.c <= 64 and i.is_const() and 0 <= i.c < s.n.c:
            it = [s.val] * s.n.c
            it[i.c] = new
            return SLit(s.elem, it)
        if isinstance(s, SSym) and s.length.is_const() and s.length.c <= 16 and i.is_const() and 0 <= i.c < s.length.c:
            it = [self.index(st, s, Lin(j)) for j in range(s.length.c)]
            it[i.c] = new
            return SLit(s.elem, it)
        if isinstance(s, SUpd) and s.idx == i:
            return SUpd(s.elem, s.seq, i, new)
        if (isinstance(s, (SConstRep, SSlice)) or isinstance(s, (SSym, SRep)) and i.is_const()) and st.facts.decide(le(Lin(0), i)) is True and st.facts.decide(lt(i, s.len)) is True:
            return mk_cat(s.elem, [mk_slice(s, Lin(0), i), SLit(s.elem, (new,)), mk_slice(s, i + Lin(1), s.len - i - Lin(1))])
        return SUpd(s.elem, s, i, new)

    def write(self, st, loc, path, new, rng=None):
        if rng is not None and isinstance(new, Seq):
            old = self.read(st, loc, path)
            if isinstance(old, Seq):
                n = old.len
                new = mk_cat(old.elem, [mk_slice(old, Lin(0), rng[0]), new,
                                        mk_slice(old, rng[0] + rng[1], n - rng[0] - rng[1])])
        if not path:
            st.mem[loc] = new
        else:
            st.mem[loc] = self.setp(st, self.load(st, loc), path, new)

    def deref(self, st, r):
        return self.read(st, r.loc, r.path, r.rng)

    def store(self, st, r, v):
        self.write(st, r.loc, r.path, v, r.rng)

    def as_ref(self, v):
        if isinstance(v, Ref):
            return v
        return None

    def slen(self, st, r):
        """length of the slice behind a reference"""
        if isinstance(r, Ref):
            if r.rng is not None:
                return r.rng[1]
            v = self.deref(st, r)
        else:
            v = r
        if isinstance(v, Seq):
            return v.len
        return None

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        loc = (fr.fid, p[0])
        path = ()
        rng = None
        variant = 0
        base = True
        for e in p[1:]:
            k = e[0]
            if k == "*":
                v = self.read(st, loc, path, rng)
                if isinstance(v, Nat) and v.tag == "box":
                    v = v.args[0]
                if isinstance(v, Ref):
                    loc, path, rng = v.loc, v.path, v.rng
                elif isinstance(v, Sym) and self.tk(v.ty) in ("ref", "ptr"):
                    loc, path, rng = ("m", v.base, self.T[v.ty]["to"]), (), None
                elif v is UNINIT or v is MOVED:
                    loc, path, rng = ("lost", loc, path), (), None
                # boxes are transparent
                variant = 0
            elif k == "f":
                path = path + (("f", e[1], variant, e[2]),)
                rng = None
                variant = 0
            elif k == "v":
                variant = e[1]
            elif k == "i":
                i = self.toint(self.load(st, (fr.fid, e[1])))
                path = path + (("i", (rng[0] + i) if rng else i),)
                rng = None
            elif k == "ci":
                if e[3]:
                    n = rng[1] if rng else self.seqlen_at(st, loc, path)
                    i = n - e[1]
                else:
                    i = Lin(e[1])
                path = path + (("i", (rng[0] + i) if rng else i),)
                rng = None
            elif k == "ss":
                n = rng[1] if rng else self.seqlen_at(st, loc, path)
                off = rng[0] if rng else Lin(0)
                a = Lin(e[1])
                b = (n - e[2]) if e[3] else Lin(e[2])
                rng = (off + a, b - a)
        return loc, path, rng, variant

    def seqlen_at(self, st, loc, path):
        v = self.read(st, loc, path)
        if isinstance(v, Seq):
            return v.len
        raise Undecided(f"length of {v!r}")

    def toint(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, B):
            return bool_to_int(v)
        if isinstance(v, Atom) and v.sort == "i":
            return L(v)
        return L(mk(("notint", repr(v)[:60]), "i", 0, (1 << 64) - 1, None, True))

    def tobool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Lin):
            return bnot(eq0(v))
        return lit(mk(("notbool", repr(v)[:60]), "b", weak=True))

    def tofloat(self, v, bits=32):
        if isinstance(v, Atom) and v.sort == "f":
            return v
        return mk(("notfloat", repr(v)[:80]), "f", weak=True, ty=bits)

    def operand(self, st, fr, o):
        if "cp" in o:
            loc, path, rng, _ = self.place(st, fr, o["cp"])
            return self.read(st, loc, path, rng)
        if "mv" in o:
            p = o["mv"]
            loc, path, rng, _ = self.place(st, fr, p)
            v = self.read(st, loc, path, rng)
            if not path and rng is None and loc[0] != "m":
                # scalars are never dropped: keep the store small but mark owners as moved
                st.mem[loc] = MOVED
            elif path and all(e[0] == "f" for e in path) and isinstance(loc[0], int) and self.owns(v):
                st.mem[loc] = self.setp(st, self.load(st, loc), path, MOVED)
            return v
        if "c" in o:
            return self.constant(st, fr, o["c"])
        if "rtc" in o:
            return FALSE
        raise Undecided(f"operand {o}")

    def owns(self, v):
        return isinstance(v, (Agg, Sym, Seq, Nat)) and v is not UNIT

    def constant(self, st, fr, c):
        t = c["t"]
        x = self.T[t]
        k = x["k"]
        if "promoted" in c:
            return self.promoted(c["promoted"][0], c["promoted"][1])
        if k == "fndef":
            return FnV(t)
        if "bits" in c:
            b = int(c["bits"])
            if k == "int":
                if x["signed"] and b >> (x["bits"] - 1):
                    b -= 1 << x["bits"]
                return Lin(b)
            if k == "bool":
                return TRUE if b else FALSE
            if k == "char":
                return Lin(b)
            if k == "float":
                return float_bits(b, x["bits"])
            if k == "adt":
                return self.decode_mem(t, b.to_bytes(c["sz"], "little"), [])
            return Lin(b)
        if "str" in c:
            bs = c["str"].encode()
            return Ref(("k", SLit(self._u8, [Lin(z) for z in bs])), ())
        if "bytes" in c:
            bs = bytes.fromhex(c["bytes"])
            el = None
            if k == "ref":
                return Ref(("k", self.decode_seq(x["to"], bs)), ())
            return SLit(self._u8, [Lin(z) for z in bs])
        if "ptr_bytes" in c and k in ("ref", "ptr"):
            bs = bytes.fromhex(c["ptr_bytes"])
            v = self.decode_mem(x["to"], bs, c.get("strs", []))
            return Ref(("k", v), ())
        if "mem" in c:
            return self.decode_mem(t, bytes.fromhex(c["mem"]), c.get("strs", []))
        if c.get("zst"):
            if k == "tuple":
                return UNIT
            if k == "closure":
                return Agg(t, 0, ())
            if k == "adt":
                vs = self.variants(t)
                if vs and len(vs) == 1:
                    return Agg(t, 0, [self.zst(f["ty"]) for f in vs[0]["fields"]])
                el = self.C.elem_of(t)
                if el is not None:
                    return SLit(el, ())
            if k == "array":
                return SLit(x["of"], ())
            return Sym(t, mk(("zst", t), "o"))
        if "static" in c:
            return Ref(("st", c["static"], x.get("to")), ())
        if "uneval" in c or "item" in c:
            return self.symval(t, ("const", c.get("item") or c.get("uneval"), fr.inst if fr else 0))
        return self.symval(t, ("const?", t, repr(sorted(c.items()))[:80]), weak=True)

    def zst(self, t):
        x = self.T[t]
        if x["k"] == "tuple" and not x["of"]:
            return UNIT
        return Sym(t, mk(("zst", t), "o"))

    def decode_seq(self, t, bs):
        """constant slice/str of type t"""
        x = self.T[t]
        if x["k"] == "str":
            return SLit(self._u8, [Lin(z) for z in bs])
        el = x["of"]
        sz = self.C.size(el) or 1
        return SLit(el, [self.decode_mem(el, bs[i:i + sz], []) for i in range(0, len(bs), sz)])

    def decode_mem(self, t, bs, strs):
        x = self.T[t]
        k = x["k"]
        if k == "int":
            return Lin(int.from_bytes(bs[:x["bits"] // 8], "little", signed=x["signed"]))
        if k == "bool":
            return TRUE if bs[0] else FALSE
        if k == "float":
            return float_bits(int.from_bytes(bs[:x["bits"] // 8], "little"), x["bits"])
        if k == "char":
            return Lin(int.from_bytes(bs[:4], "little"))
        if k in ("array", "slice"):
            el = x["of"]
            ek = self.T[el]
            if ek["k"] == "ref" and self.T[ek["to"]]["k"] == "str":
                m = {o: s for o, s in strs}
                n = len(bs) // 16
                return SLit(el, [Ref(("k", SLit(self._u8, [Lin(z) for z in m.get(i * 16, "").encode()])), ()) for i in range(n)])
            sz = self.C.size(el) or 1
            if ek["k"] in ("int", "bool", "float", "char", "array", "adt", "tuple"):
                return SLit(el, [self.decode_mem(el, bs[i:i + sz], []) for i in range(0, len(bs), sz)])
        if k == "str":
            return SLit(self._u8, [Lin(z) for z in bs])
        if k == "ref" and self.T[x["to"]]["k"] == "str":
            for o, z in strs:
                if o == 0:
                    return Ref(("k", SLit(self._u8, [Lin(y) for y in z.encode()])), ())
        if k == "tuple" and not x["of"]:
            return UNIT
        v = self.decode_layout(t, x, bs, strs)
        if v is not None:
            return v
        if k == "adt" and x.get("variants"):
            vs = x["variants"]
            if len(vs) == 1 and len(vs[0]["fields"]) == 1:
                return Agg(t, 0, [self.decode_mem(vs[0]["fields"][0]["ty"], bs, strs)])
            if all(not v["fields"] for v in vs) and x.get("size"):
                d = int.from_bytes(bs[:x["size"]], "little")
                for i, v in enumerate(vs):
                    if int(v["discr"]) % (1 << (8 * x["size"])) == d:
                        return Agg(t, i, ())
        if x.get("size") == 0:
            return self.zst(t)
        return self.symval(t, ("constmem", t, bs.hex()), weak=True)

    def decode_layout(self, t, x, bs, strs):
        """constant of a tuple, struct or enum type, from its layout"""
        offs = x.get("offs")
        if offs is None or len(bs) < (x.get("size") or 0):
            return None
        if x["k"] == "tuple":
            if len(offs) != 1 or len(offs[0]) != len(x["of"]):
                return None
            fields = list(zip(x["of"], offs[0]))
            variant = 0
        else:
            vs = x.get("variants")
            if not vs:
                return None
            variant = x.get("single", 0)
            tag = x.get("tag")
            if tag is not None:
                sz = tag["size"]
                d = int.from_bytes(bs[tag["off"]:tag["off"] + sz], "little")
                if "untagged" in tag:
                    r = (d - int(tag["start"])) % (1 << (8 * sz))
                    variant = tag["first"] + r if r <= tag["last"] - tag["first"] else tag["untagged"]
                else:
                    m = [i for i, v in enumerate(vs) if int(v["discr"]) % (1 << (8 * sz)) == d]
                    if len(m) != 1:
                        return None
                    variant = m[0]
            row = offs[variant if tag is not None else 0]
            fs = vs[variant]["fields"]
            if len(row) != len(fs):
                return None
            fields = [(f["ty"], o) for f, o in zip(fs, row)]
        out = []
        for ty, o in fields:
            n = self.C.size(ty)
            if n is None:
                return None
            out.append(self.decode_mem(ty, bs[o:o + n], [(p - o, z) for p, z in strs if o <= p < o + n]) if n else self.zst(ty))
        return Agg(t, variant, out)

    def promoted(self, inst, k):
        """value of a promoted constant: abstractly evaluate its straight-line body"""
        key = ("promo", inst, k)
        c = self.loopinfo.get(key)
        if c is not None:
            return c
        body = self.C.promoted(inst, k)
        st = State()
        fr = Frame()
        fr.inst = inst
        fr.body = body
        fr.fid = self.fid(-1, key, inst)
        fr.name = "promoted"
        fr.chain = ()
        exits, _ = self.region(fr, None, set(body.rpo), 0, [st])
        s2 = exits[0][1]
        v = s2.mem.get((fr.fid, 0), UNINIT)
        # references to locals of the promoted body become constant locations
        v = self.freeze(s2, v)
        self.loopinfo[key] = v
        return v

    def freeze(self, st, v):
        if isinstance(v, Ref) and isinstance(v.loc[0], int):
            inner = self.freeze(st, self.deref(st, v))
            return Ref(("k", inner), ())
        if isinstance(v, Agg):
            return Agg(v.ty, v.variant, [self.freeze(st, f) for f in v.fields])
        if isinstance(v, SLit):
            return SLit(v.elem, [self.freeze(st, f) for f in v.items])
        return v

    # ------------------------------------------------------------ obligations / events
    def oblige(self, st, fr, kind, goal, loc, note=""):
        """goal must hold here; records the verdict and assumes it afterwards"""
        if st.facts.bad:
            return
        d = st.facts.decide(goal)
        if self.record:
            o = Obl()
            o.kind = kind
            o.fn = fr.name
            o.loc = loc
            o.goal = goal
            o.chain = fr.chain
            o.note = note
            o.weak = False
            o.facts = None
            if d is True:
                o.status = "ok"
            else:
                r = True if st.facts.refuted() else st.facts.by_cases(goal) if st.facts.clauses else False
                if r is True:
                    o.status = "ok"
                else:
                    o.weak = r is None or self.is_weak(st, goal)
                    o.status = "fail"
                    o.facts = st.facts
            self.obls.append(o)
        if d is not True:
            st.facts.assume(goal)

    def is_weak(self, st, goal):
        if goal is FALSE:
            # unreachable-code obligation: look at the last branch facts
            for g in reversed(st.facts.log):
                if isinstance(g, B):
                    return any(a.weak for a in g.deps)
            return False
        if goal.op in ("le", "eq", "ne"):
            l = st.facts.norm(goal.x)
            return any(a.weak for a in l.deps) or st.facts.weak_path()
        return any(a.weak for a in goal.deps) or st.facts.weak_path()

    def panic(self, st, fr, kind, loc, note=""):
        self.oblige(st, fr, kind, FALSE, loc, note)

    def event(self, st, fr, kind, loc, *data):
        if self.record:
            self.events.append((kind, fr.name, loc, fr.chain, data, st.facts, st.ctx))

    # ------------------------------------------------------------ running bodies
    def run_body(self, fr, st):
        """-> list of (state, return value)"""
        exits, backs = self.region(fr, None, set(fr.body.rpo), 0, [st])
        out = []
        for tgt, s in exits:
            if tgt == "ret":
                v = s.mem.get((fr.fid, 0), UNINIT)
                out.append((s, v))
        n = len(fr.body.locals)
        for s, _ in out:
            m = s.mem
            for i in range(n):
                m.pop((fr.fid, i), None)
        return out

    def region(self, fr, header, blocks, entry, states):
        body = fr.body
        import heapq
        work = {entry: list(states)}
        heap = [(body.pos[entry], entry)]
        exits = []
        backs = []
        done_header = False
        inloop = {}
        while heap:
            _, b = heapq.heappop(heap)
            sts = work.pop(b, None)
            if not sts:
                continue
            if len(sts) > 1:
                sts = self.join_at(fr, b, sts)
            for s in sts:
                if s.facts.bad:
                    continue
                if b in body.loops and not (b == header and not done_header):
                    res = self.run_loop(fr, b, s)
                else:
                    if b == header:
                        pass
                    res = self.block(fr, b, s)
                for tgt, s2 in res:
                    if s2.facts.bad:
                        continue
                    if tgt == "ret":
                        exits.append((tgt, s2))
                    elif tgt == header:
                        backs.append(s2)
                    elif tgt not in blocks:
                        exits.append((tgt, s2))
                    else:
                        if tgt not in work:
                            work[tgt] = []
                            heapq.heappush(heap, (body.pos[tgt], tgt))
                        work[tgt].append(s2)
            if b == header:
                done_header = True
        return exits, backs

    def prune(self, fr, b, st):
        """forget locals that are dead at block b"""
        live = fr.body.live[b]
        bor = fr.body.borrowed
        m = st.mem
        for i in range(len(fr.body.locals)):
            if i not in live and i not in bor and i != 0:
                m.pop((fr.fid, i), None)

    def join_at(self, fr, b, sts):
        for s in sts:
            self.prune(fr, b, s)
        return self.merge_states(sts, (fr.fid, "j", b), self.cap)

    def merge_states(self, sts, site, cap):
        sts = [s for s in sts if not s.facts.bad]
        if len(sts) <= 1:
            return sts
        # exact-memory merging
        groups = {}
        order = []
        for s in sts:
            k = frozenset(s.mem.items())
            if self.keep_foralls:
                k = (k, frozenset(s.facts.foralls))
            if k in groups:
                groups[k].append(s)
            else:
                groups[k] = [s]
                order.append(k)
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
            else:
                out.append(self.join_facts(g))
        if len(out) > cap:
            out = self.merge_shapes(out, site)
        return out

    def join_facts(self, g):
        r = g[0].fork()
        fs = [s.facts for s in g]
        f = Facts()
        base = fs[0]
        common = []
        logs = [set(x.log) for x in fs]
        for b in base.log:
            if not isinstance(b, B):
                if all(b in l for l in logs[1:]):
                    f.log = f.log + (b,)
                continue
            if all(b in l for l in logs[1:]):
                f.assume(b)
            elif all(x.decide(b, deep=False) is True for x in fs[1:]):
                f.assume(b)
        for x in fs[1:]:
            for b in x.log:
                if isinstance(b, B) and b not in logs[0] and all(y.decide(b, deep=False) is True for y in fs if y is not x):
                    f.assume(b)
        # keep the disjunction of the remaining branch facts when it is small
        have = set(f.log)
        rest = [[b for b in x.log if isinstance(b, B) and b not in have] for x in fs]
        dropped = EMPTY
        if all(rest):
            if len(fs) <= 8 and all(len(x) <= 4 for x in rest):
                f.assume(bor(*[band(*x) for x in rest]))
            else:
                for x in rest:
                    for b in x:
                        dropped = dropped | {b.deps}
        fa = [x for x in base.foralls if all(x in y.foralls for y in fs[1:])]
        f.foralls = tuple(fa)
        for x in fs:
            dropped = dropped | x.lossy
        f.lossy = dropped
        f.unk = any(x.unk for x in fs)
        r.facts = f
        return r

    def shape(self, v, d=0):
        if isinstance(v, Agg):
            if d > 2:
                return ("a",)
            return ("A", v.ty, v.variant, tuple(self.shape(x, d + 1) for x in v.fields))
        if isinstance(v, Sym):
            return ("S", v.ty)
        if isinstance(v, Seq):
            return ("Q",)
        if isinstance(v, Ref):
            return ("R", v.loc)
        if isinstance(v, Nat):
            return ("N", v.tag, len(v.args))
        if isinstance(v, B):
            return ("b", v if v in (TRUE, FALSE) else None)
        if v is MOVED or v is UNINIT:
            return ("dead",)
        return ("s",)

    def merge_shapes(self, sts, site):
        groups = {}
        order = []
        for s in sts:
            k = frozenset((l, self.shape(v)) for l, v in s.mem.items() if v is not MOVED and v is not UNINIT)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        for n, k in enumerate(order):
            g = groups[k]
            out.append(g[0] if len(g) == 1 else self.join_mem(g, site + (n,)))
        if len(out) > 4 * self.cap:
            # last resort: join everything
            out = [self.join_mem(out, site + ("all",))]
        return out

    def join_mem(self, g, site):
        r = self.join_facts(g)
        m = {}
        locs = set(g[0].mem)
        for s in g[1:]:
            locs &= set(s.mem)
        for l in locs:
            vs = [s.mem[l] for s in g]
            m[l] = self.join_vals(r, g, vs, site + (l,), None)
            if any(v != vs[0] for v in vs[1:]):
                r.facts.lossy = r.facts.lossy | {LOST}
        r.mem = m
        return r

    def join_vals(self, r, g, vs, site, ty):
        v0 = vs[0]
        if all(v == v0 for v in vs[1:]):
            return v0
        if any(v is MOVED or v is UNINIT for v in vs):
            return MOVED if all(v is MOVED or v is UNINIT for v in vs) else Const("maybe")
        if all(isinstance(v, Lin) for v in vs):
            lo = min(s.facts.bounds(v)[0] for s, v in zip(g, vs))
            hi = max(s.facts.bounds(v)[1] for s, v in zip(g, vs))
            return L(mk(("phi", site, r.ctx), "i", lo, hi, None, True))
        if all(isinstance(v, B) for v in vs):
            return lit(mk(("phi", site, r.ctx), "b", weak=True))
        if all(isinstance(v, Atom) and v.sort == "f" for v in vs):
            return mk(("phi", site, r.ctx), "f", weak=True, ty=v0.ty)
        if all(isinstance(v, (Agg, Sym)) for v in vs):
            tys = {v.ty for v in vs}
            if len(tys) == 1:
                t = vs[0].ty
                var = {v.variant if isinstance(v, Agg) else -1 for v in vs}
                if len(var) == 1 and -1 not in var:
                    n = len(v0.fields)
                    if all(len(v.fields) == n for v in vs):
                        return Agg(t, v0.variant, [self.join_vals(r, g, [v.fields[i] for v in vs], site + (i,), None) for i in range(n)])
                if t is not None and self.variants(t) and len(self.variants(t)) == 1:
                    ex = [self.expand(v) for v in vs]
                    if all(isinstance(e, Agg) for e in ex):
                        n = len(ex[0].fields)
                        return Agg(t, 0, [self.join_vals(r, g, [v.fields[i] for v in ex], site + (i,), None) for i in range(n)])
                if t is not None:
                    return self.symval(t, ("phi", site, r.ctx), weak=True)
            return Const("maybe")
        if all(isinstance(v, Seq) for v in vs):
            ln = self.join_vals(r, g, [v.len for v in vs], site + ("len",), None)
            return SSym(v0.elem, mk(("phi", site, r.ctx), "o", weak=True), ln)
        if all(isinstance(v, Ref) for v in vs):
            if all(v.loc == v0.loc and len(v.path) == len(v0.path) and (v.rng is None) == (v0.rng is None) for v in vs):
                path = []
                ok = True
                for i, e in enumerate(v0.path):
                    es = [v.path[i] for v in vs]
                    if all(x == e for x in es):
                        path.append(e)
                    elif all(x[0] == "i" for x in es):
                        path.append(("i", self.join_vals(r, g, [x[1] for x in es], site + ("p", i), None)))
                    else:
                        ok = False
                if ok:
                    rng = None
                    if v0.rng is not None:
                        rng = tuple(self.join_vals(r, g, [v.rng[i] for v in vs], site + ("r", i), None) for i in (0, 1))
                    return Ref(v0.loc, tuple(path), rng)
            return Const("maybe")
        if all(isinstance(v, Nat) and v.tag == v0.tag and len(v.args) == len(v0.args) for v in vs):
            return Nat(v0.tag, *[self.join_vals(r, g, [v.args[i] for v in vs], site + (i,), None) for i in range(len(v0.args))])
        return Const("maybe")

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, h, st):
        body = fr.body
        blocks = body.loops[h]

        def runner(s):
            return self.region(fr, h, blocks, h, [s])

        self.prune(fr, h, st)
        key = (fr.fid, h)
        loc = body.blocks[h].t.get("l")

        def pr(s):
            self.prune(fr, h, s)
        return self.fixpoint(key, runner, st, pr, fr, loc, body.normal_exit(h))

    def fixpoint(self, key, runner, st0, prune, fr, loc=None, ntgt=None):
        """summarise a loop. runner(state) -> (exits [(tgt, state)], backs [state]).
        returns exits."""
        ctx0 = st0.ctx
        # ---- peel iterations while the loop condition is decided
        out = []
        curs = [st0]
        it = 0
        mark = (len(self.obls), len(self.events))
        first = None
        saved_record = self.record
        while True:
            exits, backs = [], []
            for cur in curs:
                s = cur.fork()
                s.ctx = ctx0 + (Lin(it),)
                ex, ba = runner(s)
                exits += ex
                backs += ba
            for b in backs:
                prune(b)
            if it == 0:
                first = (exits, backs)
            if not backs or (it < self.opt.get("unroll", 40) and len(backs) <= max(48, self.cap)
                             and ntgt is not None and not any(t == ntgt for t, _ in exits)):
                for t, e in exits:
                    e.ctx = ctx0
                    out.append((t, e))
                if not backs:
                    return out
                curs = backs
                it += 1
                continue
            break
        # ---- abstract
        del self.obls[mark[0]:]
        del self.events[mark[1]:]
        exits, backs = first
        n = mk(("n", key, ctx0), "i", 0, (1 << 64))
        N = L(n)
        levels = {}
        S0 = st0
        self._gen_levels(S0, None, backs, levels, key, ctx0, n)
        for p in range(self.maxpass + 6):
            final = False
            H, accs, checks = self._gen_state(S0, levels, key, ctx0, n)
            H.ctx = ctx0 + (N,)
            hlog = len(H.facts.log)
            self.record = False
            # trial run silently, then a recorded run once stable
            exits, backs = runner(H.fork())
            for b in backs:
                prune(b)
            self.record = saved_record
            changed = self._gen_levels(S0, H, backs, levels, key, ctx0, n)
            if not changed:
                break
            if p >= self.maxpass:
                for k in changed:
                    levels[k] = ("havoc",)
        inv = self._bounds_inv(S0, backs, hlog, n)
        if saved_record or inv:
            H, accs, checks = self._gen_state(S0, levels, key, ctx0, n)
            H.ctx = ctx0 + (N,)
            for g in inv:
                H.facts.assume(g)
            hlog = len(H.facts.log)
            exits, backs = runner(H.fork())
            for b in backs:
                prune(b)
        # ---- comprehensions for appended sequences
        sub = {}
        for lk, (s0, acc, elem, ow) in accs.items():
            alts = []
            ok = True
            for b in backs:
                v = self._leaf(b, lk)
                if ow is not None:
                    ex = self._ow_extra(s0, self._leaf(H, lk), v, ow, N) if isinstance(v, Seq) else None
                else:
                    ex = self._extra(self._leaf(H, lk), v)
                if ex is None:
                    ok = False
                    break
                guards = tuple(g for g in b.facts.log[hlog:] if isinstance(g, B))
                if not self.relevant_guards:
                    guards = ()
                alts.append((guards, ex))
            if ok:
                if len(alts) > 1 and all(a[1] == alts[0][1] for a in alts):
                    alts = [((), alts[0][1])]
                if len(alts) == 1 and False:
                    alts = [((), alts[0][1])]
                k = mk(("k", key, ctx0), "i", 0, 1 << 64)
                sb = Subst({n: L(k)})
                ra = tuple((sb(g), sb(x)) for g, x in alts)
                sub[acc.base] = SRep(elem, k, N, ra, None if self._unit(ra) is not None else acc.len)
        # ---- universal facts about completed iterations
        fa = self._forall(H, backs, hlog, n, N, levels)
        res = []
        S = Subst(sub) if sub else None
        for t, e in exits:
            if e.facts.bad:
                continue
            e.ctx = ctx0
            if S is not None:
                for l, v in list(e.mem.items()):
                    if S.touches(v):
                        e.mem[l] = S(v)
            if fa is not None:
                e.facts.foralls = e.facts.foralls + (fa,)
            res.append((t, e))
        res = self._sticky(H, backs, res, N)
        self.note_folds(S0, H, backs, hlog, levels, n)
        return res

    def _sticky(self, H, backs, exits, N):
        """facts about the outside world that an iteration may set (a failed write or read, bytes
        left in a buffer) and which the loop's own variables do not record: an exit after such an
        iteration is one more state"""
        for g in STICKY:
            if H.mem.get(g) not in (None, FALSE):
                continue
            on = [b for b in backs if b.mem.get(g) not in (None, FALSE) and not b.facts.bad]
            if not on:
                continue
            sure = g == STICKY[2]
            if not sure:
                off = [b for b in backs if b.mem.get(g) in (None, FALSE)]
                for b in on:
                    mb = {l: v for l, v in b.mem.items() if l[0] != "g"}
                    if any({l: v for l, v in o.mem.items() if l[0] != "g"} == mb for o in off):
                        sure = True
            sure = sure and all(b.mem.get(g) is TRUE for b in on)
            val = TRUE if sure else Sym(0, mk(("sticky", g), "o", weak=True))
            more = []
            for t, e in exits:
                if e.mem.get(g) not in (None, FALSE):
                    continue
                f = e.fork()
                f.mem[g] = val
                f.facts.assume(le(Lin(1), N))
                if not f.facts.bad:
                    more.append((t, f))
            exits = exits + more
        return exits

    def note_folds(self, S0, H, backs, hlog, levels, n):
        """what one iteration does to each accumulated scalar: hinfo[atom] =
        (value before the loop, [(guards, value after an iteration)], iteration atom)"""
        for lk, lev in levels.items():
            if lev[0] not in ("fh", "bnd"):
                continue
            h = self._leaf(H, lk)
            a = h if isinstance(h, Atom) else (h.single() if isinstance(h, Lin) else None)
            if a is None:
                continue
            self.hinfo[a] = (self._leaf(S0, lk),
                             [(tuple(g for g in b.facts.log[hlog:] if isinstance(g, B)), self._leaf(b, lk)) for b in backs], n)

    def _bounds_inv(self, S0, backs, hlog, n):
        """upper bounds on the iteration number: every completed iteration m established
        k*m + r <= 0 for a loop invariant r, so k*(n-1) + r <= 0 holds whenever the header is
        reached for n >= 1; for n = 0 it is checked in the entry state"""
        out = []
        if not backs:
            return out
        common = None
        for b in backs:
            fs = set(g for g in b.facts.log[hlog:] if isinstance(g, B) and g.op == "le" and n in g.deps)
            common = fs if common is None else common & fs
        for g in common:
            k = None
            for a, c in g.x.t:
                if a is n:
                    k = c
                elif n in term_deps(a.key):
                    k = None
                    break
            else:
                if k is not None and k > 0:
                    rest = g.x - L(n).scale(k)
                    if S0.facts.decide(le(rest - Lin(k), Lin(0))) is True:
                        out.append(le(g.x - Lin(k), Lin(0)))
        return out

    relevant_guards = True

    def _unit(self, alts):
        n = None
        for _, s in alts:
            l = s.len
            if not l.is_const():
                return None
            if n is None:
                n = l.c
            elif n != l.c:
                return None
        return n

    class Forall:
        __slots__ = ("bv", "lo", "hi", "alts", "bases", "_h")

        def __init__(self, bv, lo, hi, alts, bases):
            self.bv = bv
            self.lo = lo
            self.hi = hi
            self.alts = alts
            self.bases = bases
            self._h = hash((bv, lo, hi, alts))

        def __hash__(self):
            return self._h

        def __eq__(self, o):
            return isinstance(o, Engine.Forall) and (self.bv, self.lo, self.hi, self.alts) == (o.bv, o.lo, o.hi, o.alts)

        @property
        def deps(self):
            return EMPTY

        def __repr__(self):
            return f"forall {self.bv!r} in [{self.lo!r},{self.hi!r}): " + " | ".join(
                " & ".join(map(repr, a)) for a in self.alts)

    def _forall(self, H, backs, hlog, n, N, levels={}):
        alts = []
        bases = {}
        # an accumulator that never grows (never shrinks) ends at or below (above) the value that
        # any one iteration left in it
        mono = []
        for lk, lev in levels.items():
            if lev[0] == "bnd" and (lev[1] == 0 or lev[2] == 0):
                h = self._leaf(H, lk)
                if isinstance(h, Lin) and h.single() is not None:
                    mono.append((lk, h, lev[2] == 0))
        for b in backs:
            fs = [g for g in b.facts.log[hlog:] if isinstance(g, B) and n in g.deps]
            alts.append((tuple(fs), [(h, self._leaf(b, lk), dn) for lk, h, dn in mono]))
            for g in fs:
                for a in g.deps:
                    if a.key[0] == "el":
                        ix = a.key[2]
                        d = ix - N
                        if n not in d.deps and isinstance(a.key[1], Atom):
                            bases.setdefault(a.key[1], d)
        for fs, ms in alts:
            for h, v, dn in ms:
                if isinstance(v, Lin):
                    for a in v.deps:
                        if a.key[0] == "el" and isinstance(a.key[1], Atom):
                            d = a.key[2] - N
                            if n not in d.deps:
                                bases.setdefault(a.key[1], d)
        if not alts or any(not a[0] and not a[1] for a in alts) or not bases or len(alts) > 4:
            return None
        bv = mk(("bv", n), "i", 0, 1 << 64)
        sb = Subst({n: L(bv)})
        out = []
        for fs, ms in alts:
            fs = sb(fs)
            out.append(fs + tuple(le(h, sb(v)) if dn else le(sb(v), h) for h, v, dn in ms if isinstance(v, Lin)))
        if any(not a for a in out):
            return None
        return Engine.Forall(bv, Lin(0), N, tuple(out), bases)

    # leaves: keys are (loc, subpath)
    def _leaf(self, st, lk):
        v = st.mem.get(lk[0])
        for e in lk[1]:
            if v is None:
                return None
            if isinstance(v, Sym):
                v = self.expand(v)
            if e[0] == "a" and isinstance(v, Agg) and e[1] < len(v.fields):
                v = v.fields[e[1]]
            elif e[0] == "n" and isinstance(v, Nat) and e[1] < len(v.args):
                v = v.args[e[1]]
            elif e[0] == "p" and isinstance(v, Ref):
                v = v.path[e[1]][1]
            elif e[0] == "r" and isinstance(v, Ref):
                v = v.rng[e[1]]
            elif e[0] == "l" and isinstance(v, Seq):
                v = v.len
            else:
                return None
        return v

    def _gen_levels(self, S0, H, backs, levels, key, ctx0, n):
        """compare the back-edge states with the header abstraction; raise levels that are not
        inductive. returns the list of changed leaf keys"""
        changed = []
        locs = set(S0.mem)
        for b in backs:
            locs |= set(b.mem)
        for l in locs:
            v0 = S0.mem.get(l)
            hv = (H or S0).mem.get(l)
            bv = [b.mem.get(l) for b in backs]
            if v0 is None:
                # location created in the body: unless it is always rewritten before use it stays
                # uninitialised at the header
                continue
            self._cmp(v0, hv, bv, (l, ()), levels, changed, backs, H, n)
        return changed

    def _raise(self, levels, lk, new, changed):
        if levels.get(lk) != new:
            levels[lk] = new
            changed.append(lk)

    def _cmp(self, v0, hv, bv, lk, levels, changed, backs, H, n):
        first = H is None
        lev = levels.get(lk)
        if lev is not None and lev[0] == "havoc":
            return
        if all(b == hv for b in bv) and (lev is None or lev[0] not in ("lin", "acc", "ow")):
            return
        if any(b is None for b in bv):
            bv = [UNINIT if b is None else b for b in bv]
        if any(x is MOVED or x is UNINIT for x in bv) or v0 is MOVED or v0 is UNINIT:
            if v0 is MOVED or v0 is UNINIT:
                if all(x is MOVED or x is UNINIT for x in bv):
                    return
                self._raise(levels, lk, ("dead",), changed)
                return
            if lev is None or lev[0] != "dead":
                self._raise(levels, lk, ("dead",), changed)
            return
        if lev is not None and lev[0] == "dead":
            return
        kinds = [v0, hv] + bv
        if all(isinstance(x, Lin) for x in kinds):
            ds = [self._delta(s.facts, b - hv) for s, b in zip(backs, bv)]
            if all(d.is_const() for d in ds):
                lo = min(d.c for d in ds)
                hi = max(d.c for d in ds)
                if lo == hi:
                    if lev is None:
                        if lo != 0 or first is False:
                            self._raise(levels, lk, ("lin", lo), changed)
                        return
                    if lev[0] == "lin":
                        if lev[1] != lo:
                            self._raise(levels, lk, ("bnd", min(lo, lev[1]), max(lo, lev[1])), changed)
                        return
                if lev is not None and lev[0] == "lin":
                    lo, hi = min(lo, lev[1]), max(hi, lev[1])
                if lev is not None and lev[0] == "bnd":
                    lo = None if lev[1] is None else min(lo, lev[1])
                    hi = None if lev[2] is None else max(hi, lev[2])
                self._raise(levels, lk, ("bnd", lo, hi), changed)
                return
            # symbolic delta: keep one-sided monotonicity when it can be shown
            lo = hi = None
            if all(b.facts.decide(le(hv, x)) is True for b, x in zip(backs, bv)):
                lo = 0
            if all(b.facts.decide(le(x, hv)) is True for b, x in zip(backs, bv)):
                hi = 0
            if lev is not None and lev[0] == "bnd":
                if lev[1] is None or lo is None:
                    lo = None
                else:
                    lo = min(lo, lev[1])
                if lev[2] is None or hi is None:
                    hi = None
                else:
                    hi = max(hi, lev[2])
            elif lev is not None and lev[0] == "lin":
                lo = None if lo is None else min(0, lev[1])
                hi = None if hi is None else max(0, lev[1])
            self._raise(levels, lk, ("bnd", lo, hi), changed)
            return
        if all(isinstance(x, Seq) for x in kinds):
            exs = [self._extra(hv, b) for b in bv]
            if all(e is not None for e in exs):
                if lev is None or lev[0] == "acc":
                    ls = [e.len for e in exs]
                    if all(x.is_const() for x in ls):
                        lo = min(x.c for x in ls)
                        hi = max(x.c for x in ls)
                    else:
                        lo = 0
                        hi = None
                    if lev is not None:
                        if lev[1] is not None:
                            lo = min(lo, lev[1])
                        hi = None if (hi is None or lev[2] is None) else max(hi, lev[2])
                    self._raise(levels, lk, ("acc", lo, hi), changed)
                    return
            if lev is None:
                ow = [self._ow_find(v0, b) for b in bv]
                if ow[0] is not None and all(o == ow[0] for o in ow):
                    self._raise(levels, lk, ("ow",) + ow[0], changed)
                    return
            elif lev[0] == "ow" and all(self._ow_extra(v0, hv, b, lev, N=L(n)) is not None for b in bv):
                return
            if lev is None or lev[0] in ("acc", "ow"):
                self._raise(levels, lk, ("seq",), changed)
            # the length is a leaf of its own
            sub = (lk[0], lk[1] + (("l",),))
            if sub not in levels and v0.len != hv.len:
                # measured against the next, weaker abstraction
                return
            self._cmp(v0.len, hv.len, [b.len for b in bv], sub, levels, changed, backs, H, n)
            return
        if all(isinstance(x, (Agg, Sym)) for x in kinds):
            tys = {x.ty for x in kinds}
            if len(tys) == 1:
                t = v0.ty
                if isinstance(v0, Agg) and all(isinstance(x, Agg) and x.variant == v0.variant and len(x.fields) == len(v0.fields) for x in kinds):
                    for i in range(len(v0.fields)):
                        self._cmp(v0.fields[i], hv.fields[i], [b.fields[i] for b in bv], (lk[0], lk[1] + (("a", i),)),
                                  levels, changed, backs, H, n)
                    return
                vs = self.variants(t) if t is not None else None
                if vs and len(vs) == 1:
                    ex = [self.expand(x) for x in kinds]
                    if all(isinstance(x, Agg) for x in ex):
                        for i in range(len(ex[0].fields)):
                            self._cmp(ex[0].fields[i], ex[1].fields[i], [b.fields[i] for b in ex[2:]],
                                      (lk[0], lk[1] + (("a", i),)), levels, changed, backs, H, n)
                        return
                if t is not None:
                    self._raise(levels, lk, ("sym", t), changed)
                    return
            self._raise(levels, lk, ("havoc",), changed)
            return
        if all(isinstance(x, Nat) and x.tag == v0.tag and len(x.args) == len(v0.args) for x in kinds if True) and isinstance(v0, Nat):
            for i in range(len(v0.args)):
                self._cmp(v0.args[i], hv.args[i], [b.args[i] for b in bv], (lk[0], lk[1] + (("n", i),)), levels, changed, backs, H, n)
            return
        if all(isinstance(x, Ref) for x in kinds):
            if all(x.loc == v0.loc and len(x.path) == len(v0.path) and (x.rng is None) == (v0.rng is None)
                   and all(p[0] == q[0] and (p[0] == "i" or p == q) for p, q in zip(x.path, v0.path)) for x in kinds):
                for i, e in enumerate(v0.path):
                    if e[0] == "i":
                        self._cmp(e[1], hv.path[i][1], [b.path[i][1] for b in bv], (lk[0], lk[1] + (("p", i),)), levels, changed, backs, H, n)
                if v0.rng is not None:
                    for i in (0, 1):
                        self._cmp(v0.rng[i], hv.rng[i], [b.rng[i] for b in bv], (lk[0], lk[1] + (("r", i),)), levels, changed, backs, H, n)
                return
            self._raise(levels, lk, ("havoc",), changed)
            return
        if all(isinstance(x, B) for x in kinds):
            self._raise(levels, lk, ("boolh",), changed)
            return
        if all(isinstance(x, Atom) and x.sort == "f" for x in kinds):
            self._raise(levels, lk, ("fh",), changed)
            return
        self._raise(levels, lk, ("havoc",), changed)

    def _delta(self, facts, d):
        """a difference of two values, as a constant where the facts fix it"""
        if not d.is_const():
            for c in (-1, 1, 0):
                if facts.decide(eq(d, Lin(c))) is True:
                    return Lin(c)
        return d

    def _ow_find(self, v0, b):
        """(offset, width) of the block an iteration wrote in place into v0, or None"""
        bp = b.parts if isinstance(b, SCat) else (b,)
        if isinstance(v0, (SCat, SLit)) or v0.len.is_const():
            return None
        off = Lin(0)
        for i, p in enumerate(bp):
            if isinstance(p, SLit):
                if i and bp[0] != mk_slice(v0, Lin(0), off):
                    return None
                if i > 1:
                    return None
                u = Lin(len(p.items))
                if mk_cat(b.elem, bp[i + 1:]) == mk_slice(v0, off + u, v0.len - off - u):
                    return off, len(p.items)
                return None
            off = off + p.len
        return None

    def _ow_parts(self, v0, lev, acc, N):
        off, u = lev[1], lev[2]
        return [mk_slice(v0, Lin(0), off), acc, mk_slice(v0, off + N.scale(u), v0.len - off - N.scale(u))]

    def _ow_extra(self, v0, hv, b, lev, N):
        """the block written by one iteration, or None when b is not of that form"""
        off, u = lev[1], lev[2]
        hp = hv.parts if isinstance(hv, SCat) else (hv,)
        acc = [p for p in hp if isinstance(p, SSym) and p.base.key[0] == "acc"]
        bp = list(b.parts) if isinstance(b, SCat) else [b]
        if not acc or acc[-1] not in bp:
            return None
        i = bp.index(acc[-1])
        if i + 1 >= len(bp) or not isinstance(bp[i + 1], SLit) or len(bp[i + 1].items) != u:
            return None
        if mk_cat(b.elem, bp[:i]) != mk_slice(v0, Lin(0), off):
            return None
        o2 = off + N.scale(u) + Lin(u)
        if mk_cat(b.elem, bp[i + 2:]) != mk_slice(v0, o2, v0.len - o2):
            return None
        return bp[i + 1]

    def _extra(self, hv, b):
        """suffix appended to hv in b, or None"""
        if b == hv:
            return SLit(hv.elem, ())
        hp = hv.parts if isinstance(hv, SCat) else ((hv,) if not (isinstance(hv, SLit) and not hv.items) else ())
        bp = b.parts if isinstance(b, SCat) else ((b,) if not (isinstance(b, SLit) and not b.items) else ())
        if len(bp) >= len(hp) and bp[:len(hp)] == tuple(hp):
            return mk_cat(hv.elem if hv.elem is not None else b.elem, bp[len(hp):])
        # last literal of the header may have been extended in place
        if hp and len(bp) >= len(hp) and bp[:len(hp) - 1] == tuple(hp[:-1]) and isinstance(hp[-1], SLit) and isinstance(bp[len(hp) - 1], SLit):
            a, c = hp[-1].items, bp[len(hp) - 1].items
            if c[:len(a)] == a:
                return mk_cat(hv.elem, (SLit(hv.elem, c[len(a):]),) + tuple(bp[len(hp):]))
        return None

    def _gen_state(self, S0, levels, key, ctx0, n):
        H = S0.fork()
        N = L(n)
        accs = {}
        checks = []
        bylog = {}
        for lk, lev in levels.items():
            bylog.setdefault(lk[0], []).append((lk[1], lev))
        for l, items in bylog.items():
            v = S0.mem.get(l)
            if v is None:
                continue
            d = dict(items)
            H.mem[l] = self._gen_val(H, v, l, (), d, key, ctx0, n, N, accs)
        return H, accs, checks

    def _gen_val(self, H, v, l, path, d, key, ctx0, n, N, accs):
        lev = d.get(path)
        if lev is None and not any(p[:len(path)] == path for p in d):
            return v
        nm = lambda tag: (tag, key, l, path, ctx0, N)
        if lev is None or lev[0] == "seq":
            if lev is not None:
                sub = path + (("l",),)
                ln = v.len
                if sub in d:
                    ln = self._gen_val(H, v.len, l, sub, d, key, ctx0, n, N, accs)
                return SSym(v.elem, mk(nm("hq"), "o", weak=True), ln)
            if isinstance(v, Sym):
                v = self.expand(v)
            if isinstance(v, Agg):
                return Agg(v.ty, v.variant, [self._gen_val(H, x, l, path + (("a", i),), d, key, ctx0, n, N, accs) for i, x in enumerate(v.fields)])
            if isinstance(v, Nat):
                return Nat(v.tag, *[self._gen_val(H, x, l, path + (("n", i),), d, key, ctx0, n, N, accs) for i, x in enumerate(v.args)])
            if isinstance(v, Ref):
                p = tuple(("i", self._gen_val(H, e[1], l, path + (("p", i),), d, key, ctx0, n, N, accs)) if e[0] == "i" else e
                          for i, e in enumerate(v.path))
                r = v.rng
                if r is not None:
                    r = tuple(self._gen_val(H, r[i], l, path + (("r", i),), d, key, ctx0, n, N, accs) for i in (0, 1))
                return Ref(v.loc, p, r)
            if isinstance(v, Seq):
                sub = path + (("l",),)
                ln = self._gen_val(H, v.len, l, sub, d, key, ctx0, n, N, accs)
                return SSym(v.elem, mk(nm("hq"), "o", weak=True), ln)
            return v
        k = lev[0]
        if k == "lin":
            return v + N.scale(lev[1])
        if k == "bnd":
            lo, hi = -INF, INF
            r = L(mk(nm("h"), "i", *self._hrange(v, nm("h")), None, True))
            if lev[1] is not None:
                H.facts.assume(le(v + N.scale(lev[1]), r))
            if lev[2] is not None:
                H.facts.assume(le(r, v + N.scale(lev[2])))
            if self.opt.get("zero_case"):
                H.facts.assume(bor(le(Lin(1), N), eq(r, v)))
            return r
        if k == "acc":
            if lev[1] is not None and lev[1] == lev[2]:
                ln = N.scale(lev[1])
            else:
                ln = L(mk(nm("hl"), "i", 0, (1 << 63) - 1, None, True))
                if lev[1]:
                    H.facts.assume(le(N.scale(lev[1]), ln))
                if lev[2] is not None:
                    H.facts.assume(le(ln, N.scale(lev[2])))
            acc = SSym(v.elem, mk(nm("acc"), "o"), ln)
            accs[(l, path)] = (v, acc, v.elem, None)
            return SCat(v.elem, (tuple(v.parts) if isinstance(v, SCat) else ((v,) if not (isinstance(v, SLit) and not v.items) else ())) + (acc,)) \
                if not (isinstance(v, SLit) and not v.items) else acc
        if k == "ow":
            acc = SSym(v.elem, mk(nm("acc"), "o"), N.scale(lev[2]))
            accs[(l, path)] = (v, acc, v.elem, lev)
            return mk_cat(v.elem, self._ow_parts(v, lev, acc, N))
        if k == "sym":
            return self.symval(lev[1], nm("h"), weak=True)
        if k == "boolh":
            return lit(mk(nm("h"), "b", weak=True))
        if k == "fh":
            return mk(nm("h"), "f", weak=True, ty=v.ty)
        if k == "dead":
            return Const("maybe")
        # havoc
        return self._havoc(H, v, nm("h"))

    def _leaf_range(self, l, path):
        """range of the machine integer stored in a leaf of a local variable, when its type is known"""
        if not (isinstance(l, tuple) and len(l) == 2 and isinstance(l[0], int) and isinstance(l[1], int) and 0 <= l[0] < len(self.finfo)):
            return None
        b = self.C.body(self.finfo[l[0]][2])
        if b is None or l[1] >= len(b.locals):
            return None
        t = b.locals[l[1]]
        for e in path:
            if e[0] != "a":
                return None
            x = self.T[t]
            if x["k"] == "tuple" and e[1] < len(x["of"]):
                t = x["of"][e[1]]
            elif len(x.get("variants") or ()) == 1 and e[1] < len(x["variants"][0]["fields"]):
                t = x["variants"][0]["fields"][e[1]]["ty"]
            else:
                return None
        return self.C.int_range(t) if self.T[t]["k"] == "int" else None

    def _hrange(self, v, nm=None):
        r = self._leaf_range(nm[2], nm[3]) if nm is not None and len(nm) == 6 else None
        if r is not None:
            return r
        lo, hi = interval(v)
        # the leaf has some machine type at least as wide as the values seen; widths are refined
        # by the program's own overflow checks
        if lo >= 0:
            return 0, (1 << 64) - 1
        return -(1 << 63), (1 << 64) - 1

    def _havoc(self, H, v, nm):
        if isinstance(v, Lin):
            return L(mk(nm, "i", *self._hrange(v, nm), None, True))
        if isinstance(v, B):
            return lit(mk(nm, "b", weak=True))
        if isinstance(v, Atom) and v.sort == "f":
            return mk(nm, "f", weak=True, ty=v.ty)
        if isinstance(v, Seq):
            return SSym(v.elem, mk(nm, "o", weak=True), L(mk(nm + ("len",), "i", 0, (1 << 63) - 1, None, True)))
        if isinstance(v, (Agg, Sym)) and v.ty is not None:
            return self.symval(v.ty, nm, weak=True)
        return Const("maybe")

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided("step limit")
        blk = fr.body.blocks[b]
        for n, s in enumerate(blk.s):
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], s[1], (fr.fid, b, n), s[3])
                self.assign(st, fr, s[1], v)
                if st.facts.bad:
                    return []
            elif k == "dead":
                st.mem.pop((fr.fid, s[1]), None)
            elif k == "live":
                st.mem.pop((fr.fid, s[1]), None)
            elif k == "sd":
                loc, path, rng, _ = self.place(st, fr, s[1])
                v = self.read(st, loc, path)
                if isinstance(v, Agg):
                    self.write(st, loc, path, Agg(v.ty, s[2], v.fields))
            elif k == "assume":
                c = self.operand(st, fr, s[1])
                st.facts.assume(self.tobool(c))
        return self.terminator(fr, b, blk.t, st)

    def assign(self, st, fr, p, v):
        if len(p) == 1:
            st.mem[(fr.fid, p[0])] = v
            return
        loc, path, rng, variant = self.place(st, fr, p)
        self.write(st, loc, path, v, rng)

    def rvalue(self, st, fr, r, dest, site, line):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "rawptr"):
            loc, path, rng, _ = self.place(st, fr, r[2])
            return Ref(loc, path, rng)
        if k == "discr":
            loc, path, rng, _ = self.place(st, fr, r[1])
            v = self.read(st, loc, path, rng)
            if isinstance(v, (Agg, Sym)):
                return self.discr(v)
            return L(mk(("discr?", site, st.ctx), "i", 0, 1 << 16, None, True))
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            ta = self.op_ty(fr, r[2])
            return self.binop(st, fr, r[1], a, b, ta, site)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(a, B):
                    return bnot(a)
                t = self.op_ty(fr, r[2])
                rg = self.C.int_range(t) if t is not None else None
                a = self.toint(a)
                if rg and rg[0] == 0:
                    return Lin(rg[1]) - a
                return -a - 1
            if r[1] == "Neg":
                if isinstance(a, Atom) and a.sort == "f":
                    return fneg(a)
                return -self.toint(a)
            if r[1] == "PtrMetadata":
                n = self.slen(st, a)
                return n if n is not None else L(mk(("meta?", site, st.ctx), "i", 0, (1 << 63) - 1, None, True))
            raise Undecided(f"unop {r[1]}")
        if k == "cast":
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), self.op_ty(fr, r[2]), r[3], site)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == "array":
                return SLit(a[1], ops)
            if a[0] == "tuple":
                if not ops:
                    return UNIT
                return Agg(self.dest_ty(fr, dest), 0, ops)
            if a[0] == "adt":
                if len(a) > 3 and a[3] is not None:
                    return Sym(a[1], mk(("union", site, st.ctx), "o", weak=True))
                if self.T[a[1]].get("box"):
                    return ops[0] if ops else UNINIT
                return Agg(a[1], a[2], ops)
            if a[0] in ("closure", "coroutine"):
                return Agg(a[1], 0, ops)
            if a[0] == "rawptr":
                return ops[0]
            raise Undecided(f"aggregate {a[0]}")
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            t = self.dest_ty(fr, dest)
            el = self.C.elem_of(t) if t is not None else None
            n = r[2]
            if isinstance(n, int):
                if n <= 64:
                    return SLit(el, [v] * n)
                return SConstRep(el, v, Lin(n))
            return SConstRep(el, v, L(mk(("alen", str(n)), "i", 0, (1 << 60) - 1)))
        if k == "tls":
            return UNINIT
        raise Undecided(f"rvalue {k}")

    def dest_ty(self, fr, p):
        t = fr.body.locals[p[0]]
        for e in p[1:]:
            if e[0] == "f":
                t = e[2]
            elif e[0] == "*":
                x = self.T[t]
                if x["k"] in ("ref", "ptr"):
                    t = x["to"]
                elif x.get("box"):
                    t = self.C.args(x)[0]
                else:
                    return None
            elif e[0] in ("i", "ci"):
                t = self.C.elem_of(t)
            elif e[0] in ("v", "ss"):
                pass
            else:
                return None
            if t is None:
                return None
        return t

    def op_ty(self, fr, o):
        if "c" in o:
            return o["c"]["t"]
        p = o.get("cp") or o.get("mv")
        if p is None:
            return None
        return self.dest_ty(fr, p)

    def unfloat(self, v, t):
        """integer read through a pointer to a float: the float's own bits"""
        if isinstance(v, Atom) and v.sort == "f":
            lo, hi = self.C.int_range(t)
            return L(mk(("bitsof", v, lo, hi), "i", lo, hi))
        return v

    def binop(self, st, fr, op, a, b, t, site):
        tk = self.T[t]["k"] if t is not None else None
        if tk == "int":
            a, b = self.unfloat(a, t), self.unfloat(b, t)
        if tk == "float" or (isinstance(a, Atom) and a.sort == "f"):
            bits = self.T[t]["bits"] if tk == "float" else 32
            return self.fbin(op, self.tofloat(a, bits), self.tofloat(b, bits), bits)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, B) or isinstance(b, B):
                a, b = self.tobool(a), self.tobool(b)
                if op == "Eq":
                    return bor(band(a, b), band(bnot(a), bnot(b)))
                if op == "Ne":
                    return bor(band(a, bnot(b)), band(bnot(a), b))
                if op == "Lt":
                    return band(bnot(a), b)
                if op == "Gt":
                    return band(a, bnot(b))
                if op == "Le":
                    return bor(bnot(a), b)
                return bor(a, bnot(b))
            while isinstance(a, Agg) and len(a.fields) == 1 and isinstance(b, (Lin, Agg)):
                a = a.fields[0]
            while isinstance(b, Agg) and len(b.fields) == 1 and isinstance(a, Lin):
                b = b.fields[0]
            if isinstance(a, (Agg, Sym)) or isinstance(b, (Agg, Sym)) or isinstance(a, Ref):
                if op == "Eq" and a == b:
                    return TRUE
                return lit(mk(("ptrcmp", op, site, st.ctx), "b", weak=True))
            a, b = self.toint(a), self.toint(b)
            if op == "Eq":
                return eq(a, b)
            if op == "Ne":
                return bnot(eq(a, b))
            if op == "Lt":
                return lt(a, b)
            if op == "Le":
                return le(a, b)
            if op == "Gt":
                return lt(b, a)
            return le(b, a)
        if op in ("BitAnd", "BitOr", "BitXor") and (isinstance(a, B) or isinstance(b, B)):
            a, b = self.tobool(a), self.tobool(b)
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            return bor(band(a, bnot(b)), band(bnot(a), b))
        a, b = self.toint(a), self.toint(b)
        rg = self.C.int_range(t) if t is not None else None
        if rg is None:
            rg = (0, (1 << 64) - 1)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            a, b = st.facts.norm(a), st.facts.norm(b)
            if base == "Add":
                x = a + b
            elif base == "Sub":
                x = a - b
            else:
                x = self.mul(st, a, b)
            if op.endswith("WithOverflow"):
                ovf = bor(lt(Lin(rg[1]), x), lt(x, Lin(rg[0])))
                return Agg(None, 0, (x, ovf))
            if op.endswith("Unchecked"):
                return x
            return self.fit(st, x, rg)
        if base == "Div":
            return self.div(st, a, b, rg)
        if base == "Rem":
            return mk_rem(a, b, rg[0] == 0)
        if base == "BitAnd":
            return mk_and(a, b, rg)
        if base == "BitOr":
            return mk_or(a, b, rg)
        if base == "BitXor":
            return mk_or(a, b, rg, "xor")
        if base == "Shl":
            return self.shl(st, a, b, rg)
        if base == "Shr":
            return self.shr(st, a, b, rg)
        if base == "Cmp":
            raise Undecided("three-way compare")
        if base == "Offset":
            return UNINIT
        raise Undecided(f"binop {op}")

    def fit(self, st, x, rg):
        lo, hi = st.facts.bounds(x)
        if rg[0] <= lo and hi <= rg[1]:
            return x
        if st.facts.decide(band(le(x, Lin(rg[1])), le(Lin(rg[0]), x))) is True:
            return x
        return mk_wrap(x, rg)

    def mul(self, st, a, b):
        r = mk_mul(a, b)
        at = r.single()
        if at is not None and at.key[0] == "mul":
            al, ah = st.facts.bounds(a)
            bl, bh = st.facts.bounds(b)
            if al >= 0 and bl >= 0:
                if ah < INF and bh < INF and ah * bh < at.hi:
                    st.facts.assume(le(r, Lin(ah * bh)))
                # monotone facts a*b <= ah*b and a*b <= a*bh
                if ah < INF:
                    st.facts.assume(le(r, b.scale(ah)))
                if bh < INF:
                    st.facts.assume(le(r, a.scale(bh)))
                if bl >= 1:
                    st.facts.assume(le(a, r))
                if al >= 1:
                    st.facts.assume(le(b, r))
        return r

    def div(self, st, a, b, rg):
        a, b = st.facts.norm(a), st.facts.norm(b)
        r = mk_div(a, b, rg[0] == 0)
        at = r.single()
        if at is not None and at.key[0] == "div" and at.lo < 0:
            st.facts.assume(le(Lin(0), r))
        if at is not None and at.key[0] == "divv":
            if st.facts.bounds(b)[0] >= 1 and st.facts.bounds(a)[0] >= 0:
                st.facts.assume(le(r, a))
                st.facts.assume(le(Lin(0), r))
        return r

    def shl(self, st, a, b, rg):
        a, b = st.facts.norm(a), st.facts.norm(b)
        if b.is_const() and 0 <= b.c < 128:
            return self.fit(st, a.scale(1 << b.c), rg)
        bl, bh = st.facts.bounds(b)
        width = (rg[1] - rg[0] + 1).bit_length() - 1
        if a == Lin(1) and bl >= 0:
            p = self.pow2(st, b)
            if bh <= width - (1 if rg[0] == 0 else 2):
                return p
            return mk_wrap(p, rg)
        if bl >= 0 and bh < width:
            al, ah = st.facts.bounds(a)
            if al >= 0 and ah < INF and ah << bh <= rg[1]:
                r = self.mul(st, a, self.pow2(st, b))
                return r
        at = mk(("shl", a, b, rg[1]), "i", *rg)
        return L(at)

    def pow2(self, st, b):
        # powers next to a leading-zeros count share one term: 2^(k - clz) = 2^j * 2^(n - 1 - clz)
        if len(b.t) == 1 and b.t[0][1] == -1 and b.t[0][0].key[0] == "clz":
            n = b.t[0][0].key[2]
            if b.c > n - 1 and b.c <= n + 8 and st.facts.bounds(L(b.t[0][0]))[1] <= n - 1:
                return self.pow2(st, b - (b.c - (n - 1))).scale(1 << (b.c - (n - 1)))
        r = L(mk(("pow2", b), "i", 1, 1 << 127))
        bl, bh = st.facts.bounds(b)
        if bh <= 127:
            st.facts.assume(le(r, Lin(1 << int(bh))))
            if bl >= 0:
                st.facts.assume(le(Lin(1 << int(bl)), r))
        return r

    def shr(self, st, a, b, rg):
        a, b = st.facts.norm(a), st.facts.norm(b)
        if b.is_const() and 0 <= b.c < 128 and (rg[0] == 0 or st.facts.bounds(a)[0] >= 0):
            return mk_div(a, Lin(1 << b.c))
        lo, hi = interval(a)
        at = mk(("shr", a, b), "i", 0 if lo >= 0 else rg[0], hi if lo >= 0 else rg[1])
        if lo >= 0 and not at.axioms:
            at.axioms = (L(at) - a,)
        r = L(at)
        bl, bh = st.facts.bounds(b)
        ah = st.facts.bounds(a)[1]
        if bl >= 0 and bl != INF and ah < INF:
            st.facts.assume(le(r, Lin(int(ah) >> int(bl))))
        return r

    # ---- floats
    def fbin(self, op, a, b, bits):
        if op in ("Add", "Sub", "Mul", "Div", "Rem"):
            return farith(op, a, b, bits)
        if op == "Eq":
            return flit("feq", *sorted((a, b), key=lambda q: q.id))
        if op == "Ne":
            return bnot(flit("feq", *sorted((a, b), key=lambda q: q.id)))
        if op == "Lt":
            return flit("flt", a, b)
        if op == "Gt":
            return flit("flt", b, a)
        if op == "Le":
            return flit("fle", a, b)
        if op == "Ge":
            return flit("fle", b, a)
        raise Undecided(f"float op {op}")

    def cast(self, st, fr, kind, v, tf, tt, site):
        x = self.T[tt]
        k = x["k"]
        if kind.startswith("coerce"):
            return v
        if kind == "BoxDerefTransmute" and isinstance(v, Nat) and v.tag == "box":
            return v.args[0]
        if kind == "IntToInt":
            if isinstance(v, Agg) and not v.fields:
                v = self.discr(v)
            elif isinstance(v, Sym):
                v = self.discr(v)
            v = self.toint(v)
            rg = self.C.int_range(tt)
            return self.fit(st, v, rg)
        if kind == "IntToFloat":
            if tf is not None and self.C.int_range(tf):
                v = self.unfloat(v, tf)
            return i2f(self.toint(v), x["bits"])
        if kind == "FloatToInt":
            rg = self.C.int_range(tt)
            f = self.tofloat(v)
            c = fval(f)
            if c is not None:
                if c != c:
                    return Lin(0)
                if c in (INF, -INF):
                    return Lin(rg[1] if c > 0 else rg[0])
                return Lin(max(rg[0], min(rg[1], int(c))))
            return L(mk(("f2i", f, rg[0], rg[1]), "i", rg[0], rg[1]))
        if kind == "FloatToFloat":
            f = self.tofloat(v)
            return fcast(f, x["bits"])
        if kind in ("PtrToPtr", "FnPtrToPtr", "Transmute", "PointerExposeProvenance", "Subtype"):
            if kind == "Transmute" and not isinstance(v, Ref):
                return self.unknown(st, tt, site, "transmute")
            return v
        return self.unknown(st, tt, site, "cast")

    # ------------------------------------------------------------ terminators
    def terminator(self, fr, b, t, st):
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            return self.switch(fr, b, t, st)
        if k == "assert":
            c = self.tobool(self.operand(st, fr, t["c"]))
            if not t["exp"]:
                c = bnot(c)
            m = t["m"]
            note = m[0]
            if m[0] == "overflow":
                note = "overflow:" + m[1]
            self.oblige(st, fr, "assert:" + note, c, t["l"])
            return [(t["to"], st)] if not st.facts.bad else []
        if k == "drop":
            outs = self.drop(fr, b, t, st)
            return [(t["to"], s) for s in outs]
        if k == "call":
            return self.callterm(fr, b, t, st)
        if k == "yield":
            # the awaited future is never pending in this model
            return []
        if k in ("unreachable", "unwind"):
            return []
        raise Undecided(f"terminator {k}")

    def switch(self, fr, b, t, st):
        v = self.operand(st, fr, t["on"])
        outs = []
        if isinstance(v, B):
            rest = TRUE
            tgts = {}
            for val, tgt in t["v"]:
                f = v if int(val) else bnot(v)
                tgts.setdefault(tgt, []).append(f)
                rest = band(rest, bnot(f))
            tgts.setdefault(t["else"], []).append(rest)
            cases = [(tgt, bor(*fs)) for tgt, fs in tgts.items()]
        else:
            l = st.facts.norm(self.toint(v))
            tk = self.T[t["t"]]
            fs = []
            for val, tgt in t["v"]:
                val = int(val)
                if tk["k"] == "int" and tk["signed"] and val >> (tk["bits"] - 1):
                    val -= 1 << tk["bits"]
                fs.append((tgt, eq(l, Lin(val))))
            tg = {}
            for tgt, f in fs:
                tg.setdefault(tgt, []).append(f)
            tg.setdefault(t["else"], []).append(band(*[bnot(f) for _, f in fs]))
            cases = [(tgt, bor(*x)) for tgt, x in tg.items()]
        live = []
        for tgt, f in cases:
            d = st.facts.decide(f)
            if d is False:
                continue
            live.append((tgt, f, d))
            if d is True:
                live = [(tgt, f, d)]
                break
        if len(live) == 1 and live[0][2] is True:
            return [(live[0][0], st)]
        for i, (tgt, f, d) in enumerate(live):
            s = st.fork() if i < len(live) - 1 else st
            s.facts.assume(f)
            if not s.facts.bad:
                outs.append((tgt, s))
        return outs

    # ---- drops
    def has_drop(self, t, d=0):
        x = self.T[t]
        if x["k"] == "adt":
            if x.get("drop") is not None:
                return True
            p = x["path"]
            if p == "alloc::io::buffered::bufwriter::BufWriter":
                return True
            if x.get("local") and d < 4:
                for v in x.get("variants") or []:
                    for f in v["fields"]:
                        if self.has_drop(f["ty"], d + 1):
                            return True
        return False

    def drop(self, fr, b, t, st):
        if not self.has_drop(t["t"]):
            # values without interesting drop glue; forget whole locals
            p = t["p"]
            if len(p) == 1 and isinstance(st.mem.get((fr.fid, p[0])), (Agg, Sym, Seq, Nat)):
                st.mem[(fr.fid, p[0])] = MOVED
            return [st]
        loc, path, rng, _ = self.place(st, fr, t["p"])
        v = self.read(st, loc, path)
        if v is MOVED or v is UNINIT:
            return [st]
        x = self.T[t["t"]]
        outs = [st]
        if x.get("drop") is not None:
            h = self.cuts.get("drop:" + x["path"])
            if h is not None:
                outs = h(self, st, fr, Ref(loc, path), (fr.fid, b), t)
            else:
                outs = [s for s, _ in self.call_inst(fr, x["drop"], [Ref(loc, path)], st, (b, "drop"))]
        for s in outs:
            if not path:
                s.mem[loc] = MOVED
        return outs

    # ---- calls
    def callterm(self, fr, b, t, st):
        f = t["f"]
        args = [self.operand(st, fr, a) for a in t["a"]]
        res = self.dispatch(st, fr, f, args, t["at"], t["dt"], (fr.fid, b), t["l"])
        outs = []
        if t["to"] is None:
            return []
        for s, v in res:
            if s.facts.bad:
                continue
            self.assign(s, fr, t["d"], v)
            outs.append((t["to"], s))
        return outs

    def key(self, f):
        return f.get("rpath") or f.get("path")

    def dispatch(self, st, fr, f, args, at, dt, site, line):
        if "op" in f:
            fv = self.operand(st, fr, f["op"])
            return self.call_value(st, fr, fv, args, dt, site, line)
        k = self.key(f)
        self.called[k] = self.called.get(k, 0) + 1
        if f.get("ctor"):
            return [(st, self.construct(f, args, dt))]
        if f.get("trait") in ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce") and len(args) == 2:
            tup = args[1]
            if isinstance(tup, Sym):
                tup = self.expand(tup)
            if isinstance(tup, Agg):
                return self.call_value(st, fr, args[0], list(tup.fields), dt, site, line)
        h = self.cuts.get(k)
        if h is not None:
            r = h(self, st, fr, f, args, at, dt, site, line)
            if r is not None:
                return r
        inst = f.get("inst")
        x = self.C.insts[inst] if inst is not None else None
        local = bool(x and x.get("body") and x.get("local"))
        h = None
        if not local or f.get("trait") == "core::future::future::Future":
            h = self.models.lookup(k, f)
        if h is not None:
            ctx = CallCtx(self, st, fr, f, args, at, dt, site, line)
            r = h(ctx)
            if r is not None:
                return r
            self.declined[k] = self.declined.get(k, 0) + 1
        if x and x.get("body"):
            return self.call_inst(fr, inst, args, st, (site[1], "c"), dt)
        return self.unmodelled_call(st, fr, f, args, at, dt, site, line)

    def note_unmodelled(self, k):
        self.unmodelled[k] = self.unmodelled.get(k, 0) + 1
        UNMODELLED[k] = UNMODELLED.get(k, 0) + 1

    def unmodelled_call(self, st, fr, f, args, at, dt, site, line):
        k = self.key(f)
        self.note_unmodelled(k)
        # whatever unknown code can reach through a mutable reference may be changed
        muts = []
        for a, ty in zip(args, at):
            self.reach_mut(st, a, ty, muts, set())
        for n, a in enumerate(muts):
            old = self.deref(st, a)
            if old is not UNINIT and a.loc[0] != "k":
                self.store(st, a, self._havoc(st, old, ("unk", site, st.ctx) if n == 0 else ("unk", site, st.ctx, n)))
        return [(st, self.unknown(st, dt, site, "unk"))]

    def reach_mut(self, st, v, ty, out, seen):
        """collect the mutable references an argument gives access to"""
        if isinstance(v, Ref):
            k = self.T[ty] if ty is not None else None
            if k is not None and k["k"] not in ("ref", "ptr") or v in seen:
                return
            seen.add(v)
            mut = k is None or k["mut"]
            try:
                inner = self.deref(st, v)
            except Exception:
                return
            if mut:
                out.append(v)
            self.reach_mut(st, inner, k["to"] if k is not None else None, out, seen)
        elif isinstance(v, Agg) and v.ty is not None:
            for i, x in enumerate(v.fields):
                if isinstance(x, (Ref, Agg, Nat, SLit)):
                    self.reach_mut(st, x, self.field_ty(v.ty, v.variant, i), out, seen)
        elif isinstance(v, Agg):
            for x in v.fields:
                self.reach_mut(st, x, None, out, seen)
        elif isinstance(v, Nat):
            # library objects carry no types: a reference they hold is mutable if the type says so anywhere
            mut = ty is None or "Mut" in self.C.txt(ty) or "&mut" in self.C.txt(ty) or "&'{erased} mut" in self.C.txt(ty)
            for x in v.args:
                if isinstance(x, Ref) and not mut:
                    continue
                self.reach_mut(st, x, None, out, seen)
        elif isinstance(v, SLit):
            for x in v.items:
                if isinstance(x, (Ref, Agg, Nat)):
                    self.reach_mut(st, x, v.elem, out, seen)

    def construct(self, f, args, dt):
        x = self.T[dt]
        nm = f["name"]
        vs = x.get("variants") or []
        for i, v in enumerate(vs):
            if v["name"] == nm:
                return Agg(dt, i, args)
        return Agg(dt, 0, args)

    def call_inst(self, fr, inst, args, st, where, dt=None):
        """analyse a function in the current context"""
        x = self.C.insts[inst]
        name = x["path"]
        meas = None
        if inst in self.stack or len(self.stack) > 60:
            meas = self.measure(st, args)
            if len(self.stack) > 60 or meas is None or meas in [m for i, m in zip(self.stack, self.meas) if i == inst] \
                    or sum(1 for i in self.stack if i == inst) > 20:
                return self.recursive(fr, inst, args, st, where, dt)
        body = self.C.body(inst)
        if body is None:
            return [(st, self.unknown(st, dt, (fr.fid,) + where, "nobody"))]
        if inst in self.opt.get("split_contract", ()):
            r = self.split_hypothesis(st, inst, args, (fr.fid,) + where, body.locals[0])
            if r is not None:
                return r
        nf = Frame()
        nf.inst = inst
        nf.body = body
        nf.fid = self.fid(fr.fid if fr else -1, where, inst)
        nf.name = name
        nf.chain = (fr.chain if fr else ()) + (name,)
        self.bind(nf, body, x, args, st)
        if meas is None:
            meas = self.measure(st, args)
        self.stack.append(inst)
        self.meas.append(meas)
        try:
            outs = self.run_body(nf, st)
        finally:
            self.stack.pop()
            self.meas.pop()
        hk = self.hooks_exit.get(name)
        if hk is not None:
            hk(self, nf, args, outs)
        return self.merge_returns(nf, outs)

    def measure(self, st, args):
        """constants in the state a recursive function works on: a recursion in which they change is
        unrolled (a state machine stepping through its states), any other is summarised"""
        if not args or not isinstance(args[0], Ref) or args[0].rng is not None:
            return None
        try:
            v = self.deref(st, args[0])
        except Undecided:
            return None
        if not isinstance(v, Agg):
            return None
        m = tuple((i, st.facts.norm(x).c) for i, x in enumerate(v.fields) if isinstance(x, Lin) and st.facts.norm(x).is_const())
        return m or None

    def bind(self, nf, body, x, args, st):
        n = body.argc
        if body.spread is not None:
            # arguments from spread_arg on are passed as one tuple
            sp = body.spread
            fixed = args[:sp - 1]
            rest = args[sp - 1:]
            if len(rest) == n - sp + 1 and n >= sp:
                tup = rest[0] if len(rest) == 1 else Agg(None, 0, rest)
            else:
                tup = Agg(None, 0, rest)
            args = list(fixed) + [tup]
        elif len(args) != n:
            # closure call: (closure, (a, b, c))
            if len(args) == 2 and isinstance(args[1], (Agg, Sym)) :
                tup = self.expand(args[1])
                args = [args[0]] + list(tup.fields)
        for i, a in enumerate(args):
            st.mem[(nf.fid, i + 1)] = a

    def merge_returns(self, nf, outs):
        outs = [(s, v) for s, v in outs if not s.facts.bad]
        if len(outs) <= 1:
            return outs
        loc = (nf.fid, "rv")
        for s, v in outs:
            s.mem[loc] = v
        sts = self.merge_states([s for s, _ in outs], (nf.fid, "ret"), self.cap)
        res = []
        for s in sts:
            v = s.mem.pop(loc)
            res.append((s, v))
        return res

    def split_hypothesis(self, st, inst, args, site, dt):
        """induction hypothesis for a recursive function that cuts a slice into a list of slices: the
        list holds the slice itself or two adjacent parts of it, in order. Whether the function keeps
        the hypothesis is decided where the pieces are put together again (C22)."""
        e = self.C.elem_of(dt) if dt is not None else None
        if e is None or self.C.types[e]["k"] != "ref":
            return None
        b = self.C.body(inst)
        for i, a in enumerate(args):
            if b.locals[i + 1] == e and isinstance(a, Ref):
                break
        else:
            return None
        s, n = a.rng if a.rng is not None else (Lin(0), self.deref(st, a).len)
        out = [(st.fork(), SLit(e, [a]))]
        cut = L(mk(("cut", site, st.ctx), "i", 0, 1 << 62))
        st.facts.assume(le(cut, n))
        if not st.facts.bad and self.opt["split_rec"] > 1:
            out.append((st, SLit(e, [Ref(a.loc, a.path, (s, cut)), Ref(a.loc, a.path, (s + cut, n - cut))])))
        return out

    def recursive(self, fr, inst, args, st, where, dt):
        x = self.C.insts[inst]
        name = x["path"]
        h = self.cuts.get("rec:" + name)
        if h is not None:
            return h(self, st, fr, args, dt, (fr.fid,) + where)
        if self.opt.get("split_rec"):
            r = self.split_hypothesis(st, inst, args, (fr.fid,) + where, dt)
            if r is not None:
                return r
        if self.opt.get("base_case"):
            self.dropped.append((name, st.facts))
            return []
        self.note_unmodelled("recursion:" + name)
        return [(st, self.unknown(st, dt, (fr.fid,) + where, "rec"))] if dt is not None else [(st, UNINIT)]

    def call_value(self, st, fr, fv, args, dt, site, line):
        """call a closure / function value"""
        v = fv
        r = None
        if isinstance(v, Ref):
            r = v
            v = self.deref(st, v)
            while isinstance(v, Ref):
                r = v
                v = self.deref(st, v)
        if isinstance(v, FnV):
            x = self.T[v.callee]
            f = x["callee"]
            at = x.get("ins") or [None] * len(args)
            if len(at) != len(args):
                at = [None] * len(args)
            if dt is None:
                dt = x.get("ret")
            if dt is None:
                raise Undecided("call of fn value without type")
            return self.dispatch(st, fr, f, args, at, dt, site + ("fv",), line)
        if isinstance(v, Agg) and v.ty is not None and self.tk(v.ty) == "closure":
            x = self.T[v.ty]
            inst = x["inst"]
            body = self.C.body(inst)
            st_ty = self.T[body.locals[1]]["k"]
            tmp = None
            if st_ty == "ref":
                if r is None:
                    tmp = ("t", site, "clo")
                    st.mem[tmp] = v
                    r = Ref(tmp, ())
                a0 = r
            else:
                a0 = v
            outs = self.call_inst(fr, inst, [a0] + list(args), st, (site[-1] if not isinstance(site[-1], tuple) else site, "cl"), dt)
            if tmp is not None:
                for s, _ in outs:
                    s.mem.pop(tmp, None)
            return outs
        self.note_unmodelled("call-value")
        return [(st, self.unknown(st, dt, site, "cv"))]

    # ---- coroutines (futures are polled to completion)
    def run_future(self, st, fr, fut, dt, site, line):
        """-> list of (state, output)"""
        r = None
        v = fut
        while isinstance(v, Ref):
            r = v
            v = self.deref(st, v)
        if isinstance(v, Nat):
            from . import models
            h = models.FUTURES.get(v.tag)
            if h is not None:
                return h(self, st, fr, v, dt, site, line)
        if isinstance(v, Agg) and v.ty is not None and self.tk(v.ty) == "coroutine":
            inst = self.T[v.ty]["inst"]
            return self.call_inst(fr, inst, [v, UNINIT], st, (site[-1] if not isinstance(site[-1], tuple) else site, "fut"), self.T[v.ty]["ret"])
        if isinstance(v, Sym) and isinstance(v.base, Atom) and v.base.key[0] == "sel" and isinstance(v.base.key[1], SLit):
            # one of a list of futures, by an index that is not known
            from . import models
            res = []
            items, i = v.base.key[1].items, v.base.key[2]
            rest = st
            for n, x in enumerate(items):
                if rest is None:
                    break
                a, rest = models.fork_on(rest, eq(i, Lin(n)))
                if a is not None:
                    res.extend(self.run_future(a, fr, x, dt, site + (n,), line))
            return res
        d = term_deps(v) if isinstance(v, Sym) else EMPTY
        if isinstance(v, Const) or any(x.weak for x in d) and not any(x.unk for x in d):
            # one of several futures: which one was lost in a join
            return [(st, self.symval(dt, ("phi", "fut", site, st.ctx), weak=True))]
        self.note_unmodelled("future")
        return [(st, self.unknown(st, dt, site, "fut?"))]

    # ------------------------------------------------------------ entry
    def analyse(self, inst, args=None, st=None, setup=None):
        """analyse a root with symbolic arguments; -> list of (state, return value)"""
        x = self.C.insts[inst]
        body = self.C.body(inst)
        st = st or State()
        fr = Frame()
        fr.inst = inst
        fr.body = body
        fr.fid = self.fid(-1, "root", inst)
        fr.name = x["path"]
        fr.chain = (x["path"],)
        if args is None:
            args = [self.symval(body.locals[i + 1], ("arg", i)) for i in range(body.argc)]
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        if setup:
            setup(self, st, args)
        self.stack.append(inst)
        self.meas.append(self.measure(st, args))
        try:
            outs = self.run_body(fr, st)
        finally:
            self.stack.pop()
            self.meas.pop()
        # an async function is driven to completion
        res = []
        for s, v in outs:
            if isinstance(v, Agg) and v.ty is not None and self.tk(v.ty) == "coroutine":
                for s2, v2 in self.run_future(s, fr, v, None, (fr.fid, "await"), None):
                    if not s2.facts.bad:
                        res.append((s2, v2))
            elif not s.facts.bad:
                res.append((s, v))
        return res


class CallCtx:
    """everything a library model needs"""
    __slots__ = ("e", "st", "fr", "f", "a", "at", "dt", "site", "line")

    def __init__(self, e, st, fr, f, a, at, dt, site, line):
        self.e = e
        self.st = st
        self.fr = fr
        self.f = f
        self.a = a
        self.at = at
        self.dt = dt
        self.site = site
        self.line = line

    def ret(self, v):
        return [(self.st, v)]

    def with_args(self, st, a):
        return CallCtx(self.e, st, self.fr, self.f, a, self.at, self.dt, self.site, self.line)

    def fn(self):
        return self.e.key(self.f)

    def fresh(self, tag, t=None, weak=False):
        return self.e.symval(self.dt if t is None else t, (tag, self.site, self.st.ctx), weak=weak)

    def arg(self, i, st=None):
        """argument i with references followed to the value"""
        v = self.a[i]
        st = st or self.st
        while isinstance(v, Ref):
            v = self.e.deref(st, v)
        return v

    def targ(self, i):
        """i-th type argument"""
        a = self.f.get("args") or []
        if i < len(a) and isinstance(a[i], int):
            return a[i]
        return None


# ------------------------------------------------------------------ float helpers
def float_bits(b, bits):
    import struct
    if bits == 32:
        f = struct.unpack("<f", (b & 0xFFFFFFFF).to_bytes(4, "little"))[0]
    else:
        f = struct.unpack("<d", b.to_bytes(8, "little"))[0]
    return fconst_(f, bits)


def fconst_(f, bits):
    if f != f:
        return mk(("fnan", bits), "f", ty=bits)
    if f == 0 and str(f).startswith("-"):
        return mk(("fnegzero", bits), "f", ty=bits)
    return mk(("fconst", f), "f", ty=bits)


def fval(a):
    k = a.key
    if k[0] == "fconst":
        return k[1]
    if k[0] == "fnan":
        return float("nan")
    return None


def fneg(a):
    k = a.key
    if k[0] == "fneg":
        return k[1]
    if k[0] == "fconst":
        return fconst_(-k[1], a.ty)
    return mk(("fneg", a), "f", ty=a.ty)


def farith(op, a, b, bits):
    x, y = fval(a), fval(b)
    if x is not None and y is not None and op != "Rem":
        import struct
        try:
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y}[op]()
            if bits == 32:
                r = struct.unpack("<f", struct.pack("<f", r))[0]
            return fconst_(r, bits)
        except (ZeroDivisionError, OverflowError):
            pass
    n = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}[op]
    return mk((n, a, b, bits), "f", ty=bits)


def fcast(f, bits):
    if f.ty == bits:
        return f
    v = fval(f)
    if v is not None:
        import struct
        if bits == 32:
            try:
                v = struct.unpack("<f", struct.pack("<f", v))[0]
            except OverflowError:
                v = INF if v > 0 else -INF
        return fconst_(v, bits)
    if f.key[0] == "fcast":
        src = f.key[1]
        if src.ty == bits:
            return src
    return mk(("fcast", f, bits), "f", ty=bits)


def i2f(l, bits):
    if l.is_const():
        import struct
        v = float(l.c)
        if bits == 32:
            v = struct.unpack("<f", struct.pack("<f", v))[0]
        return fconst_(v, bits)
    return mk(("i2f", l, bits), "f", ty=bits)


def flit(op, a, b):
    x, y = fval(a), fval(b)
    if x is not None and y is not None:
        r = {"feq": x == y, "flt": x < y, "fle": x <= y}[op]
        return TRUE if r else FALSE
    return lit(mk((op, a, b), "b"))
