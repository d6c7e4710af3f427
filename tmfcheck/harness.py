"""Abstract drivers: build abstract inputs (byte streams, meshes) for the public entry points and
run the abstract interpreter on them."""
import time
from .terms import *
from .values import *
from .interp import Engine, State, Undecided
from . import contracts

MAXL = (1 << 47)


class Run:
    """one abstract run"""

    def __init__(self, crate, **kw):
        self.C = crate
        self.e = Engine(crate, **kw)
        contracts.install(self.e)
        self.u8 = crate.u8()
        self.t0 = time.time()

    # ---- pieces of a byte stream
    def lit(self, bs):
        if isinstance(bs, str):
            bs = bs.encode()
        return SLit(self.u8, [Lin(b) for b in bs])

    def num(self, v, n):
        """n byte little endian number; v is an int or a term"""
        if isinstance(v, int):
            return SLit(self.u8, [Lin(b) for b in v.to_bytes(n, "little")])
        if n == 1:
            return SLit(self.u8, [v])
        return SLe(self.u8, v, n, "le")

    def sym(self, name, n):
        """symbolic n byte number"""
        return L(mk(("in", name), "i", 0, (1 << (8 * n)) - 1))

    def blob(self, name, length=None):
        a = mk(("in", name), "o")
        if length is None:
            length = L(mk(("len", a), "i", 0, MAXL))
        return SSym(self.u8, a, length)

    def text(self, name, length):
        """a `str` of arbitrary content"""
        return self.blob("text:" + name, length)

    def cat(self, *parts):
        return mk_cat(self.u8, parts)

    def header(self, meshes=1, minver=(0, 2), ver=(0, 2)):
        return self.cat(self.lit("TMF"), self.num(ver[0], 2), self.num(ver[1], 2), self.num(minver[0], 2),
                        self.num(minver[1], 2), self.num(meshes, 4))

    # ---- state helpers
    def state(self):
        st = State()
        return st

    def place(self, st, name, v):
        loc = ("t", "in", name)
        st.mem[loc] = v
        return Ref(loc, ())

    def slice_reader(self, st, data, name="src"):
        """a &mut &[u8]"""
        d = self.place(st, name + ".data", data)
        s = self.place(st, name, Ref(d.loc, (), (Lin(0), data.len)))
        return s

    def inst(self, path):
        i = self.C.root(path)
        if i is None:
            c = [k for k, x in enumerate(self.C.insts) if x and x["path"] == path and x.get("body")]
            i = c[0] if c else None
        return i

    def call(self, path, args, st):
        i = self.inst(path)
        if i is None:
            raise KeyError(path)
        return self.e.analyse(i, args=list(args), st=st)

    def chain(self, path, outs, argf, keep=None):
        """call path in every outcome state; argf(state, value) -> args or None to skip"""
        res = []
        for s, v in outs:
            a = argf(s, v)
            if a is None:
                continue
            res.extend(self.call(path, a, s))
        return res

    # ---- looking at results
    def vname(self, v):
        """variant name of an enum value (None when unknown)"""
        if isinstance(v, Agg) and v.ty is not None:
            vs = self.e.variants(v.ty)
            if vs:
                return vs[v.variant]["name"]
        return None

    def result(self, st, v):
        """('Ok', payload) / ('Err', name, payload)"""
        n = self.vname(v)
        if n == "Ok":
            return ("Ok", v.fields[0] if v.fields else UNIT)
        if n == "Err":
            er = v.fields[0]
            return ("Err", self.errname(st, er), er)
        return ("?", v)

    def errname(self, st, er):
        n = self.vname(er)
        if n is not None:
            return n
        if isinstance(er, Sym):
            vs = self.e.variants(er.ty)
            if vs:
                d = self.e.discr(er)
                for q in vs:
                    if st.facts.decide(eq(d, Lin(int(q["discr"])))) is True:
                        return q["name"]
        return None

    def fieldv(self, v, name):
        """named field of a struct value"""
        if isinstance(v, Sym):
            v = self.e.expand(v)
        vs = self.e.variants(v.ty)
        for i, f in enumerate(vs[v.variant]["fields"]):
            if f["name"] == name:
                return v.fields[i]
        raise KeyError(name)
