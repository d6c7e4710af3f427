"""Bit provenance: a forward data-flow analysis in which every bit of every integer is 0, 1, a named
source bit or one of two unknowns.

The functions analysed here (the bit packer and unpacker) decide everything they do by widths, positions
and counts; only the data they move is unknown. So the domain keeps counts as constants and data as
vectors of named bits. Paths fork where a call has several outcomes (how many bytes a read delivers) and
join again when they reach the same block with the same abstract memory.

Bits: 0, 1, n >= 2 (a source bit), LOST (a value the domain cannot follow), MIX (a combination of
different source bits, or a bit left over from data already consumed: never equal to a source bit).
"""

LOST, MIX = -1, -2


class Unsupported(Exception):
    pass


class BV(tuple):
    """symbolic integer, least significant bit first"""
    __slots__ = ()


class Agg(tuple):
    """(variant, field, ...)"""
    __slots__ = ()


class Arr(tuple):
    __slots__ = ()


class Ref(tuple):
    """(frame, local, path): path entries are field numbers ('f', i), elements ('i', i), ranges ('r', lo, hi)"""
    __slots__ = ()


class Fn(tuple):
    """(inst,)"""
    __slots__ = ()


class Opaque(tuple):
    """(what,)"""
    __slots__ = ()


UNIT = Agg((0,))


def ok(v):
    return Agg((0, v))


def err(v=Opaque(("error",))):
    return Agg((1, v))


def some(v):
    return Agg((1, v))


NONE = Agg((0,))


def bits_of(v, w):
    if isinstance(v, BV):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return tuple((v >> i) & 1 for i in range(w))
    raise Unsupported(f"not an integer: {v!r}")


def pack(bs):
    """a bit list as a constant when it is one"""
    r = 0
    for i, b in enumerate(bs):
        if b == 1:
            r |= 1 << i
        elif b != 0:
            return BV(bs)
    return r


def b_or(a, b):
    if a == b or b == 0:
        return a
    if a == 0:
        return b
    if a == 1 or b == 1:
        return 1
    return LOST if LOST in (a, b) else MIX


def b_and(a, b):
    if a == b or b == 1:
        return a
    if a == 1:
        return b
    if a == 0 or b == 0:
        return 0
    return LOST if LOST in (a, b) else MIX


def b_xor(a, b):
    if b == 0:
        return a
    if a == 0:
        return b
    if a == b:
        return 0 if a >= 0 else a
    if a == 1 and b == 1:
        return 0
    return LOST


def b_not(a):
    return 1 - a if a in (0, 1) else LOST


class State:
    __slots__ = ("stack", "mem", "ghost", "lossy")

    def __init__(self):
        self.stack = []          # [inst, block, frame, destination place or None]
        self.mem = {}            # frame -> list of values
        self.ghost = {}
        self.lossy = False       # some branch was decided without knowing the condition

    def fork(self):
        s = State()
        s.stack = [list(x) for x in self.stack]
        s.mem = {k: list(v) for k, v in self.mem.items()}
        s.ghost = dict(self.ghost)
        s.lossy = self.lossy
        return s

    def key(self):
        return (tuple((x[0], x[1], x[2]) for x in self.stack), tuple((k, tuple(v)) for k, v in self.mem.items()),
                tuple(sorted(self.ghost.items())), self.lossy)


class Out:
    __slots__ = ("ret", "state", "panic")

    def __init__(self, ret, state, panic=None):
        self.ret = ret
        self.state = state
        self.panic = panic


class Machine:
    LIMIT = 400000

    def __init__(self, crate, io):
        self.C = crate
        self.T = crate.types
        self.io = io             # model of the byte source and sink: io(machine, state, name, args) -> [(state, value)] or None
        self.summaries = {}
        self.steps = 0
        self.used = set()
        self._w = {}

    # ---------------------------------------------------------------- types
    def width(self, t):
        r = self._w.get(t)
        if r is None:
            x = self.T[t] if t is not None else {"k": "?"}
            k = x["k"]
            r = (x["bits"], x["signed"]) if k == "int" else (1, False) if k == "bool" else (32, False) if k == "char" else (0, False)
            self._w[t] = r
        return r

    def place_ty(self, body, p):
        t = body.locals[p[0]]
        for e in p[1:]:
            k = e[0]
            if k == "f":
                t = e[2]
            elif k == "*":
                x = self.T[t]
                t = x.get("to")
                if t is None:
                    raise Unsupported("dereference of " + x.get("txt", "?"))
            elif k in ("i", "ci"):
                t = self.C.elem_of(t)
            elif k == "v" or k == "ss":
                pass
            else:
                raise Unsupported("projection " + k)
        return t

    def op_ty(self, body, o):
        c = o.get("c")
        if c is not None:
            return c["t"]
        return self.place_ty(body, o.get("cp") or o.get("mv"))

    # ---------------------------------------------------------------- memory
    def resolve(self, st, fid, p):
        """place -> (frame, local, path)"""
        f, l, path = fid, p[0], ()
        for e in p[1:]:
            k = e[0]
            if k == "f":
                path += (("f", e[1]),)
            elif k == "*":
                r = self.load(st, f, l, path)
                if not isinstance(r, Ref):
                    raise Unsupported(f"dereference of {type(r).__name__}")
                f, l, path = r
            elif k == "i":
                i = st.mem[fid][e[1]]
                if not isinstance(i, int):
                    raise Unsupported("unknown index")
                path = self.elem(path, i)
            elif k == "ci":
                if len(e) > 3 and e[3]:
                    n = self.length(st, f, l, path)
                    path = self.elem(path, n - e[1])
                else:
                    path = self.elem(path, e[1])
            elif k == "v":
                pass
            else:
                raise Unsupported("projection " + k)
        return f, l, path

    def elem(self, path, i):
        if path and path[-1][0] == "r":
            return path[:-1] + (("i", path[-1][1] + i),)
        return path + (("i", i),)

    def length(self, st, f, l, path):
        if path and path[-1][0] == "r":
            return path[-1][2] - path[-1][1]
        v = self.load(st, f, l, path)
        if isinstance(v, Arr):
            return len(v)
        raise Unsupported("length of " + type(v).__name__)

    def load(self, st, f, l, path):
        v = f[1] if isinstance(f, tuple) else st.mem[f][l]
        for e in path:
            k = e[0]
            if k == "f":
                if not isinstance(v, Agg) or e[1] + 1 >= len(v):
                    raise Unsupported(f"field of {type(v).__name__}")
                v = v[e[1] + 1]
            elif k == "i":
                if not isinstance(v, Arr):
                    raise Unsupported("element of " + type(v).__name__)
                v = v[e[1]]
            else:
                if not isinstance(v, Arr):
                    raise Unsupported("range of " + type(v).__name__)
                v = Arr(v[e[1]:e[2]])
        return v

    def store(self, st, f, l, path, x):
        if isinstance(f, tuple):
            raise Unsupported("write to a constant")
        if not path:
            st.mem[f][l] = x
            return
        st.mem[f][l] = self.update(st.mem[f][l], path, x)

    def update(self, v, path, x):
        if not path:
            return x
        e = path[0]
        if e[0] == "f":
            if not isinstance(v, Agg):
                raise Unsupported(f"field write to {type(v).__name__}")
            i = e[1] + 1
            return Agg(v[:i] + (self.update(v[i], path[1:], x),) + v[i + 1:])
        if not isinstance(v, Arr):
            raise Unsupported("element write to " + type(v).__name__)
        if e[0] == "i":
            i = e[1]
            return Arr(v[:i] + (self.update(v[i], path[1:], x),) + v[i + 1:])
        return Arr(v[:e[1]] + tuple(x) + v[e[2]:])

    def deref(self, st, r):
        if isinstance(r, Ref):
            return self.load(st, *r)
        return r

    # ---------------------------------------------------------------- operands
    def operand(self, st, fid, o):
        p = o.get("cp")
        if p is not None:
            return self.load(st, *self.resolve(st, fid, p))
        p = o.get("mv")
        if p is not None:
            f, l, path = self.resolve(st, fid, p)
            v = self.load(st, f, l, path)
            if len(p) == 1:
                st.mem[fid][p[0]] = None
            return v
        return self.constant(o["c"])

    def constant(self, c):
        t = c["t"]
        x = self.T[t]
        k = x["k"]
        if k == "fndef":
            return Fn((t,))
        if "promoted" in c:
            return Ref((("k", self.run_promoted(*c["promoted"])), 0, ()))
        if "bits" in c:
            b = int(c["bits"])
            if k in ("int", "bool", "char"):
                return b
            if k == "adt":
                return self.decode(t, b.to_bytes(c["sz"], "little"))
            raise Unsupported("constant of " + x["txt"])
        if "mem" in c:
            return self.decode(t, bytes.fromhex(c["mem"]))
        if c.get("zst"):
            if k == "tuple":
                return UNIT
            if k == "closure":
                return Agg((0,))
            return Opaque((x["txt"],))
        if "ptr_bytes" in c and k == "ref":
            return Ref((("k", self.decode(x["to"], bytes.fromhex(c["ptr_bytes"]))), 0, ()))
        if "str" in c:
            return Ref((("k", Opaque(("text",))), 0, ()))
        raise Unsupported("constant of " + x["txt"])

    def decode(self, t, bs):
        x = self.T[t]
        k = x["k"]
        if k in ("int", "bool", "char"):
            return int.from_bytes(bs, "little")
        if k == "adt" and x.get("adt") == "struct" and x.get("offs"):
            vs = x["variants"][0]["fields"]
            return Agg((0,) + tuple(self.decode(f["ty"], bs[o:o + (self.C.size(f["ty"]) or 0)]) for f, o in zip(vs, x["offs"][0])))
        if k == "array":
            n = self.C.size(x["of"])
            if n:
                return Arr(self.decode(x["of"], bs[i:i + n]) for i in range(0, len(bs), n))
        raise Unsupported("constant of " + x["txt"])

    def run_promoted(self, i, k):
        body = self.C.promoted(i, k)
        st = State()
        st.mem[0] = [None] * len(body.locals)
        b = 0
        while True:
            for s in body.blocks[b].s:
                self.statement(st, body, 0, s)
            t = body.blocks[b].t
            if t["k"] == "goto":
                b = t["to"]
            elif t["k"] == "ret":
                return st.mem[0][0] if not isinstance(st.mem[0][0], Ref) else self.deref(st, st.mem[0][0])
            else:
                raise Unsupported("promoted constant")

    # ---------------------------------------------------------------- arithmetic
    def signed(self, v, w):
        return v - (1 << w) if v >> (w - 1) & 1 else v

    def binop(self, op, a, b, w, sg, wb, dst_w=None):
        """-> value, or (value, overflow) for the checked operations"""
        over = op.endswith("WithOverflow")
        if over:
            op = op[:-12]
        if op.endswith("Unchecked"):
            op = op[:-9]
        m = (1 << w) - 1 if w else 0
        if isinstance(a, int) and isinstance(b, int) and w:
            x, y = (self.signed(a, w), self.signed(b, w)) if sg else (a, b)
            if op == "Add":
                r = x + y
            elif op == "Sub":
                r = x - y
            elif op == "Mul":
                r = x * y
            elif op in ("Div", "Rem"):
                if y == 0:
                    raise Unsupported("division by zero")
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if op == "Div" else x - q * y
            elif op == "BitAnd":
                r = a & b
            elif op == "BitOr":
                r = a | b
            elif op == "BitXor":
                r = a ^ b
            elif op == "Shl":
                r = a << (b % w)
                return r & m
            elif op == "Shr":
                return (x >> (b % w)) & m
            elif op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            elif op == "Cmp":
                return Agg(((x > y) - (x < y) + 1,))
            else:
                raise Unsupported("operation " + op)
            if over:
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, m)
                return Agg((0, r & m, int(not lo <= r <= hi)))
            return r & m
        if not w:
            raise Unsupported(f"{op} on {type(a).__name__}")
        if op in ("Shl", "Shr"):
            if not isinstance(b, int):
                return BV((LOST,) * w)
            n = b % w
            x = bits_of(a, w)
            if op == "Shl":
                return pack((0,) * n + x[:w - n])
            return pack(x[n:] + ((x[-1],) if sg else (0,)) * n)
        x, y = bits_of(a, w), bits_of(b, w)
        if op == "BitAnd":
            return pack(tuple(map(b_and, x, y)))
        if op == "BitOr":
            return pack(tuple(map(b_or, x, y)))
        if op == "BitXor":
            return pack(tuple(map(b_xor, x, y)))
        if op in ("Eq", "Ne"):
            d = [b_xor(p, q) for p, q in zip(x, y)]
            if 1 in d:
                r = 0
            elif not any(d):
                r = 1
            else:
                nz = [q for q in d if q]
                # exactly one bit can differ: the comparison is that bit
                return self.bit(nz[0] if len(nz) == 1 else LOST, op == "Eq")
            return r if op == "Eq" else 1 - r
        if op in ("Lt", "Le", "Gt", "Ge"):
            if sg:
                return BV((LOST,))
            lo = lambda z: sum(1 << i for i, q in enumerate(z) if q == 1)
            hi = lambda z: sum(1 << i for i, q in enumerate(z) if q != 0)
            al, ah, bl, bh = lo(x), hi(x), lo(y), hi(y)
            if op in ("Gt", "Le"):
                al, ah, bl, bh = bl, bh, al, ah
            # a < b ?
            r = True if ah < bl else False if al >= bh else None
            if r is None:
                return BV((LOST,))
            return int(r) if op in ("Lt", "Gt") else int(not r)
        if op == "Add":
            if all(not p or not q for p, q in zip(x, y)):
                r = pack(tuple(p or q for p, q in zip(x, y)))
                return Agg((0, r, 0)) if over else r
        if op == "Mul":
            k = a if isinstance(a, int) else b if isinstance(b, int) else None
            z = y if isinstance(a, int) else x
            if k is not None and k and k & (k - 1) == 0:
                n = k.bit_length() - 1
                r = pack((0,) * n + tuple(z[:w - n]))
                if not over:
                    return r
                if not any(z[w - n:]) or not n:
                    return Agg((0, r, 0))
            if k == 0:
                return Agg((0, 0, 0)) if over else 0
        if op in ("Div", "Rem") and isinstance(b, int) and b and b & (b - 1) == 0 and not sg:
            n = b.bit_length() - 1
            return pack(tuple(x[n:]) + (0,) * n) if op == "Div" else pack(tuple(x[:n]) + (0,) * (w - n))
        if op == "Sub" and isinstance(b, int) and b == 0:
            return Agg((0, a, 0)) if over else a
        r = BV((LOST,) * w)
        return Agg((0, r, BV((LOST,)))) if over else r

    def bit(self, b, negate):
        if negate:
            b = b_not(b)
        return b if b in (0, 1) else BV((b,))

    def cast(self, kind, v, src, dst):
        if kind in ("IntToInt", "Transmute") and self.width(dst)[0] and self.width(src)[0]:
            ws, sg = self.width(src)
            wd, _ = self.width(dst)
            if isinstance(v, int):
                return (self.signed(v, ws) if sg else v) & ((1 << wd) - 1)
            x = bits_of(v, ws)
            if wd <= ws:
                return pack(tuple(x[:wd]))
            return pack(tuple(x) + ((x[-1],) if sg else (0,)) * (wd - ws))
        if kind.startswith("coerce") or kind.startswith("PtrToPtr"):
            return v
        raise Unsupported("cast " + kind)

    # ---------------------------------------------------------------- statements
    def rvalue(self, st, body, fid, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1])
        if k in ("ref", "rawptr"):
            return Ref(self.resolve(st, fid, r[2]))
        if k == "bin":
            w, sg = self.width(self.op_ty(body, r[2]))
            wb = self.width(self.op_ty(body, r[3]))[0]
            a = self.operand(st, fid, r[2])
            b = self.operand(st, fid, r[3])
            return self.binop(r[1], a, b, w, sg, wb)
        if k == "un":
            t = self.op_ty(body, r[2])
            w, sg = self.width(t)
            a = self.operand(st, fid, r[2])
            if r[1] == "Not":
                if isinstance(a, int):
                    return ~a & ((1 << w) - 1)
                return pack(tuple(b_not(x) for x in bits_of(a, w)))
            if r[1] == "Neg" and isinstance(a, int):
                return -a & ((1 << w) - 1)
            if r[1] == "PtrMetadata" and isinstance(a, Ref):
                return self.length(st, *a)
            if w:
                return BV((LOST,) * w)
            raise Unsupported("operation " + r[1])
        if k == "cast":
            return self.cast(r[1], self.operand(st, fid, r[2]), self.op_ty(body, r[2]), r[3])
        if k == "agg":
            ops = tuple(self.operand(st, fid, o) for o in r[2])
            if r[1][0] == "array":
                return Arr(ops)
            if r[1][0] == "tuple":
                return Agg((0,) + ops)
            if r[1][0] == "adt" and (len(r[1]) < 4 or r[1][3] is None):
                return Agg((r[1][2],) + ops)
            if r[1][0] == "closure":
                return Agg((0,) + ops)
            raise Unsupported("aggregate " + r[1][0])
        if k == "discr":
            f, l, path = self.resolve(st, fid, r[1])
            v = self.load(st, f, l, path)
            if isinstance(v, Agg):
                t = self.place_ty(body, r[1])
                vs = self.T[t].get("variants")
                d = int(vs[v[0]]["discr"]) if vs else v[0]
                w = self.width(self.place_ty(body, dest))[0]
                return d & ((1 << w) - 1) if w else d
            raise Unsupported("variant of " + type(v).__name__)
        if k == "len":
            return self.length(st, *self.resolve(st, fid, r[1]))
        if k == "repeat":
            v = self.operand(st, fid, r[1])
            if isinstance(r[2], int) and r[2] <= 4096:
                return Arr((v,) * r[2])
            raise Unsupported("repeat")
        raise Unsupported("value " + k)

    def statement(self, st, body, fid, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, body, fid, s[2], s[1])
            if len(s[1]) == 1:
                st.mem[fid][s[1][0]] = v
            else:
                self.store(st, *self.resolve(st, fid, s[1]), v)
        elif k in ("live", "dead"):
            st.mem[fid][s[1]] = None
        elif k == "sd":
            f, l, path = self.resolve(st, fid, s[1])
            v = self.load(st, f, l, path)
            self.store(st, f, l, path, Agg((s[2],) + tuple(v[1:])) if isinstance(v, Agg) else Agg((s[2],)))
        elif k in ("assume", "nop", "cov", "fake", "retag"):
            pass
        else:
            raise Unsupported("statement " + k)

    # ---------------------------------------------------------------- running
    def call(self, inst, args, st=None):
        """analyse a call from outside: -> [Out]"""
        st = st.fork() if st is not None else State()
        st.stack = []
        st.mem.setdefault(-1, [None])
        self.enter(st, inst, args, None, None)
        return self.explore(st)

    def enter(self, st, inst, args, dest, back):
        body = self.C.body(inst)
        if body is None:
            raise Unsupported("no body: " + self.C.insts[inst]["path"])
        self.used.add(self.C.insts[inst]["path"])
        if len(st.stack) > 24:
            raise Unsupported("recursion")
        fid = max([k for k in st.mem if isinstance(k, int)], default=0) + 1
        fid = max(fid, 1)
        mem = [None] * len(body.locals)
        if body.spread is not None and len(args) != body.argc:
            n = body.spread
            args = list(args[:n - 1]) + [Agg((0,) + tuple(args[n - 1:]))]
        if len(args) != body.argc:
            raise Unsupported("argument count of " + self.C.insts[inst]["path"])
        for i, a in enumerate(args):
            mem[i + 1] = a
        st.mem[fid] = mem
        st.stack.append([inst, 0, fid, dest, back])

    def explore(self, st0):
        work = [st0]
        seen = set()
        outs = []
        while work:
            st = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Unsupported("too many steps")
                fr = st.stack[-1]
                inst, b, fid = fr[0], fr[1], fr[2]
                body = self.C.body(inst)
                blk = body.blocks[b]
                if b in body.loops or (len(work) and len(body.pred.get(b, ())) > 1):
                    k = st.key()
                    if k in seen:
                        break
                    seen.add(k)
                for s in blk.s:
                    self.statement(st, body, fid, s)
                nxt = self.terminator(st, body, fr, blk.t, outs)
                if not nxt:
                    break
                st = nxt[0]
                work += nxt[1:]
        return outs

    def finish_call(self, st, dest, v, to):
        """value v of a call arrives at dest in the frame on top"""
        fr = st.stack[-1]
        self.store(st, *self.resolve(st, fr[2], dest), v)
        if to is None:
            return []
        fr[1] = to
        return [st]

    def terminator(self, st, body, fr, t, outs):
        k = t["k"]
        fid = fr[2]
        if k == "goto":
            fr[1] = t["to"]
            return [st]
        if k == "drop":
            p = t["p"]
            if len(p) == 1:
                st.mem[fid][p[0]] = None
            fr[1] = t["to"]
            return [st]
        if k == "switch":
            v = self.operand(st, fid, t["on"])
            return self.branch(st, v, [(int(x), to) for x, to in t["v"]], t["else"], body)
        if k == "assert":
            v = self.operand(st, fid, t["c"])
            exp = 1 if t["exp"] else 0
            if isinstance(v, int):
                if v == exp:
                    fr[1] = t["to"]
                    return [st]
                outs.append(Out(None, st, (self.C.insts[fr[0]]["path"], t.get("l"), t["m"][0])))
                return []
            # an unknown condition: the check may fail
            bad = st.fork()
            bad.lossy = True
            outs.append(Out(None, bad, (self.C.insts[fr[0]]["path"], t.get("l"), t["m"][0])))
            fr[1] = t["to"]
            return [st]
        if k == "ret":
            v = st.mem[fid][0]
            st.stack.pop()
            if not st.stack:
                del st.mem[fid]
                outs.append(Out(v, st))
                return []
            del st.mem[fid]
            return self.finish_call(st, fr[3], v, fr[4])
        if k == "unreachable":
            return []
        if k == "call":
            return self.do_call(st, body, fr, t, outs)
        raise Unsupported("terminator " + k)

    def branch(self, st, v, cases, other, body):
        fr = st.stack[-1]
        if isinstance(v, int):
            for x, to in cases:
                if x == v:
                    fr[1] = to
                    return [st]
            fr[1] = other
            return [st]
        if not isinstance(v, BV):
            raise Unsupported("branch on " + type(v).__name__)
        res = []
        one = v[0] if len(v) == 1 else None
        tos = [(x, to) for x, to in cases if all(b not in (0, 1) or b == (x >> i) & 1 for i, b in enumerate(v))]
        rest = other if len(v) > 16 or len(tos) < 1 << sum(b not in (0, 1) for b in v) else None
        for x, to in tos + ([(None, rest)] if rest is not None else []):
            s = st.fork()
            s.stack[-1][1] = to
            val = x if x is not None else 1 - tos[0][0] if one is not None and tos else None
            if one is not None and one > 1 and val is not None:
                subst_state(s, one, val)
                s.ghost["known"] = s.ghost.get("known", ()) + ((one, val),)
            else:
                s.lossy = True
            res.append(s)
        return res

    def do_call(self, st, body, fr, t, outs):
        fid = fr[2]
        f = t["f"]
        args = [self.operand(st, fid, a) for a in t["a"]]
        if "op" in f:
            raise Unsupported("call through a pointer")
        inst = f.get("inst")
        nm = f.get("rpath") or f["path"]
        for key in (f["path"], nm):
            s = self.summaries.get(key)
            if s is not None:
                res = s(self, st, args)
                if res is not None:
                    return self.spread(res, t)
        r = self.io(self, st, f, args)
        if r is not None:
            return self.spread(r, t)
        if f["path"].startswith("core::ops::function::Fn") and args and isinstance(args[0], (Agg, Ref, Fn)):
            ci = self.closure_inst(t["at"][0])
            if ci is not None:
                tup = args[1]
                self.enter(st, ci, [args[0]] + list(tup[1:]), t["d"], t["to"])
                return [st]
        if inst is not None and self.C.insts[inst] and self.C.insts[inst].get("body") and self.C.insts[inst].get("local"):
            self.enter(st, inst, args, t["d"], t["to"])
            return [st]
        v = std_call(self, st, f, nm, args, t)
        if v is PANIC:
            outs.append(Out(None, st, (self.C.insts[fr[0]]["path"], t.get("l"), f["name"])))
            return []
        if isinstance(v, list):
            return self.spread(v, t)
        return self.finish_call(st, t["d"], v, t["to"])

    def nested(self, st, inst, args):
        """a call with a single outcome, made while modelling another call"""
        s = st.fork()
        s.stack = []
        self.enter(s, inst, args, None, None)
        outs = self.explore(s)
        if len(outs) != 1 or outs[0].panic:
            raise Unsupported("a closure with several outcomes")
        st.mem, st.ghost, st.lossy = outs[0].state.mem, outs[0].state.ghost, outs[0].state.lossy
        return outs[0].ret

    def closure_inst(self, t):
        x = self.T[t]
        while x["k"] in ("ref", "ptr"):
            x = self.T[x["to"]]
        return x.get("inst")

    def spread(self, res, t):
        out = []
        for s, v in res:
            out += self.finish_call(s, t["d"], v, t["to"])
        return out


def subst(v, b, x):
    if isinstance(v, BV):
        return pack(tuple(x if q == b else q for q in v)) if b in v else v
    if isinstance(v, (Agg, Arr)):
        return type(v)(subst(q, b, x) for q in v)
    return v


def subst_state(st, b, x):
    for k in st.mem:
        st.mem[k] = [subst(v, b, x) for v in st.mem[k]]
    for k, v in st.ghost.items():
        if k == "out":
            st.ghost[k] = tuple(x if q == b else q for q in v)


PANIC = object()


def range_of(v):
    """(lo, hi) of a Range value"""
    if isinstance(v, Agg) and len(v) == 3 and all(isinstance(q, int) for q in v[1:]):
        return v[1], v[2]
    raise Unsupported("range")


def std_call(m, st, f, nm, args, t):
    n = f["name"]
    C = m.C
    w, sg = m.width(t["at"][0]) if t["at"] else (0, False)
    dw, dsg = m.width(t["dt"])
    own = f.get("krate") in ("core", "alloc", "std")
    if not own:
        raise Unsupported(nm)
    if n == "size_of":
        s = C.size(f["args"][0]) if f.get("args") and isinstance(f["args"][0], int) else None
        if s is None:
            raise Unsupported(nm)
        return s
    if n == "branch" and "Try" in f["path"]:
        v = args[0]
        x = m.T[t["at"][0]]
        if x.get("path") == "core::result::Result":
            return Agg((0, v[1])) if v[0] == 0 else Agg((1, Agg((1, v[1]))))
        if x.get("path") == "core::option::Option":
            return Agg((0, v[1])) if v[0] == 1 else Agg((1, Agg((0,))))
        raise Unsupported(nm)
    if n == "from_residual":
        v = args[0]
        return Agg((1, v[1])) if len(v) > 1 else Agg((0,))
    if n in ("min", "max") and len(args) == 2 and w:
        a, b = args
        r = m.binop("Le", a, b, w, sg, w)
        if isinstance(r, int):
            return a if bool(r) == (n == "min") else b
        return BV((LOST,) * w)
    if n in ("into", "from") and len(args) == 1 and w and dw and dw >= w:
        return m.cast("IntToInt", args[0], t["at"][0], t["dt"])
    if n in ("try_into", "try_from") and len(args) == 1:
        rt = m.T[t["dt"]]
        if rt.get("path") == "core::result::Result":
            ot = C.args(rt)[0]
            tw, _ = m.width(ot)
            if w and tw and isinstance(args[0], int):
                return ok(args[0]) if args[0] < 1 << tw else err()
            v = m.deref(st, args[0])
            if m.T[ot]["k"] == "array" and isinstance(v, Arr):
                return ok(v) if len(v) == m.T[ot].get("n", len(v)) else err()
        raise Unsupported(nm)
    if n in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
        v = args[0]
        bs = ()
        for x in (reversed(v) if n == "from_be_bytes" else v):
            bs += tuple(bits_of(x, 8))
        return pack(bs)
    if n in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        x = bits_of(args[0], w)
        v = [pack(tuple(x[i:i + 8])) for i in range(0, w, 8)]
        return Arr(v[::-1] if n == "to_be_bytes" else v)
    if n in ("swap_bytes", "to_be", "from_be") and w:
        x = bits_of(args[0], w)
        return pack(sum((tuple(x[i:i + 8]) for i in range(w - 8, -1, -8)), ()))
    if n in ("to_le", "from_le") and w:
        return args[0]
    if n == "reverse_bits" and w:
        return pack(tuple(bits_of(args[0], w)[::-1]))
    if n in ("rotate_left", "rotate_right") and w and isinstance(args[1], int):
        x = bits_of(args[0], w)
        k = args[1] % w
        k = k if n == "rotate_left" else (w - k) % w
        return pack(tuple(x[w - k:]) + tuple(x[:w - k]))
    if n in ("wrapping_shl", "wrapping_shr", "unchecked_shl", "unchecked_shr") and w:
        return m.binop("Shl" if n.endswith("l") else "Shr", args[0], args[1], w, sg, 32)
    if n in ("checked_shl", "checked_shr", "overflowing_shl", "overflowing_shr", "unbounded_shl", "unbounded_shr") and w and isinstance(args[1], int):
        r = m.binop("Shl" if n.endswith("l") else "Shr", args[0], args[1], w, sg, 32)
        big = args[1] >= w
        if n.startswith("checked"):
            return NONE if big else some(r)
        if n.startswith("over"):
            return Agg((0, r, int(big)))
        return 0 if big else r
    for pre in ("wrapping_", "checked_", "saturating_", "overflowing_", "unchecked_"):
        if n.startswith(pre) and n[len(pre):] in ("add", "sub", "mul") and w and not sg:
            op = n[len(pre):].capitalize()
            r = m.binop(op + "WithOverflow", args[0], args[1], w, sg, w)
            v, o = r[1], r[2]
            if pre in ("wrapping_", "unchecked_"):
                return v
            if pre == "overflowing_":
                return r
            if not isinstance(o, int):
                return BV((LOST,) * w) if pre == "saturating_" else _lost(nm)
            if pre == "checked_":
                return NONE if o else some(v)
            return (0 if op == "Sub" else (1 << w) - 1) if o else v
    if n in ("is_power_of_two", "leading_zeros", "trailing_zeros", "count_ones", "pow", "abs_diff", "div_ceil", "next_multiple_of") and w \
            and all(isinstance(a, int) for a in args) and not sg:
        a = args[0]
        b = args[1] if len(args) > 1 else 0
        if n in ("div_ceil", "next_multiple_of") and not b:
            return PANIC
        r = {"is_power_of_two": lambda: int(a and a & (a - 1) == 0), "leading_zeros": lambda: w - a.bit_length(),
             "trailing_zeros": lambda: (a & -a).bit_length() - 1 if a else w, "count_ones": lambda: bin(a).count("1"),
             "pow": lambda: a ** b, "abs_diff": lambda: abs(a - b), "div_ceil": lambda: -(-a // b),
             "next_multiple_of": lambda: -(-a // b) * b}[n]()
        return PANIC if r >> dw else r
    items = iter_items(m, st, n, args, t)
    if items is not None:
        return items
    if n == "into_iter" and args and isinstance(args[0], Agg) and len(args[0]) == 3:
        range_of(args[0])
        return args[0]
    if n in ("rev", "into_iter") and args and isinstance(args[0], Agg):
        if n == "rev":
            lo, hi = range_of(args[0])
            return Agg((7, lo, hi))
        return args[0]
    if n == "next" and args and isinstance(args[0], Ref):
        v = m.deref(st, args[0])
        txt = m.T[t["at"][0]]["txt"]
        lo, hi = range_of(v)
        if v[0] not in (0, 7) or "Range<" not in txt:
            raise Unsupported(nm)
        if lo >= hi:
            return NONE
        if v[0] == 7:
            m.store(st, *args[0], Agg((7, lo, hi - 1)))
            return some(hi - 1)
        m.store(st, *args[0], Agg((0, lo + 1, hi)))
        return some(lo)
    if n in ("clone", "to_owned") and isinstance(args[0], Ref):
        v = m.deref(st, args[0])
        if isinstance(v, (int, BV, Arr)):
            return v
        raise Unsupported(nm)
    if n in ("default",) and dw:
        return 0
    if n in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "by_ref"):
        return args[0]
    if n == "len" and isinstance(args[0], Ref):
        return m.length(st, *args[0])
    if n in ("index", "index_mut", "get", "get_mut", "split_at", "split_at_mut") and isinstance(args[0], Ref):
        fr, l, path = args[0]
        base = m.length(st, fr, l, path)
        i = args[1]
        txt = m.T[t["at"][1]]["txt"]
        lo0 = path[-1][1] if path and path[-1][0] == "r" else 0
        stem = path[:-1] if path and path[-1][0] == "r" else path
        if n.startswith("split_at"):
            if not isinstance(i, int):
                raise Unsupported(nm)
            if i > base:
                return PANIC
            return Agg((0, Ref((fr, l, stem + (("r", lo0, lo0 + i),))), Ref((fr, l, stem + (("r", lo0 + i, lo0 + base),)))))
        if isinstance(i, int):
            if i >= base:
                return PANIC if n.startswith("index") else NONE
            r = Ref((fr, l, stem + (("i", lo0 + i),)))
        else:
            if not isinstance(i, (Agg, Opaque)):
                raise Unsupported(nm)
            if "RangeFull" in txt:
                lo, hi = 0, base
            elif "RangeToInclusive<" in txt:
                lo, hi = 0, i[1] + 1
            elif "RangeTo<" in txt:
                lo, hi = 0, i[1]
            elif "RangeFrom<" in txt:
                lo, hi = i[1], base
            elif "::Range<" in txt:
                lo, hi = i[1], i[2]
            else:
                raise Unsupported(nm)
            if not isinstance(lo, int) or not isinstance(hi, int):
                raise Unsupported(nm)
            if lo > hi or hi > base:
                return PANIC if n.startswith("index") else NONE
            r = Ref((fr, l, stem + (("r", lo0 + lo, lo0 + hi),)))
        return r if n.startswith("index") else some(r)
    if n in ("copy_from_slice", "clone_from_slice") and isinstance(args[0], Ref):
        v = m.deref(st, args[1])
        d = args[0]
        k = m.length(st, *d)
        if len(v) != k:
            return PANIC
        m.store(st, d[0], d[1], d[2] if d[2] and d[2][-1][0] == "r" else d[2] + (("r", 0, k),), v)
        return UNIT
    if n == "fill" and isinstance(args[0], Ref):
        d = args[0]
        k = m.length(st, *d)
        m.store(st, d[0], d[1], d[2] if d[2] and d[2][-1][0] == "r" else d[2] + (("r", 0, k),), (args[1],) * k)
        return UNIT
    if n in ("unwrap", "expect", "unwrap_unchecked", "unwrap_or_default", "unwrap_or") and isinstance(args[0], Agg):
        good = 0 if m.T[t["at"][0]].get("path") == "core::result::Result" else 1
        if args[0][0] == good:
            return args[0][1]
        if n == "unwrap_or":
            return args[1]
        if n == "unwrap_or_default" and dw:
            return 0
        return PANIC
    if n in ("is_ok", "is_err", "is_some", "is_none") and isinstance(args[0], Ref):
        return int((m.deref(st, args[0])[0] == 0) == (n in ("is_ok", "is_none")))
    if n in ("ok_or", "ok_or_else") and isinstance(args[0], Agg):
        return ok(args[0][1]) if args[0][0] == 1 else err()
    if n == "ok" and isinstance(args[0], Agg):
        return some(args[0][1]) if args[0][0] == 0 else NONE
    if n == "map_err" and isinstance(args[0], Agg):
        return args[0] if args[0][0] == 0 else err()
    if n in ("swap", "replace", "take") and "mem" in f["path"] and isinstance(args[0], Ref):
        a = m.deref(st, args[0])
        if n == "take":
            if not dw:
                raise Unsupported(nm)
            m.store(st, *args[0], 0)
            return a
        if n == "replace":
            m.store(st, *args[0], args[1])
            return a
        b = m.deref(st, args[1])
        m.store(st, *args[0], b)
        m.store(st, *args[1], a)
        return UNIT
    if n in ("new", "from", "other", "from_raw_os_error") and "Error" in m.T[t["dt"]]["txt"] or n in ("kind",):
        return Opaque(("error",))
    if n in ("panic", "panic_fmt", "panic_display", "unreachable", "panic_nounwind", "expect_failed", "unwrap_failed", "assert_failed", "panic_explicit"):
        return PANIC
    if n in ("cold_path", "black_box", "drop", "forget"):
        return args[0] if n == "black_box" else UNIT
    raise Unsupported(nm)


def iter_items(m, st, n, args, t):
    """iterators over known elements: Agg((20, Arr(elements)))"""
    a = args[0] if args else None
    if n in ("iter", "into_iter") and isinstance(a, Arr):
        return Agg((20, a))
    if n in ("iter", "into_iter") and isinstance(a, Ref) and isinstance(m.deref(st, a), Arr):
        if "mut " in m.T[t["dt"]]["txt"] or "IterMut" in m.T[t["dt"]]["txt"]:
            return None
        k = m.length(st, *a)
        return Agg((20, Arr(Ref((a[0], a[1], m.elem(a[2], i))) for i in range(k))))
    if isinstance(a, Agg) and len(a) == 2 and a[0] == 20:
        v = a[1]
        if n == "into_iter" or n == "by_ref":
            return a
        if n in ("copied", "cloned"):
            return Agg((20, Arr(m.deref(st, x) for x in v)))
        if n == "rev":
            return Agg((20, Arr(v[::-1])))
        if n == "enumerate":
            return Agg((20, Arr(Agg((0, i, x)) for i, x in enumerate(v))))
        if n in ("fold", "for_each", "map", "any", "all", "sum", "count"):
            if n == "count":
                return len(v)
            w = m.width(t["dt"])[0]
            if n == "sum":
                acc = 0
                for x in v:
                    acc = m.binop("Add", acc, m.deref(st, x), w, False, w)
                return acc
            ci = m.closure_inst(t["at"][-1])
            if ci is None:
                return None
            by_ref = m.T[m.C.body(ci).locals[1]]["k"] in ("ref", "ptr")
            clo = args[-1]
            if by_ref:
                clo = Ref((("k", clo), 0, ())) if not isinstance(clo, Ref) else clo
            acc, res = (args[1] if n == "fold" else None), []
            for x in v:
                r = m.nested(st, ci, [clo] + ([acc, x] if n == "fold" else [x]))
                if n == "fold":
                    acc = r
                elif n in ("any", "all"):
                    if not isinstance(r, int):
                        return None
                    if bool(r) == (n == "any"):
                        return int(n == "any")
                else:
                    res.append(r)
            return acc if n == "fold" else UNIT if n == "for_each" else Agg((20, Arr(res))) if n == "map" else int(n == "all")
        if n in ("take", "skip", "step_by") and isinstance(args[1], int):
            return Agg((20, Arr(v[:args[1]] if n == "take" else v[args[1]:] if n == "skip" else v[::args[1] or 1])))
        return None
    if n == "next" and isinstance(a, Ref):
        c = m.deref(st, a)
        if isinstance(c, Agg) and len(c) == 2 and c[0] == 20:
            if not c[1]:
                return NONE
            m.store(st, *a, Agg((20, Arr(c[1][1:]))))
            return some(c[1][0])
    return None


def _lost(nm):
    raise Unsupported(nm + " of an unknown value")
