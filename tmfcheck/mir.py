"""Loading of the MIR dump: types, instances, bodies, control-flow graph, loops, liveness."""
import json
import sys

sys.setrecursionlimit(20000)

VECLIKE = {"alloc::vec::Vec", "alloc::string::String", "smallvec::SmallVec"}


class Block:
    __slots__ = ("s", "t", "cleanup", "succ")


class Body:
    def __init__(self, j, inst, crate):
        self.inst = inst
        self.argc = j["argc"]
        self.locals = [x[0] for x in j["locals"]]
        self.names = {i: x[1] for i, x in enumerate(j["locals"]) if len(x) > 1}
        self.spread = j.get("spread")
        self.loc = j.get("l")
        self.blocks = []
        for b in j["blocks"]:
            k = Block()
            k.s = b["s"]
            k.t = b["t"]
            k.cleanup = bool(b.get("cleanup"))
            k.succ = succs(b["t"])
            self.blocks.append(k)
        self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        # reverse post order over non-cleanup blocks
        seen = set()
        order = []
        stack = [(0, iter(self.blocks[0].succ))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen and not self.blocks[s].cleanup:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.pos = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.blocks[b].succ:
                if s in pred:
                    pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.pos[x] > self.pos[y]:
                            x = idom[x]
                        while self.pos[y] > self.pos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == order[0]:
                    return False
                b = idom[b]

        self.loops = {}
        for b in order:
            for s in self.blocks[b].succ:
                if s in self.pos and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])
        # loop-contiguous order: blocks of a loop come before the blocks that follow it
        self._live()

    def normal_exit(self, h):
        """target of the first edge (in reverse post order) that leaves loop h: the loop condition"""
        blocks = self.loops[h]
        for b in self.rpo:
            if b in blocks:
                for t in succs(self.blocks[b].t):
                    if t not in blocks and self.blocks[t].t["k"] != "unreachable":
                        return t
        return None

    def _live(self):
        borrowed = set()
        use = {}
        deff = {}
        for b in self.rpo:
            u = set()
            d = set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def op(o):
                p = o.get("cp") or o.get("mv")
                if p:
                    pl(p)

            def pl(p):
                rd(p[0])
                for e in p[1:]:
                    if e[0] == "i":
                        rd(e[1])

            def wr(p):
                if len(p) == 1:
                    if p[0] not in u:
                        d.add(p[0])
                else:
                    pl(p)

            for s in self.blocks[b].s:
                if s[0] == "=":
                    rv = s[2]
                    self._rv(rv, op, pl, borrowed)
                    wr(s[1])
                elif s[0] == "sd":
                    pl(s[1])
                elif s[0] == "assume":
                    op(s[1])
            t = self.blocks[b].t
            k = t["k"]
            if k == "switch":
                op(t["on"])
            elif k == "drop":
                pl(t["p"])
            elif k == "call":
                f = t["f"]
                if "op" in f:
                    op(f["op"])
                for a in t["a"]:
                    op(a)
                wr(t["d"])
            elif k == "assert":
                op(t["c"])
                for x in t["m"][1:]:
                    if isinstance(x, dict):
                        op(x)
            elif k == "yield":
                op(t["v"])
            elif k == "ret":
                rd(0)
            use[b] = u
            deff[b] = d
        self.borrowed = borrowed
        live = {b: set(use[b]) for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.blocks[b].succ:
                    if s in live:
                        o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        self.live = live

    def _rv(self, rv, op, pl, borrowed):
        k = rv[0]
        if k in ("use",):
            op(rv[1])
        elif k == "repeat":
            op(rv[1])
        elif k == "ref" or k == "rawptr":
            p = rv[2]
            pl(p)
            if not any(e[0] == "*" for e in p[1:]):
                borrowed.add(p[0])
            else:
                borrowed.add(p[0])
        elif k == "cast":
            op(rv[2])
        elif k == "bin":
            op(rv[2])
            op(rv[3])
        elif k == "un":
            op(rv[2])
        elif k == "discr":
            pl(rv[1])
        elif k == "agg":
            for o in rv[2]:
                op(o)


def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert", "yield"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    if k == "switch":
        r = []
        for _, b in t["v"]:
            if b not in r:
                r.append(b)
        if t["else"] not in r:
            r.append(t["else"])
        return r
    return []


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.insts = d["insts"]
        self.roots = d["roots"]
        self.unsafe = d["unsafe"]
        self.nbodies = d["nbodies"]
        self._bodies = {}
        self._promo = {}

    def body(self, i):
        b = self._bodies.get(i)
        if b is None:
            x = self.insts[i]
            if not x or not x.get("body"):
                return None
            b = Body(x["body"], i, self)
            self._bodies[i] = b
        return b

    def promoted(self, i, k):
        b = self._promo.get((i, k))
        if b is None:
            b = Body(self.insts[i]["promoted"][k], i, self)
            self._promo[(i, k)] = b
        return b

    def root(self, path, exported=True):
        for r in self.roots:
            if r["path"] == path:
                return r["inst"]
        return None

    def find(self, pred):
        return [i for i, x in enumerate(self.insts) if x and pred(x)]

    # ---- types
    def txt(self, t):
        return self.types[t]["txt"] if t is not None else "?"

    def int_range(self, t):
        x = self.types[t]
        k = x["k"]
        if k == "int":
            b = x["bits"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if x["signed"] else (0, (1 << b) - 1)
        if k == "char":
            return (0, 0x10FFFF)
        if k == "bool":
            return (0, 1)
        return None

    def is_unit(self, t):
        x = self.types[t]
        return x["k"] == "tuple" and not x["of"]

    def size(self, t):
        return self.types[t].get("size")

    def elem_of(self, t):
        """element type when t is a sequence container (Vec, String, Box<[T]>, [T], [T;N], str, SmallVec)"""
        x = self.types[t]
        k = x["k"]
        if k in ("slice", "array"):
            return x["of"]
        if k == "str":
            return self.u8()
        if k == "adt":
            p = x["path"]
            if p == "alloc::vec::Vec":
                return self.args(x)[0]
            if p == "alloc::string::String":
                return self.u8()
            if p == "smallvec::SmallVec":
                a = self.args(x)[0]
                return self.types[a]["of"]
            if x.get("box"):
                return self.elem_of(self.args(x)[0])
        return None

    def args(self, x):
        return [a for a in x["args"] if isinstance(a, int)] if x["args"] and not isinstance(x["args"][0], list) else [
            a[1] for a in x["args"] if a[0] == "t"]

    def u8(self):
        for i, x in enumerate(self.types):
            if x["k"] == "int" and x["bits"] == 8 and not x["signed"]:
                return i
        raise KeyError("u8")
