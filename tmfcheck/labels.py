"""Label dependencies: a forward data-flow analysis in which every value knows which inputs it was made from.

Inputs are given labels; a number read from an input, or computed from numbers read, is represented by the
set of labels it came from. Options, tuples, arrays of known length and references keep their structure;
collections of unknown length are summarised by one element. Paths fork where a condition is unknown and
join when they reach the same block with the same abstract memory; counters of loops of unknown length are
widened to "some number without labels". Only the flow of values is followed: neither the conditions under
which a value was chosen nor the length of a collection adds labels.

The label "?" marks a value put together by a join that lost its structure; nothing that carries it can be
held against the program.
"""
from .bits import Machine, Agg, Arr, Ref, Fn, Out, Unsupported, State, PANIC, NONE, UNIT, some, ok, err

LOSSY = "?"


class Lab(frozenset):
    """a number (or anything without structure) made from the labelled inputs"""
    __slots__ = ()


class Coll(tuple):
    """(element summary or None, origin): a collection of unknown length; the origin is set while it is an
    unchanged copy of an input"""
    __slots__ = ()


EMPTY = Lab()
NEWLIST = Coll((None, None))


def join(a, b):
    if a is None or a == b and type(a) is type(b):
        return b
    if b is None:
        return a
    if isinstance(a, Coll) and isinstance(b, Coll):
        return Coll((join(a[0], b[0]), a[1] if a[1] == b[1] else None))
    if isinstance(a, Coll) and isinstance(b, Arr) or isinstance(a, Arr) and isinstance(b, Coll):
        return join(flat(a), flat(b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a) == len(b):
            return Arr(map(join, a, b))
        return join(flat(a), flat(b))
    if isinstance(a, Agg) and isinstance(b, Agg) and a[0] == b[0] and len(a) == len(b):
        return Agg((a[0],) + tuple(map(join, a[1:], b[1:])))
    lossy = any(isinstance(x, (Ref, Agg, Coll, Arr, Fn)) for x in (a, b)) and not isinstance(a, Lab) and not isinstance(b, Lab)
    if isinstance(a, Ref) or isinstance(b, Ref):
        lossy = True
    elif lossy and all(isinstance(x, int) or isinstance(x, Agg) and all(isinstance(y, (int, Lab)) for y in x[1:2]) and len(x) <= 2 for x in (a, b)):
        lossy = False            # an option of a number
    return Lab(labels(a) | labels(b) | ({LOSSY} if lossy else set()))


def flat(v):
    if isinstance(v, Arr):
        e = None
        for x in v:
            e = join(e, x)
        return Coll((e, None))
    return v


def labels(v):
    if isinstance(v, Lab):
        return v
    if isinstance(v, Agg):
        r = frozenset()
        for x in v[1:]:
            r |= labels(x)
        return r
    if isinstance(v, Arr):
        r = frozenset()
        for x in v:
            r |= labels(x)
        return r
    if isinstance(v, Coll):
        return labels(v[0])
    if isinstance(v, Ref):
        return frozenset({LOSSY})
    return frozenset()


def taint(v, ls):
    if not ls or v is None:
        return v
    if isinstance(v, (int, Lab)):
        return Lab(labels(v) | ls)
    if isinstance(v, Agg):
        return Agg((v[0],) + tuple(taint(x, ls) for x in v[1:]))
    if isinstance(v, Arr):
        return Arr(taint(x, ls) for x in v)
    if isinstance(v, Coll):
        return Coll((taint(v[0], ls), None))
    if isinstance(v, Ref):
        return Ref((v[0], v[1], v[2] + (("t", ls),)))
    return v


class Labels(Machine):
    WIDEN = 2
    LIMIT = 300000

    def __init__(self, crate):
        super().__init__(crate, None)
        self.forks = 0

    # ---------------------------------------------------------------- memory
    def resolve(self, st, fid, p):
        f, l, path = fid, p[0], ()
        for e in p[1:]:
            k = e[0]
            if k == "f":
                path += (("f", e[1]),)
            elif k == "*":
                r = self.load(st, f, l, path)
                if isinstance(r, Ref):
                    f, l, path = r
                elif r is None:
                    raise Unsupported("dereference of nothing")
            elif k == "i":
                path = self.elem(path, st.mem[fid][e[1]])
            elif k == "ci":
                if len(e) > 3 and e[3]:
                    v = self.load(st, f, l, path)
                    path = self.elem(path, len(v) - e[1] if isinstance(v, Arr) else EMPTY)
                else:
                    path = self.elem(path, e[1])
            elif k == "v":
                pass
            else:
                raise Unsupported("projection " + k)
        return f, l, path

    def elem(self, path, i):
        if isinstance(i, int):
            if path and path[-1][0] == "r":
                return path[:-1] + (("i", path[-1][1] + i),)
            return path + (("i", i),)
        if isinstance(i, Lab):
            return path + (("e", frozenset(i)),)
        raise Unsupported("unknown index")

    def step(self, v, e):
        k = e[0]
        if k == "t":
            return taint(v, e[1])
        if isinstance(v, Lab):
            return Lab(v | e[1]) if k == "e" else v
        if k == "f":
            if isinstance(v, Agg) and e[1] + 1 < len(v):
                return v[e[1] + 1]
        elif k == "i":
            if isinstance(v, Arr):
                if e[1] < len(v):
                    return v[e[1]]
                raise Unsupported("index out of range")
            if isinstance(v, Coll):
                return v[0]
        elif k == "e":
            if isinstance(v, Coll):
                return taint(v[0], e[1])
            if isinstance(v, Arr):
                x = flat(v)[0]
                return taint(x, e[1] | (frozenset() if all(y == v[0] for y in v) else {LOSSY}))
        elif k == "r":
            if isinstance(v, Arr):
                return Arr(v[e[1]:e[2]])
        raise Unsupported(f"part {k} of {type(v).__name__}")

    def load(self, st, f, l, path):
        v = f[1] if isinstance(f, tuple) else st.mem[f][l]
        for e in path:
            v = self.step(v, e)
        return v

    def update(self, v, path, x):
        if not path:
            return x
        e = path[0]
        k = e[0]
        if k == "t":
            return self.update(v, path[1:], taint(x, e[1]))
        if isinstance(v, Lab):
            return Lab(v | labels(x) | (e[1] if k == "e" else frozenset()))
        if k == "f" and isinstance(v, Agg):
            i = e[1] + 1
            return Agg(v[:i] + (self.update(v[i], path[1:], x),) + v[i + 1:])
        if k in ("i", "e") and isinstance(v, Coll):
            ls = e[1] if k == "e" else frozenset()
            if v[0] is None and len(path) > 1:
                raise Unsupported("write into nothing")
            return Coll((join(v[0], self.update(v[0], path[1:], taint(x, ls))), None))
        if k == "i" and isinstance(v, Arr):
            i = e[1]
            if i >= len(v):
                raise Unsupported("index out of range")
            return Arr(v[:i] + (self.update(v[i], path[1:], x),) + v[i + 1:])
        if k == "e" and isinstance(v, Arr):
            return Arr(join(y, self.update(y, path[1:], taint(x, e[1] | {LOSSY}))) for y in v)
        if k == "r" and isinstance(v, Arr) and isinstance(x, Arr):
            return Arr(v[:e[1]] + tuple(x) + v[e[2]:])
        raise Unsupported(f"write to part {k} of {type(v).__name__}")

    def deref(self, st, r):
        while isinstance(r, Ref):
            r = self.load(st, *r)
        return r

    def constant(self, c):
        x = self.T[c["t"]]
        if x["k"] in ("float", "str", "rawptr") or c.get("uneval") or "item" in c or x["k"] == "ref" and "promoted" not in c:
            return EMPTY
        if c.get("zst") and x["k"] == "adt":
            return Agg((0,))
        if x["k"] == "adt" and not x.get("expanded", True):
            return EMPTY
        try:
            return super().constant(c)
        except Unsupported:
            return EMPTY

    def run_promoted(self, i, k):
        body = self.C.promoted(i, k)
        st = State()
        st.mem[0] = [None] * len(body.locals)
        b = 0
        while True:
            for s in body.blocks[b].s:
                self.statement(st, body, 0, s)
            t = body.blocks[b].t
            if t["k"] != "goto":
                return self.deref(st, st.mem[0][0])
            b = t["to"]

    # ---------------------------------------------------------------- values
    def binop(self, op, a, b, w, sg, wb, dst_w=None):
        if isinstance(a, int) and isinstance(b, int) and w:
            r = super().binop(op, a, b, w, sg, wb)
            return r
        r = Lab(self.plain(a) | self.plain(b))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return r
        return Agg((0, r, EMPTY)) if op.endswith("WithOverflow") else r

    def plain(self, v):
        if isinstance(v, (int, Lab)):
            return labels(v)
        if isinstance(v, Ref):
            return frozenset({LOSSY})
        return labels(v)

    def length(self, st, f, l, path):
        v = self.load(st, f, l, path)
        v = self.deref(st, v)
        return len(v) if isinstance(v, Arr) else EMPTY

    def rvalue(self, st, body, fid, r, dest):
        k = r[0]
        if k == "un":
            a = self.operand(st, fid, r[2])
            if r[1] == "PtrMetadata":
                return self.length(st, *a) if isinstance(a, Ref) else len(a) if isinstance(a, Arr) else EMPTY
            if r[1] == "Not" and isinstance(a, int):
                w = self.width(self.op_ty(body, r[2]))[0]
                return ~a & ((1 << w) - 1)
            if isinstance(a, Lab):
                # a condition and its negation are the same question
                return a if r[1] != "Not" else Lab(a)
            if isinstance(a, int):
                return EMPTY
            raise Unsupported("operation " + r[1])
        if k == "cast":
            v = self.operand(st, fid, r[2])
            if isinstance(v, int):
                try:
                    return self.cast(r[1], v, self.op_ty(body, r[2]), r[3])
                except Unsupported:
                    return EMPTY
            return v
        if k == "repeat":
            v = self.operand(st, fid, r[1])
            if isinstance(r[2], int) and r[2] <= 64:
                return Arr((v,) * r[2])
            return Coll((v, None))
        if k == "discr":
            f, l, path = self.resolve(st, fid, r[1])
            v = self.load(st, f, l, path)
            if isinstance(v, Lab):
                return v
            if isinstance(v, Agg):
                vs = self.T[self.place_ty(body, r[1])].get("variants")
                d = int(vs[v[0]]["discr"]) if vs else v[0]
                w = self.width(self.place_ty(body, dest))[0]
                return d & ((1 << w) - 1) if w else d
            raise Unsupported("variant of " + type(v).__name__)
        return super().rvalue(st, body, fid, r, dest)

    # ---------------------------------------------------------------- running
    def branch(self, st, v, cases, other, body):
        if isinstance(v, Lab):
            self.forks += 1
            res = []
            tos = list(dict.fromkeys([to for _, to in cases] + ([other] if body.blocks[other].t["k"] != "unreachable" else [])))
            self.open_ended(st, tos)
            for to in tos:
                s = st.fork()
                s.stack[-1][1] = to
                res.append(s)
            return res
        return super().branch(st, v, cases, other, body)

    def fork2(self, st, *vals):
        """the outcomes of a call whose result is not known"""
        res = []
        for v in vals:
            res.append((st.fork(), v))
        return res

    def key(self, st):
        return (tuple((x[0], x[1], x[2]) for x in st.stack), tuple((k, tuple(v)) for k, v in st.mem.items()), st.ghost.get("asked"))

    def explore(self, st0):
        work = [st0]
        seen = set()
        outs = []
        results = set()
        while work:
            st = work.pop()
            prev = None
            while True:
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Unsupported("too many steps")
                fr = st.stack[-1]
                inst, b, fid = fr[0], fr[1], fr[2]
                body = self.C.body(inst)
                blk = body.blocks[b]
                if b in body.loops:
                    self.at_head(st, body, b, fid)
                if b in body.loops or len(body.pred.get(b, ())) > 1:
                    k = self.key(st)
                    if k in seen:
                        break
                    seen.add(k)
                st.ghost["at"] = (fid, b)
                for s in blk.s:
                    self.statement(st, body, fid, s)
                nxt = self.terminator(st, body, fr, blk.t, outs)
                if not nxt:
                    break
                st = nxt[0]
                work += nxt[1:]
        uniq = []
        for o in outs:
            k = (repr(o.ret), repr(o.panic), tuple((k, tuple(v)) for k, v in o.state.mem.items()))
            if k not in results:
                results.add(k)
                uniq.append(o)
        return uniq

    def at_head(self, st, body, b, fid):
        """widen what a loop of unknown length keeps changing"""
        heads = dict(st.ghost.get("heads", ()))
        at = st.ghost.get("at")
        inside = at is not None and (at[0] != fid or at[1] in body.loops[b])
        old = heads.get((fid, b))
        unk = dict(st.ghost.get("unk", ()))
        if old is None or not inside:
            heads[(fid, b)] = (0, None)
            if unk.pop((fid, b), None) is not None:
                st.ghost["unk"] = tuple(unk.items())
        elif (fid, b) in unk:
            n, snap = old
            n += 1
            if n >= unk[(fid, b)] and snap is not None:
                d = dict(snap)
                for k, v in st.mem.items():
                    if k in d and len(d[k]) == len(v) and list(d[k]) != v:
                        st.mem[k] = [widen(x, y) for x, y in zip(d[k], v)]
            heads[(fid, b)] = (n, tuple((k, tuple(v)) for k, v in st.mem.items()))
        st.ghost["heads"] = tuple(heads.items())

    def open_ended(self, st, exits=None):
        """the current block decides, without the analysis knowing how, whether its loop goes on"""
        if not st.stack:
            return
        inst, b, fid = st.stack[-1][:3]
        body = self.C.body(inst)
        best = None
        for h, blocks in body.loops.items():
            if b in blocks and (best is None or len(blocks) < len(body.loops[best])):
                best = h
        if best is not None and (exits is None or any(x not in body.loops[best] and self.returns(body, x) for x in exits)):
            unk = dict(st.ghost.get("unk", ()))
            # a loop that only may stop early can still be one over a few known items
            unk[(fid, best)] = min(unk.get((fid, best), 99), self.WIDEN if exits is None else 3 * self.WIDEN)
            st.ghost["unk"] = tuple(unk.items())

    def returns(self, body, b):
        """can block b reach a return?"""
        r = getattr(body, "_returns", None)
        if r is None:
            r, todo = set(), [i for i, x in enumerate(body.blocks) if x.t["k"] == "ret"]
            while todo:
                x = todo.pop()
                if x not in r:
                    r.add(x)
                    todo += list(body.pred.get(x, ()))
            body._returns = r
        return b in r

    def terminator(self, st, body, fr, t, outs):
        if t["k"] == "assert":
            v = self.operand(st, fr[2], t["c"])
            if not isinstance(v, int) or v == (1 if t["exp"] else 0):
                fr[1] = t["to"]
                return [st]
            outs.append(Out(None, st, (self.C.insts[fr[0]]["path"], t.get("l"), t["m"][0])))
            return []
        if t["k"] == "ret":
            heads = tuple((k, v) for k, v in st.ghost.get("heads", ()) if k[0] != fr[2])
            st.ghost["heads"] = heads
        return super().terminator(st, body, fr, t, outs)

    def do_call(self, st, body, fr, t, outs):
        f = t["f"]
        fid = fr[2]
        if "op" in f:
            raise Unsupported("call through a pointer")
        args = [self.operand(st, fid, a) for a in t["a"]]
        inst = f.get("inst")
        if f["path"].startswith("core::ops::function::Fn") and args:
            ci = self.closure_inst(t["at"][0])
            if ci is not None:
                self.enter(st, ci, [args[0]] + list(args[1][1:]), t["d"], t["to"])
                return [st]
        if inst is not None and self.C.insts[inst] and self.C.insts[inst].get("body") and self.C.insts[inst].get("local"):
            self.enter(st, inst, args, t["d"], t["to"])
            return [st]
        if f.get("krate") not in ("core", "alloc", "std"):
            raise Unsupported(f.get("rpath") or f["path"])
        v = call_std(self, st, f, args, t)
        if v is PANIC:
            outs.append(Out(None, st, (self.C.insts[fr[0]]["path"], t.get("l"), f["name"])))
            return []
        if isinstance(v, list):
            return self.spread(v, t)
        return self.finish_call(st, t["d"], v, t["to"])

    def apply(self, st, clo, ty, args):
        """call of a closure or function value: [(state, result)]"""
        ci = self.closure_inst(ty)
        x = self.T[ty]
        if ci is None and x["k"] == "fndef":
            ci = x.get("inst")
            if ci is None or not self.C.insts[ci] or not self.C.insts[ci].get("body") or not self.C.insts[ci].get("local"):
                return [(st, apply_std(self, st, x, args))]
            full = list(args)
        else:
            if ci is None:
                raise Unsupported("call of an unknown function value")
            by_ref = self.T[self.C.body(ci).locals[1]]["k"] in ("ref", "ptr")
            if by_ref and not isinstance(clo, Ref):
                clo = Ref((("k", clo), 0, ()))
            if not by_ref and isinstance(clo, Ref):
                clo = self.deref(st, clo)
            full = [clo] + list(args)
        s = st.fork()
        s.stack = []
        self.enter(s, ci, full, None, None)
        res = []
        for o in self.explore(s):
            if o.panic:
                continue
            n = o.state
            n.stack = [list(q) for q in st.stack]
            res.append((n, o.ret))
        return res


def apply_std(m, st, x, args):
    n = x.get("name") or x.get("path", "").split("::")[-1]
    if n in ("into", "from", "clone", "to_vec", "to_owned", "into_boxed_slice", "deref", "as_slice", "as_ref", "into_vec"):
        return m.deref(st, args[0]) if n in ("clone", "to_vec", "to_owned") else args[0]
    if n == "Some":
        return some(args[0])
    if n == "is_empty":
        return EMPTY
    raise Unsupported("call of " + x.get("txt", "?"))


def widen(a, b):
    if type(a) is type(b) and a == b:
        return b
    if isinstance(a, int) and isinstance(b, int):
        return EMPTY
    if isinstance(a, Agg) and isinstance(b, Agg) and a[0] == b[0] == 20:
        return b
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a) == len(b) and a[0] == b[0]:
        return Agg((a[0],) + tuple(map(widen, a[1:], b[1:])))
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a) == len(b):
        return Arr(map(widen, a, b))
    if isinstance(b, Arr) or isinstance(b, Coll):
        return join(a, b) if isinstance(a, (Arr, Coll)) else b
    if isinstance(b, Lab) and isinstance(a, Lab):
        return Lab(a | b)
    return b


# ---------------------------------------------------------------- standard library

def items_of(m, st, v, by_ref=None):
    """what iterating over v yields: Agg((20, Arr)) for known items, Agg((21, item or None)) otherwise"""
    if isinstance(v, Agg) and v[0] in (20, 21) and len(v) == 2:
        return v
    if isinstance(v, Ref):
        x = m.load(st, *v)
        if isinstance(x, Ref):
            return items_of(m, st, x)
        if isinstance(x, Agg) and x[0] in (20, 21) and len(x) == 2:
            return x
        if isinstance(x, Agg) and x[0] == 32:
            # map: pairs of references
            c = x[1]
            if c[0] is None:
                return Agg((21, None))
            p = v[2] + (("f", 0), ("e", frozenset()))
            return Agg((21, Agg((0, Ref((v[0], v[1], p + (("f", 0),))), Ref((v[0], v[1], p + (("f", 1),)))))))
        if isinstance(x, Arr):
            return Agg((20, Arr(Ref((v[0], v[1], m.elem(v[2], i))) for i in range(len(x)))))
        if isinstance(x, Coll):
            return Agg((21, None if x[0] is None else Ref((v[0], v[1], v[2] + (("e", frozenset()),)))))
        if isinstance(x, Lab):
            return Agg((21, x))
        raise Unsupported("iteration over " + type(x).__name__)
    if isinstance(v, Arr):
        return Agg((20, v))
    if isinstance(v, Coll):
        return Agg((21, v[0]))
    if isinstance(v, Lab):
        return Agg((21, v))
    if isinstance(v, Agg) and v[0] == 32:
        return Agg((21, v[1][0]))
    return None


def is_range(m, t):
    return m.T[t]["k"] == "adt" and m.T[t]["txt"].startswith("core::ops::range::Range")


def map_items(m, st, it, fn):
    """apply fn(state, item) -> [(state, value)] to the items; -> [(state, [values], known?)]"""
    if it[0] == 20:
        cur = [(st, ())]
        for x in it[1]:
            cur = [(s2, vs + (r,)) for s, vs in cur for s2, r in fn(s, x)]
            if len(cur) > 256:
                raise Unsupported("too many outcomes")
        return [(s, list(vs), True) for s, vs in cur]
    if it[1] is None:
        return [(st, [], False)]
    # any number of times: the states in between and the results are collected until nothing new appears
    work, seen, vals = [st], {}, None
    while work:
        s = work.pop()
        k = tuple((q, tuple(v)) for q, v in s.mem.items())
        if k in seen:
            continue
        seen[k] = s
        if len(seen) > 40:
            raise Unsupported("too many outcomes")
        for s2, r in fn(s, it[1]):
            vals = join(vals, r)
            work.append(s2)
    return [(s, [] if vals is None else [vals], False) for s in seen.values()]


def build(vals, known):
    return Agg((20, Arr(vals))) if known else Agg((21, vals[0] if vals else None))


def collected(m, st, it, dt):
    x = m.T[dt]
    txt = x["txt"]
    if it[0] == 20:
        v = Arr(it[1])
    else:
        v = Coll((it[1], None))
    if "HashMap<" in txt.split("(")[0][:60] or "BTreeMap<" in txt[:60]:
        return Agg((32, flat(v)))
    if x.get("path") in ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::collections::vec_deque::VecDeque"):
        return v
    if x.get("path") in ("core::option::Option",) and it[0] == 20:
        if all(isinstance(q, Agg) for q in it[1]):
            return NONE if any(q[0] == 0 for q in it[1]) else some(Arr(q[1] for q in it[1]))
    raise Unsupported("collect into " + txt)


def option_call(m, st, n, path, a, av, good, args, at, t):
    T = m.T
    dw = m.width(t["dt"])[0]

    def clo(fn_args, k=-1, s=None):
        return m.apply(s or st, args[k], at[k], fn_args)

    yes = av[0] == good
    if n == "zip":
        b = args[1]
        return some(Agg((0, av[1], b[1]))) if yes and b[0] == 1 else NONE
    if n in ("is_some", "is_ok"):
        return int(yes)
    if n in ("is_none", "is_err"):
        return int(not yes)
    if n in ("is_some_and", "is_ok_and"):
        return clo([av[1]]) if yes else 0
    if n == "is_none_or":
        return clo([av[1]]) if yes else 1
    if n in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "as_slice"):
        return Agg((av[0], Ref((a[0], a[1], a[2] + (("f", 0),))))) if yes else NONE
    if n in ("replace", "insert", "take", "get_or_insert"):
        if n == "get_or_insert":
            if not yes:
                m.store(st, *a, some(args[1]))
            return Ref((a[0], a[1], a[2] + (("f", 0),)))
        m.store(st, *a, NONE if n == "take" else some(args[1]))
        return Ref((a[0], a[1], a[2] + (("f", 0),))) if n == "insert" else av
    if n == "get_or_insert_with":
        if yes:
            return Ref((a[0], a[1], a[2] + (("f", 0),)))
        res = []
        for s, r in clo([]):
            m.store(s, *a, some(r))
            res.append((s, Ref((a[0], a[1], a[2] + (("f", 0),)))))
        return res
    if n in ("unwrap", "expect"):
        return av[1] if yes else PANIC
    if n in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
        if yes:
            return av[1]
        if n == "unwrap_or":
            return args[1]
        if n == "unwrap_or_else":
            return clo([])
        return 0 if dw else Arr(())
    if n in ("cloned", "copied"):
        return some(m.deref(st, av[1])) if yes else NONE
    if n == "map":
        return [(s, some(r)) for s, r in clo([av[1]])] if yes else av
    if n == "and_then":
        return clo([av[1]]) if yes else av
    if n in ("or", "xor", "or_else"):
        return av if yes else (args[1] if n == "or" else clo([])) if n != "xor" else args[1]
    if n == "and":
        return args[1] if yes else NONE
    if n == "map_or":
        return clo([av[1]]) if yes else args[1]
    if n == "map_or_else":
        return clo([av[1]]) if yes else m.apply(st, args[1], at[1], [])
    if n == "filter":
        if not yes:
            return NONE
        res = []
        for s, r in clo([Ref((("k", av[1]), 0, ()))]):
            if isinstance(r, int):
                res.append((s, av if r else NONE))
            else:
                res += m.fork2(s, av, NONE)
        return res
    if n in ("ok_or", "ok_or_else"):
        return ok(av[1]) if yes else err()
    if n == "ok":
        return some(av[1]) if yes else NONE
    if n == "unzip":
        return Agg((0, some(av[1][1]), some(av[1][2]))) if yes else Agg((0, NONE, NONE))
    if n == "iter":
        return Agg((20, Arr((Ref((a[0], a[1], a[2] + (("f", 0),))),) if yes else ())))
    raise Unsupported(path)


def call_std(m, st, f, args, t):
    n = f["name"]
    path = f["path"]
    T = m.T
    a = args[0] if args else None
    at = t["at"]
    dw = m.width(t["dt"])[0]

    def clo(fn_args, k=-1, s=None):
        return m.apply(s or st, args[k], at[k], fn_args)

    av = m.deref(st, a) if isinstance(a, Ref) else a
    x0 = T[at[0]] if at else {"k": "?"}
    while x0["k"] in ("ref", "ptr"):
        x0 = T[x0["to"]]
    kind = x0.get("path", "")

    # options
    if kind in ("core::option::Option", "core::result::Result") and (path.startswith("core::option") or path.startswith("core::result")):
        good = 1 if kind == "core::option::Option" else 0
        if isinstance(av, Lab):
            # neither variant is excluded
            res = []
            for s, v in m.fork2(st, Agg((1 - good,)) if good else err(), Agg((good, av))):
                r = option_call(m, s, n, path, a, v, good, args, at, t)
                if r is PANIC:
                    continue
                res += r if isinstance(r, list) else [(s, r)]
            return res
        if not isinstance(av, Agg):
            raise Unsupported(n + " of an unknown option")
        return option_call(m, st, n, path, a, av, good, args, at, t)
    if n == "branch" and "Try" in path:
        good = 1 if kind == "core::option::Option" else 0
        if isinstance(av, Agg):
            return Agg((0, av[1])) if av[0] == good else Agg((1, av))
    if n == "from_residual":
        return av
    # iterators
    if n in ("iter", "iter_mut", "into_iter", "drain", "keys", "values", "values_mut", "chunks", "chunks_exact", "array_chunks", "windows"):
        if n == "into_iter" and at and is_range(m, at[0]):
            return a
        if n == "into_iter" and isinstance(a, Agg) and kind == "core::option::Option":
            return Agg((20, Arr(a[1:])))
        it = items_of(m, st, a)
        if it is not None:
            if n in ("keys", "values", "values_mut"):
                if it[0] != 21 or it[1] is not None and not isinstance(it[1], Agg):
                    raise Unsupported(path)
                return Agg((21, None if it[1] is None else it[1][1 if n == "keys" else 2]))
            if n in ("chunks", "chunks_exact", "array_chunks", "windows"):
                if isinstance(av, Arr) and isinstance(args[1], int) and args[1]:
                    k = args[1]
                    if n == "windows":
                        return Agg((20, Arr(Arr(av[i:i + k]) for i in range(len(av) - k + 1))))
                    cut = [Arr(av[i:i + k]) for i in range(0, len(av), k)]
                    return Agg((20, Arr(x for x in cut if n == "chunks" or len(x) == k)))
                return Agg((21, None if it[1] is None else Coll((flat(av)[0], None))))
            if n == "drain":
                m.store(st, *a, Arr(()) if isinstance(av, Arr) else NEWLIST)
                return items_of(m, st, av)
            return it
        raise Unsupported(path + " of " + type(av).__name__)
    it = av if isinstance(av, Agg) and av[0] in (20, 21) and len(av) == 2 and "iter" in kind + path else None
    if it is None and isinstance(av, Agg) and len(av) == 3 and kind.startswith("core::ops::range::Range") and path.startswith("core::iter"):
        lo, hi = av[1], av[2]
        inc = "Inclusive" in kind
        if n == "next":
            if isinstance(lo, int) and isinstance(hi, int):
                if lo >= hi + inc:
                    return NONE
                m.store(st, *a, Agg((0, lo + 1, hi)))
                return some(lo)
            v = Lab(labels(lo) | labels(hi))
            m.store(st, *a, Agg((0, v, hi if isinstance(hi, Lab) else v)))
            m.open_ended(st)
            return m.fork2(st, NONE, some(v))
        if isinstance(lo, int) and isinstance(hi, int):
            if hi - lo > 64:
                raise Unsupported("long range")
            it = Agg((20, Arr(range(lo, hi + inc))))
        else:
            it = Agg((21, Lab(labels(lo) | labels(hi))))
    if it is not None:
        r = iterate(m, st, n, path, it, a, args, at, t, clo)
        if r is not None:
            return r
        raise Unsupported(path)
    # collections
    if n in ("new", "with_capacity", "default", "with_capacity_and_hasher", "with_hasher"):
        dt = T[t["dt"]]
        p = dt.get("path", "")
        if p.endswith("HashMap") or p.endswith("BTreeMap") or p.endswith("HashSet"):
            return Agg((32, NEWLIST))
        if p == "alloc::vec::Vec":
            return Arr(())
        if p == "alloc::boxed::Box":
            return a
        if dw:
            return 0
        if p == "core::option::Option":
            return NONE
        if "RandomState" in p:
            return EMPTY
        raise Unsupported(path)
    if n == "from_elem":
        if isinstance(args[1], int) and args[1] <= 64:
            return Arr((a,) * args[1])
        return Coll((a, None))
    if isinstance(av, Agg) and len(av) == 2 and av[0] == 32:
        r = map_call(m, st, n, path, av, a, args, at, t, clo)
        if r is not None:
            return r
        raise Unsupported(path)
    if isinstance(av, Agg) and len(av) == 3 and av[0] == 33:
        return entry_call(m, st, n, path, av, args, at, t, clo)
    if n in ("is_empty",) and isinstance(av, (Arr, Coll, Lab)):
        if isinstance(av, Arr):
            return int(not av)
        if isinstance(av, Coll) and av[1] is not None:
            q = ("empty", av[1])
            known = dict(st.ghost.get("asked", ()))
            if q in known:
                return known[q]
            res = m.fork2(st, 0, 1)
            for s, v in res:
                s.ghost["asked"] = tuple(sorted(list(known.items()) + [(q, v)]))
            return res
        if isinstance(av, Coll) and av[0] is None:
            return 1
        return EMPTY
    if n in ("len", "capacity"):
        return len(av) if isinstance(av, Arr) and n == "len" else EMPTY
    if n in ("eq", "ne") and len(args) == 2:
        bv = m.deref(st, args[1])
        if isinstance(av, int) and isinstance(bv, int):
            return int((av == bv) == (n == "eq"))
        return Lab(x for x in labels(av) | labels(bv) if x != LOSSY)
    if n in ("cmp", "partial_cmp", "lt", "le", "gt", "ge"):
        return Lab(labels(av) | labels(m.deref(st, args[1])))
    if n in ("push", "push_back") and isinstance(a, Ref):
        if isinstance(av, Arr):
            m.store(st, *base(m, st, a), Arr(av + (args[1],)) if len(av) < 8 else Coll((join(flat(av)[0], args[1]), None)))
        elif isinstance(av, Coll):
            m.store(st, *base(m, st, a), Coll((join(av[0], args[1]), None)))
        elif isinstance(av, Lab):
            m.store(st, *base(m, st, a), Lab(av | labels(args[1])))
        else:
            raise Unsupported(path)
        return UNIT
    if n in ("extend", "extend_from_slice", "append") and isinstance(a, Ref):
        b = args[1]
        bi = items_of(m, st, b)
        if bi is None:
            raise Unsupported(path)
        vals = list(bi[1]) if bi[0] == 20 else [bi[1]]
        vals = [m.deref(st, v) if isinstance(v, Ref) else v for v in vals if v is not None]
        if n == "append":
            m.store(st, *base(m, st, b), NEWLIST)
        if isinstance(av, Arr) and bi[0] == 20:
            v = Arr(av + tuple(vals))
        else:
            e = flat(av)[0]
            for q in vals:
                e = join(e, q)
            v = Coll((e, None))
        m.store(st, *base(m, st, a), v)
        return UNIT
    if n in ("clear", "truncate") and isinstance(a, Ref):
        m.store(st, *base(m, st, a), Arr(()) if n == "clear" else Coll((flat(av)[0], None)))
        return UNIT
    if n in ("sort", "sort_by", "sort_unstable", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "reverse", "dedup", "retain",
             "shuffle", "rotate_left", "rotate_right", "swap") and isinstance(a, Ref) and isinstance(av, (Arr, Coll)) and "mem" not in path:
        c = flat(av)
        m.store(st, *base(m, st, a), Coll((c[0], None)))
        return UNIT
    if n == "black_box":
        return a
    if n in ("reserve", "shrink_to_fit", "drop", "forget", "reserve_exact"):
        return UNIT
    if n in ("index", "index_mut", "get", "get_mut", "get_unchecked", "first", "last", "first_mut", "last_mut") and isinstance(a, Ref):
        r = base(m, st, a)
        if n in ("first", "last", "first_mut", "last_mut"):
            i = (0 if "first" in n else len(av) - 1) if isinstance(av, Arr) else EMPTY
            if isinstance(av, Arr) and not av:
                return NONE
        else:
            i = m.deref(st, args[1])
        opt = n not in ("index", "index_mut", "get_unchecked")
        if isinstance(i, (int, Lab)):
            if isinstance(av, Arr) and isinstance(i, int) and i >= len(av):
                return NONE if opt else PANIC
            if isinstance(av, Coll) and av[0] is None:
                return NONE if opt else PANIC
            v = Ref((r[0], r[1], m.elem(r[2], i)))
            if not opt:
                return v
            return some(v) if isinstance(av, Arr) and isinstance(i, int) else m.fork2(st, NONE, some(v))
        if "RangeFull" in T[at[1]]["txt"]:
            return a
        if isinstance(av, Coll) and n.startswith("index"):
            # a part of a collection of unknown length: the same summary
            return Ref((("k", Coll((av[0], None))), 0, ())) if n == "index" else a
        raise Unsupported(path)
    if n in ("clone", "to_vec", "to_owned", "into_vec", "into_boxed_slice", "cloned"):
        return av if n != "cloned" else None
    if n in ("into", "from", "try_into", "try_from"):
        if isinstance(a, int) or isinstance(a, Lab):
            return a if n in ("into", "from") else ok(a)
        d = T[t["dt"]]
        if d["k"] == "ref" or n.startswith("try"):
            raise Unsupported(path)
        return av
    if n in ("deref", "deref_mut", "as_ref", "as_mut", "as_slice", "as_mut_slice", "borrow", "borrow_mut", "leak"):
        while isinstance(a, Ref) and isinstance(m.load(st, *a), Ref):
            a = m.load(st, *a)
        return a
    if n in ("swap", "replace", "take") and "mem" in path and isinstance(a, Ref):
        old = m.load(st, *a)
        if n == "take":
            p = x0.get("path")
            m.store(st, *a, NONE if p == "core::option::Option" else Arr(()) if p == "alloc::vec::Vec" else 0)
            return old
        if n == "replace":
            m.store(st, *a, args[1])
            return old
        b = m.load(st, *args[1])
        m.store(st, *a, b)
        m.store(st, *args[1], old)
        return UNIT
    if n in ("panic", "panic_fmt", "panic_display", "unreachable", "panic_nounwind", "expect_failed", "unwrap_failed", "assert_failed", "panic_explicit"):
        return PANIC
    if n in ("min", "max") and len(args) == 2 and all(isinstance(q, (int, Lab)) for q in args):
        if all(isinstance(q, int) for q in args) and not m.width(at[0])[1]:
            return min(args) if n == "min" else max(args)
        return Lab(labels(args[0]) | labels(args[1]))
    if dw and args and all(isinstance(q, (int, Lab)) for q in args) and path.startswith("core::num"):
        return Lab(frozenset().union(*map(labels, args)))
    if n in ("from_fn",) and T[t["dt"]]["k"] == "array" and isinstance(T[t["dt"]].get("len"), int):
        return [(s, Arr(v)) for s, v, _ in map_items(m, st, Agg((20, Arr(range(T[t["dt"]]["len"])))), lambda s, x: clo([x], s=s))]
    if n == "map" and x0["k"] == "array" and isinstance(av, Arr):
        return [(s, Arr(v)) for s, v, _ in map_items(m, st, Agg((20, av)), lambda s, x: clo([x], s=s))]
    raise Unsupported(path)


def base(m, st, a):
    """the place behind references to references"""
    while isinstance(a, Ref) and isinstance(m.load(st, *a), Ref):
        a = m.load(st, *a)
    return a


def map_call(m, st, n, path, av, a, args, at, t, clo):
    e = av[1][0]
    if n in ("len",):
        return EMPTY
    if n == "is_empty":
        return 1 if e is None else EMPTY
    if n == "entry":
        return Agg((33, base(m, st, a), args[1]))
    b = base(m, st, a)

    def put(k, v):
        m.store(st, *b, Agg((32, Coll((join(m.load(st, *b)[1][0], Agg((0, k, v))), None)))))
    if n == "insert":
        if len(args) == 2:
            put(args[1], UNIT)
            return EMPTY
        put(args[1], args[2])
        return m.fork2(st, NONE, some(e[2])) if e is not None else NONE
    if n in ("get", "get_mut", "contains_key", "contains", "remove"):
        if e is None:
            return NONE if not n.startswith("contains") else 0
        k = labels(m.deref(st, args[1]))
        if n.startswith("contains"):
            return Lab(k)
        p = Ref((b[0], b[1], b[2] + (("f", 0), ("e", frozenset(k)), ("f", 1))))
        return m.fork2(st, NONE, some(p if n != "remove" else m.load(st, *p)))
    if n in ("index",):
        if e is None:
            return PANIC
        k = labels(m.deref(st, args[1]))
        return Ref((b[0], b[1], b[2] + (("f", 0), ("e", frozenset(k)), ("f", 1))))
    if n in ("clone",):
        return av
    return None


def entry_call(m, st, n, path, av, args, at, t, clo):
    b, key = av[1], av[2]
    where = Ref((b[0], b[1], b[2] + (("f", 0), ("e", frozenset(labels(key))), ("f", 1))))

    def put(s, v):
        e = m.load(s, *b)[1][0]
        m.store(s, *b, Agg((32, Coll((join(e, Agg((0, key, v))), None)))))

    if n in ("or_insert_with", "or_insert", "or_default", "or_insert_with_key"):
        res = []
        if m.load(st, *b)[1][0] is not None:
            s = st.fork()
            res.append((s, where))
        vs = [(st, args[1])] if n == "or_insert" else clo([]) if n == "or_insert_with" else [(st, 0)] if n == "or_default" and "usize" in m.T[at[0]]["txt"] else None
        if vs is None:
            raise Unsupported(path)
        for s, v in vs:
            put(s, v)
            res.append((s, where))
        return res
    raise Unsupported(path)


def iterate(m, st, n, path, it, a, args, at, t, clo):
    known = it[0] == 20
    v = it[1]
    if n in ("into_iter", "by_ref", "iter", "fuse", "peekable"):
        return it if n != "by_ref" else a
    if n == "next":
        if known:
            if not v:
                return NONE
            m.store(st, *a, Agg((20, Arr(v[1:]))))
            return some(v[0])
        m.open_ended(st)
        return NONE if v is None else m.fork2(st, NONE, some(v))
    if n in ("copied", "cloned"):
        return Agg((20, Arr(m.deref(st, x) for x in v))) if known else Agg((21, None if v is None else m.deref(st, v)))
    if n == "rev":
        return Agg((20, Arr(v[::-1]))) if known else it
    if n in ("take", "skip", "step_by"):
        if known and isinstance(args[1], int):
            k = args[1]
            return Agg((20, Arr(v[:k] if n == "take" else v[k:] if n == "skip" else v[::k or 1])))
        return Agg((21, flat(v)[0] if known else v))
    if n == "enumerate":
        return Agg((20, Arr(Agg((0, i, x)) for i, x in enumerate(v)))) if known else Agg((21, None if v is None else Agg((0, EMPTY, v))))
    if n in ("zip", "chain"):
        o = items_of(m, st, args[1])
        if o is None and len(args) > 1 and isinstance(args[1], Agg) and len(args[1]) in (2, 3):
            o = Agg((21, EMPTY))
        if o is None:
            return None
        if n == "zip":
            if known and o[0] == 20:
                return Agg((20, Arr(Agg((0, x, y)) for x, y in zip(v, o[1]))))
            x, y = (join_all(v) if known else v), (join_all(o[1]) if o[0] == 20 else o[1])
            return Agg((21, None if x is None or y is None else Agg((0, x, y))))
        if known and o[0] == 20:
            return Agg((20, Arr(v + o[1])))
        return Agg((21, join(join_all(v) if known else v, join_all(o[1]) if o[0] == 20 else o[1])))
    if n == "map":
        return [(s, build(r, k)) for s, r, k in map_items(m, st, it, lambda s, x: clo([x], s=s))]
    if n == "inspect":
        return it
    if n in ("filter_map", "flat_map", "flatten", "filter", "take_while", "skip_while", "map_while"):
        if n == "flatten":
            xs = list(v) if known else [v] if v is not None else []
            ds = [m.deref(st, x) for x in xs]
            if known and all(isinstance(x, Agg) and len(x) <= 2 and x[0] in (0, 1) for x in ds):
                # options
                return Agg((20, Arr((Ref((x[0], x[1], x[2] + (("f", 0),))) if isinstance(x, Ref) else x[1]) for x, d in zip(xs, ds) if d[0] == 1)))
            r = None
            for x in xs:
                i = items_of(m, st, x)
                if i is None:
                    return None
                r = join(r, join_all(i[1]) if i[0] == 20 else i[1])
            return Agg((21, r))
        if n == "filter_map":
            def kept(s, x):
                for s2, r in clo([x], s=s):
                    if isinstance(r, Lab):
                        yield s2, r
                        yield s2, None
                    elif isinstance(r, Agg):
                        yield s2, (r[1] if r[0] == 1 else None)
                    else:
                        raise Unsupported(path)
            return [(s, build([q for q in r if q is not None], k)) for s, r, k in map_items(m, st, it, kept)]
        if n == "filter":
            if known:
                cur = [(st, ())]
                for x in v:
                    nx = []
                    for s, got in cur:
                        for s2, r in clo([Ref((("k", x), 0, ()))], s=s):
                            if isinstance(r, int):
                                nx.append((s2, got + ((x,) if r else ())))
                            else:
                                nx += [(q, got + ((x,) if y else ())) for q, y in m.fork2(s2, True, False)]
                    cur = nx
                return [(s, Agg((20, Arr(g)))) for s, g in cur]
            return it
        return None
    if n in ("for_each", "fold", "any", "all", "position", "find", "count", "sum", "max", "min", "last", "nth", "try_for_each"):
        if n == "count":
            return len(v) if known else EMPTY
        if n == "for_each":
            return [(s, UNIT) for s, _, _ in map_items(m, st, it, lambda s, x: clo([x], s=s))]
        if n in ("any", "all"):
            if known:
                cur, res = [st], []
                for x in v:
                    nx = []
                    for s in cur:
                        for s2, r in clo([x], s=s):
                            if isinstance(r, int):
                                (res.append((s2, int(n == "any"))) if bool(r) == (n == "any") else nx.append(s2))
                            else:
                                p, q = m.fork2(s2, 0, 1)
                                res.append((p[0], int(n == "any")))
                                nx.append(q[0])
                    cur = nx
                return res + [(s, int(n == "all")) for s in cur]
            if v is None:
                return int(n == "all")
            return [(s, EMPTY) for s, _, _ in map_items(m, st, it, lambda s, x: clo([x], s=s))]
        if n == "fold" and known:
            cur = [(st, args[1])]
            for x in v:
                cur = [(s2, r) for s, acc in cur for s2, r in clo([acc, x], s=s)]
            return cur
        if n in ("sum", "max", "min"):
            r = frozenset()
            for x in (v if known else [v]):
                r |= labels(m.deref(st, x)) if x is not None else frozenset()
            return Lab(r) if n == "sum" else m.fork2(st, NONE, some(Lab(r)))
        if n == "position":
            return m.fork2(st, NONE, some(EMPTY))
        if n in ("last", "nth") and not known:
            return NONE if v is None else m.fork2(st, NONE, some(v))
        return None
    if n == "collect":
        return collected(m, st, it, t["dt"])
    if n == "unzip":
        if known:
            return Agg((0, Arr(x[1] for x in v), Arr(x[2] for x in v)))
        return Agg((0, Coll((v[1] if v is not None else None, None)), Coll((v[2] if v is not None else None, None))))
    if n in ("len", "size_hint"):
        return len(v) if known and n == "len" else EMPTY
    return None


def join_all(v):
    e = None
    for x in v:
        e = join(e, x)
    return e
