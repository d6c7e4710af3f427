"""C17: call-graph effect analysis and a hash-iteration-order taint analysis."""
import re

from ..base import *

# ---------------------------------------------------------------- effects
DENY = [
    ("file system", r"^std::fs::|^tokio::fs::|^std::os::|^std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)"),
    ("network", r"^std::net::|^tokio::net::"),
    ("environment", r"^std::env::"),
    ("process", r"^std::process::|^tokio::process::|^tokio::signal::"),
    ("clock", r"^std::time::|^tokio::time::"),
    ("standard streams", r"^std::io::stdio::|^std::io::(_print|_eprint|stdin|stdout|stderr)|^tokio::io::(stdin|stdout|stderr)"),
    ("thread identity", r"^std::thread::|^std::sync::mpsc"),
    ("random source", r"^(rand|rand_core|getrandom|fastrand|oorandom)::|RandomState.*::(new|hash_one|build_hasher)|^core::hash::BuildHasher::hash_one|^std::hash::random::"),
    ("address", r"fmt::Pointer>?::fmt|::new_pointer|::expose_provenance|^core::ptr::.*::addr$|fmt::pointer_fmt"),
]
DENY = [(n, re.compile(p)) for n, p in DENY]
MUTSTATE = re.compile(r"\b(Atomic\w*|Mutex|RwLock|RefCell|Cell|UnsafeCell|LocalKey)\b|\*mut ")
PURE = re.compile(r"^(core|alloc|std::(collections|f32|f64|error|io|sync|vec|string|hash)|futures_util|futures_executor|futures_core|futures_task|futures_channel|lazy_static|smallvec|thiserror|tokio::(task::spawn|runtime)|fast_math|<)")


def consts(o):
    """all constants and aggregate heads inside a statement or terminator"""
    if isinstance(o, dict):
        if "c" in o and isinstance(o["c"], dict) and "t" in o["c"]:
            yield o["c"]
        for v in o.values():
            yield from consts(v)
    elif isinstance(o, list):
        for v in o:
            yield from consts(v)


class Graph:
    def __init__(self, C):
        self.C = C
        self.calls = {}
        drops = {}
        for r in C.roots:
            if r.get("trait") and "ops::drop::Drop" in str(r["trait"]) and r["path"].endswith("::drop"):
                drops[r["self_ty"]] = r["inst"]
        self.drops = drops

    def ty_insts(self, t):
        x = self.C.types[t]
        if x["k"] in ("closure", "coroutine") and x.get("inst") is not None:
            yield x["inst"], None
        if x["k"] == "fndef":
            yield x["callee"].get("inst"), x["callee"]

    def out(self, i):
        """(callee instance or None, callee description, location) of everything instance i can call"""
        if i in self.calls:
            return self.calls[i]
        C = self.C
        res = []
        x = C.insts[i]
        bodies = [x["body"]] if x and x.get("body") else []
        if x:
            bodies += [p for p in (x.get("promoted") or []) if p]
        for b in bodies:
            for blk in b["blocks"]:
                t = blk["t"]
                loc = t.get("l")
                for s in blk["s"]:
                    if s[0] == "=":
                        rv = s[2]
                        if rv[0] == "agg" and rv[1][0] in ("closure", "coroutine"):
                            for inst, f in self.ty_insts(rv[1][1]):
                                res.append((inst, f, s[3] if len(s) > 3 else loc))
                        if rv[0] == "cast" and "Expose" in str(rv[1]):
                            res.append((None, {"path": "core::ptr::expose_provenance", "krate": "core"}, s[3] if len(s) > 3 else loc))
                    for c in consts(s):
                        for inst, f in self.ty_insts(c["t"]):
                            res.append((inst, f, s[-1]))
                for c in consts({k: v for k, v in t.items() if k in ("a", "on", "c", "f")}):
                    for inst, f in self.ty_insts(c["t"]):
                        res.append((inst, f, loc))
                if t["k"] == "call":
                    f = t["f"]
                    if "path" in f:
                        res.append((f.get("inst"), f, loc))
                        # closures and functions passed as type arguments
                        for a in f.get("args") or []:
                            if isinstance(a, int):
                                for inst, g in self.ty_insts(a):
                                    res.append((inst, g, loc))
                elif t["k"] == "drop":
                    p = C.types[t["t"]].get("path")
                    if p in drops_of(self):
                        res.append((drops_of(self)[p], None, loc))
        self.calls[i] = res
        return res


def drops_of(g):
    return g.drops


def denied(f):
    for n in (f.get("path"), f.get("rpath")):
        if n:
            for what, rx in DENY:
                if rx.search(n):
                    return what, n
    return None


def effects(o, C):
    g = Graph(C)
    roots = [r for r in C.roots if r["exported"]]
    seen_bad = set()
    externals = set()
    total = set()
    for r in roots:
        parent = {r["inst"]: None}
        todo = [r["inst"]]
        clean = True
        while todo:
            i = todo.pop()
            for inst, f, loc in g.out(i):
                if f:
                    d = denied(f)
                    if d:
                        clean = False
                        key = (d, i)
                        if key not in seen_bad:
                            seen_bad.add(key)
                            chain = []
                            k = i
                            while k is not None:
                                chain.append(C.insts[k]["path"])
                                k = parent[k]
                            o.fail("no effect outside the arguments", f"{d[0]}|{C.insts[i]['path']}", where(C.insts[i]["path"], loc),
                                   f"{d[0]} reached through {d[1]}: " + " <- ".join(chain))
                        continue
                    if inst is None or not C.insts[inst] or not C.insts[inst].get("body"):
                        n = f.get("rpath") or f["path"]
                        externals.add(n)
                        if f.get("krate") != "tmf" and not PURE.match(f["path"]) and not PURE.match(n):
                            o.undecided("only known external functions", f["path"], where(C.insts[i]["path"], loc), "effects of this function are not known")
                if inst is not None and inst not in parent and C.insts[inst]:
                    parent[inst] = i
                    todo.append(inst)
        total |= set(parent)
        if clean:
            o.good("no effect outside the arguments")
    o.count("functions reachable from the public API", len(total))
    o.count("external functions reached", len(externals))
    # mutable global state
    for i in sorted(total):
        x = C.insts[i]
        for b in ([x["body"]] if x.get("body") else []):
            for blk in b["blocks"]:
                for s in list(blk["s"]) + [blk["t"]]:
                    for c in consts(s if isinstance(s, list) else {k: v for k, v in s.items() if k in ("a", "on", "c", "f")}):
                        if "static" in c:
                            txt = C.txt(c["t"])
                            if x.get("krate", "tmf") != "tmf":
                                continue
                            if MUTSTATE.search(txt):
                                o.fail("no mutable global state", f"{c['static']}|{x['path']}", where(x["path"], s[-1] if isinstance(s, list) else s.get("l")),
                                       f"the result can depend on global state {c['static']}: {txt}")
                            else:
                                o.good("no mutable global state")
    o.good("no mutable global state")


# ---------------------------------------------------------------- hash order taint
HASHES = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "hashbrown::map::HashMap", "hashbrown::set::HashSet")
ITERS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "extract_if", "union",
         "intersection", "difference", "symmetric_difference"}
UNORDERED = {"count", "len", "all", "any", "is_empty", "size_hint", "contains", "contains_key", "capacity", "with_capacity", "reserve",
             "drop", "for_each_nothing", "max", "min", "eq_unordered", "is_some", "is_none"}
SORTS = {"sort", "sort_unstable"}
SORTBY = {"sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "sorted_by_key"}
KEYED = {"insert", "entry", "get_mut", "index_mut", "get_or_insert_with", "swap_remove_entry", "remove", "contains"}
I, O = 1, 2


UNORD = re.compile(r"FuturesUnordered|select_all|select_ok|buffer_unordered|for_each_concurrent|mpsc|JoinSet|as_completed|broadcast|crossbeam|flume|Mutex|RwLock|Atomic")


class Taint:
    """level per local: 0 does not depend on the hash order, 1 depends on the item of the current
    iteration over a hash table, 2 depends on the order of the iterations"""

    def __init__(self, C):
        self.C = C
        self.memo = {}
        self.sources = []
        self.checked_sorts = []
        self.bad_sorts = []
        self.nfn = 0

    def local(self, i):
        x = self.C.insts[i] if i is not None else None
        return bool(x and x.get("body") and (x.get("krate", "tmf") == "tmf" or "{closure" in x["path"]) and x.get("local", True))

    def hash_ty(self, t):
        C = self.C
        x = C.types[t]
        while x["k"] == "ref":
            x = C.types[x["to"]]
        if x["k"] == "adt" and x["path"] in HASHES:
            last = [C.txt(a) for a in C.args(x)]
            if any("RandomState" in a for a in last) or len(last) < 2:
                return True
            if any("BuildHasherDefault" in a for a in last):
                return False
            return True
        return False

    def source(self, f, name, recv, at, body, d):
        """True: the result depends on the order; False: an event without result; None: not a source"""
        if recv is not None and self.hash_ty(recv):
            if name in ITERS or (name == "fmt" and "Debug" in str(f.get("trait"))):
                return True
            if name == "retain":
                return False
        return None

    def int_ty(self, t):
        return self.C.types[t]["k"] == "int"

    def summary(self, inst, args, loop=False):
        """(taint of the result, taints of the arguments afterwards)"""
        key = (inst, tuple(args), loop)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (0, tuple(args))
        for _ in range(4):
            r = self.run(inst, args, loop)
            if r == self.memo[key]:
                break
            self.memo[key] = r
        return self.memo[key]

    def run(self, inst, args, loop):
        C = self.C
        body = C.body(inst)
        self.nfn += 1
        nargs = body.argc
        pts = self.points(body)
        init = {}
        for k in range(nargs):
            if k < len(args):
                init[k + 1] = args[k]
        states = {0: init}
        ret = 0
        outs = list(args)
        work = [0]
        rounds = 0
        carried = {}
        inloops = {b: [h for h, bl in body.loops.items() if b in bl] for b in body.rpo}
        hashloops = set()
        while work and rounds < 4000:
            rounds += 1
            b = work.pop(0)
            st = dict(states[b])
            blk = body.blocks[b]
            for s in blk.s:
                if s[0] == "=":
                    self.assign(body, b, st, pts, s, inloops, hashloops, carried, loop)
            t = blk.t
            if t["k"] == "call":
                self.call(body, b, st, pts, t, inloops, hashloops, carried, loop)
            elif t["k"] == "ret":
                ret = max(ret, self.rd(st, pts, [0]), self.deep(st, pts, 0))
                for k in range(nargs):
                    if k < len(outs):
                        outs[k] = max(outs[k], st.get(k + 1, 0))
            for s in blk.succ:
                if s not in body.pos:
                    continue
                n = dict(st)
                # leaving a loop over a hash table: what depends on an item now depends on the order
                left = [h for h in inloops[b] if h in hashloops and s not in body.loops[h]]
                if left:
                    for l in n:
                        if n[l] == I and l not in carried.get("iters", ()):
                            n[l] = O
                old = states.get(s)
                if old is None:
                    states[s] = n
                    work.append(s)
                else:
                    ch = False
                    for l, v in n.items():
                        if v > old.get(l, 0):
                            old[l] = v
                            ch = True
                    if ch and s not in work:
                        work.append(s)
        if not loop and ret == I:
            ret = O
        return ret, tuple(outs)

    def points(self, body):
        pts = {}
        ch = True

        def of(pl):
            b = pl[0]
            if any(e[0] == "*" for e in pl[1:]):
                return pts.get(b) or {b}
            return {b}

        def add(l, s):
            cur = pts.setdefault(l, set())
            if not s <= cur:
                cur |= s
                return True
            return False

        def ops(o):
            p = o.get("cp") or o.get("mv")
            return pts.get(p[0], set()) if p else set()
        n = 0
        while ch and n < 40:
            ch = False
            n += 1
            for b in body.rpo:
                for s in body.blocks[b].s:
                    if s[0] != "=":
                        continue
                    d = s[1][0]
                    rv = s[2]
                    if rv[0] in ("ref", "rawptr"):
                        ch |= add(d, of(rv[2]))
                    elif rv[0] == "use":
                        ch |= add(d, ops(rv[1]))
                    elif rv[0] == "cast":
                        ch |= add(d, ops(rv[2]))
                    elif rv[0] == "agg":
                        for x in rv[2]:
                            ch |= add(d, ops(x))
                t = body.blocks[b].t
                if t["k"] == "call":
                    d = t["d"][0]
                    txt = self.C.txt(body.locals[d]) if isinstance(body.locals[d], int) else "&"
                    if t["f"].get("name") in ("next", "next_back"):
                        if "&mut" in txt:
                            for a in t["a"]:
                                for y in list(ops(a)):
                                    ch |= add(d, pts.get(y, set()))
                    elif "&" in txt or "'" in txt or "Entry" in txt or "Iter" in txt or "Drain" in txt:
                        for a in t["a"]:
                            ch |= add(d, ops(a))
        return pts

    def deep(self, st, pts, l):
        return max([st.get(l, 0)] + [st.get(x, 0) for x in pts.get(l, ())])

    def rd(self, st, pts, pl):
        v = st.get(pl[0], 0)
        if any(e[0] == "*" for e in pl[1:]):
            v = max(v, *[st.get(x, 0) for x in pts.get(pl[0], ())], 0)
        for e in pl[1:]:
            if e[0] == "i":
                v = max(v, st.get(e[1], 0))
        return v

    def op(self, st, pts, o, deep=False):
        p = o.get("cp") or o.get("mv")
        if not p:
            return 0
        v = self.rd(st, pts, p)
        if deep:
            v = max(v, self.deep(st, pts, p[0]))
        return v

    def base(self, o):
        p = o.get("cp") or o.get("mv")
        return p[0] if p else None

    def is_carried(self, body, b, l, inloops, hashloops):
        """l holds, at the start of an iteration over a hash table, a value computed by earlier iterations"""
        for h in inloops[b]:
            if h in hashloops and l in body.live.get(h, ()):
                for k in body.loops[h]:
                    for s in body.blocks[k].s:
                        if s[0] == "=" and s[1][0] == l:
                            return True
        return False

    def acc(self, body, l):
        """the variable the temporary l is finally stored into"""
        for b in body.rpo:
            for s in body.blocks[b].s:
                if s[0] == "=" and s[2][0] == "use" and self.base(s[2][1]) == l:
                    return s[1][0]
        return None

    def assign(self, body, b, st, pts, s, inloops, hashloops, carried, loop):
        d, rv = s[1], s[2]
        k = rv[0]
        v = 0
        if k == "use":
            v = self.op(st, pts, rv[1])
            l = self.base(rv[1])
        elif k == "repeat":
            v = self.op(st, pts, rv[1])
        elif k in ("ref", "rawptr"):
            v = 0 if len(rv[2]) == 1 else self.rd(st, pts, rv[2])
        elif k == "cast":
            v = self.op(st, pts, rv[2])
        elif k == "bin":
            x, y = self.op(st, pts, rv[2]), self.op(st, pts, rv[3])
            v = max(x, y)
            if v == I and rv[1].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Mul", "BitXor", "BitOr", "BitAnd"):
                # commutative integer accumulation into a variable that lives across the iterations
                tgt = self.acc(body, d[0]) or d[0]
                for o_, other in ((rv[2], y), (rv[3], x)):
                    bl = self.base(o_)
                    src = bl
                    if bl is not None and bl == tgt and st.get(bl, 0) == 0 and self.int_local(body, tgt):
                        v = 0
        elif k == "un":
            v = self.op(st, pts, rv[2])
        elif k == "discr":
            v = self.rd(st, pts, rv[1])
        elif k == "agg":
            for o_ in rv[2]:
                v = max(v, self.op(st, pts, o_))
            if rv[1][0] == "coroutine":
                x = self.C.types[rv[1][1]]
                if self.local(x.get("inst")):
                    r, outs = self.summary(x["inst"], (v,))
                    v = max((v, r) + tuple(outs))
        if k == "use" and v <= I and self.keyed_place(st, d) and self.from_carried(body, b, rv[1], inloops, hashloops):
            v = O
        self.write(body, b, st, pts, d, v, inloops, hashloops)

    def keyed_place(self, st, d):
        return len(d) > 1 and (any(e[0] == "i" and st.get(e[1], 0) >= I for e in d[1:]) or st.get(("key", d[0]), 0))

    def from_carried(self, body, b, o, inloops, hashloops):
        """the operand copies a variable that earlier iterations over a hash table changed"""
        l = self.base(o)
        for _ in range(6):
            if l is None:
                return False
            if self.is_carried(body, b, l, inloops, hashloops):
                return True
            n = None
            for s in body.blocks[b].s:
                if s[0] == "=" and s[1] == [l] and s[2][0] in ("use", "cast"):
                    n = self.base(s[2][1] if s[2][0] == "use" else s[2][2])
            l = n
        return False

    def int_local(self, body, l):
        t = body.locals[l]
        return isinstance(t, int) and self.C.types[t]["k"] == "int"

    def write(self, body, b, st, pts, d, v, inloops, hashloops):
        inh = any(h in hashloops for h in inloops[b])
        keyed = False
        for e in d[1:]:
            if e[0] == "i":
                if st.get(e[1], 0) >= I:
                    keyed = True
        tg = [d[0]]
        if any(e[0] == "*" for e in d[1:]):
            tg = list(pts.get(d[0]) or {d[0]})
            if st.get(("key", d[0]), 0):
                keyed = True
        if keyed and v <= I:
            return
        if len(d) == 1:
            st[d[0]] = v
            return
        if v == I and inh and not keyed:
            # overwritten by every iteration (or stored at a position that is not the item's own)
            idx = any(e[0] == "i" for e in d[1:]) or any(e[0] == "*" for e in d[1:])
            if idx and any(self.outer(body, b, x, inloops, hashloops) for x in tg):
                v = O
        for x in tg:
            st[x] = max(st.get(x, 0), v)

    def outer(self, body, b, l, inloops, hashloops):
        return any(h in hashloops and l in body.live.get(h, ()) for h in inloops[b])

    def call(self, body, b, st, pts, t, inloops, hashloops, carried, loop):
        C = self.C
        f = t["f"]
        d = t["d"]
        args = t["a"]
        inh = [h for h in inloops[b] if h in hashloops]
        tv = [self.op(st, pts, a, True) for a in args]
        mx = max(tv + [0])
        name = f.get("name", "")
        inst = f.get("inst")
        if "path" not in f:
            self.write(body, b, st, pts, d, mx, inloops, hashloops)
            return
        at = t.get("at") or []
        recv = at[0] if at else None
        # ---- sources
        src = self.source(f, name, recv, at, body, d)
        if src is not None:
            self.sources.append((body.inst, tuple(t.get("l") or ())))
            if src:
                self.write(body, b, st, pts, d, O, inloops, hashloops)
            return
        if name == "next" or name == "next_back":
            if mx >= O:
                ls = inloops[b]
                if ls:
                    h = min(ls, key=lambda h: len(body.loops[h]))
                    hashloops.add(h)
                    self.write(body, b, st, pts, d, I, inloops, hashloops)
                else:
                    self.write(body, b, st, pts, d, I if loop else O, inloops, hashloops)
            else:
                self.write(body, b, st, pts, d, mx, inloops, hashloops)
            return
        if self.local(inst):
            r, outs = self.summary(inst, tuple(tv), bool(inh) or loop)
            for a, before, after in zip(args, tv, outs):
                if after > before:
                    self.mutate(st, pts, a, after if not inh else O)
            if r == I and not inh and not loop:
                r = O
            self.write(body, b, st, pts, d, r, inloops, hashloops)
            return
        # ---- sanitisers
        if name in SORTS and mx:
            self.clean(st, pts, args[0])
            self.checked_sorts.append((body.inst, tuple(t.get("l") or ())))
            self.write(body, b, st, pts, d, 0, inloops, hashloops)
            return
        if name in SORTBY:
            if mx:
                ok = self.total_key(f, args, at, name)
                (self.checked_sorts if ok else self.bad_sorts).append((body.inst, tuple(t.get("l") or ())))
                if ok:
                    self.clean(st, pts, args[0])
            self.write(body, b, st, pts, d, 0, inloops, hashloops)
            return
        if name in UNORDERED:
            dt = body.locals[d[0]] if len(d) == 1 else None
            self.write(body, b, st, pts, d, I if any(v == I for v in tv) else 0, inloops, hashloops)
            return
        if name in ("sum", "product", "fold") and dt_int(self, body, d) and name != "fold":
            self.write(body, b, st, pts, d, 0 if mx == O else mx, inloops, hashloops)
            return
        if name in ("collect", "from_iter", "extend"):
            dt = body.locals[d[0]] if name != "extend" else (recv if recv is not None else None)
            if isinstance(dt, int):
                x = C.types[dt]
                while x["k"] == "ref":
                    x = C.types[x["to"]]
                if x["k"] == "adt" and ("hash" in x["path"].lower() or "btree" in x["path"].lower() or "BTree" in x["path"]):
                    self.write(body, b, st, pts, d, 0, inloops, hashloops)
                    return
        # ---- keyed access: the position is the item's own
        if name in KEYED and len(args) >= 2 and tv[1] >= I and all(v <= I for v in tv[1:]) and tv[0] == 0:
            self.write(body, b, st, pts, d, 0, inloops, hashloops)
            st[("key", d[0])] = 1
            if any(self.from_carried(body, b, a, inloops, hashloops) for a in args[2:]):
                self.mutate(st, pts, args[0], O)
            return
        # ---- closures handed to iterator adaptors
        r = mx
        for a, ty in zip(args, at):
            x = C.types[ty]
            if x["k"] == "closure" and self.local(x.get("inst")):
                n = C.insts[x["inst"]]["body"]["argc"]
                lvl = I if any(v >= O for v in tv) else mx
                rr, outs = self.summary(x["inst"], (self.op(st, pts, a, True),) + (lvl,) * (n - 1), lvl == I or bool(inh))
                if lvl:
                    if outs and outs[0] > self.op(st, pts, a, True):
                        self.mutate(st, pts, a, O)
                else:
                    r = max(r, rr)
                    if outs and outs[0] > self.op(st, pts, a, True):
                        self.mutate(st, pts, a, outs[0])
        # ---- anything else: the result and everything reachable through a mutable reference
        for k, (a, ty) in enumerate(zip(args, at)):
            others = max([v for j, v in enumerate(tv) if j != k] + [0])
            x = C.types[ty]
            if x["k"] == "ref" and x.get("mut") and others:
                outer = any(self.outer(body, b, y, inloops, hashloops) for y in (pts.get(self.base(a)) or {self.base(a)}))
                if st.get(("key", self.base(a)), 0) and others <= I:
                    continue
                self.mutate(st, pts, a, O if (others == O or outer or loop) else others)
        if st.get(("key", self.base(args[0]) if args else None), 0) and mx <= I:
            st[("key", d[0])] = 1
        self.write(body, b, st, pts, d, r, inloops, hashloops)

    def mutate(self, st, pts, a, v):
        l = self.base(a)
        if l is None:
            return
        for x in pts.get(l) or {l}:
            st[x] = max(st.get(x, 0), v)

    def clean(self, st, pts, a):
        l = self.base(a)
        if l is None:
            return
        for x in list(pts.get(l) or ()) + [l]:
            st[x] = 0

    # ---- is the sort key a total order of the table's entries?
    def total_key(self, f, args, at, name):
        C = self.C
        x = C.types[at[1]] if len(at) > 1 else None
        if not x or x["k"] != "closure":
            return None
        inst = x["inst"]
        body = C.body(inst)
        if "key" in name:
            paths = self.provenance(body, [0])
            return any(full(p) for p in paths)
        for b in body.rpo:
            t = body.blocks[b].t
            if t["k"] == "call" and t["f"].get("name") in ("cmp", "partial_cmp", "total_cmp") and len(t["a"]) == 2:
                pa = [self.provenance(body, (a.get("cp") or a.get("mv") or [0])) for a in t["a"]]
                if any(full(p) and (("p", 3 if p[0][1] == 2 else 2),) + p[1:] in pa[1] for p in pa[0]):
                    return True
        return False

    def provenance(self, body, pl):
        """access paths ((p, parameter), field, ...) a place can hold, ignoring references"""
        res = set()
        seen = set()

        def go(pl, depth):
            l = pl[0]
            suf = tuple(("f", e[1]) if e[0] == "f" else ("part",) for e in pl[1:] if e[0] not in ("*", "v"))
            key = (l, suf)
            if key in seen or depth > 30:
                return set()
            seen.add(key)
            out = set()
            if 1 <= l <= body.argc:
                out.add((("p", l),) + suf)
            for b in body.rpo:
                for s in body.blocks[b].s:
                    if s[0] == "=" and s[1][0] == l and len(s[1]) == 1:
                        rv = s[2]
                        src = None
                        if rv[0] == "use":
                            src = rv[1].get("cp") or rv[1].get("mv")
                        elif rv[0] == "ref":
                            src = rv[2]
                        elif rv[0] == "cast" and len(rv) > 2:
                            src = rv[2].get("cp") or rv[2].get("mv")
                        elif rv[0] == "agg" and rv[1][0] in ("tuple", "adt", "array"):
                            # a tuple key is total when one of its components is
                            for x in rv[2]:
                                p = x.get("cp") or x.get("mv")
                                if p:
                                    out |= {q + suf for q in go(p, depth + 1)}
                        if src:
                            out |= {q + suf for q in go(src, depth + 1)}
                t = body.blocks[b].t
                if t["k"] == "call" and t["d"][0] == l and t["f"].get("name") in ("clone", "deref", "as_ref", "borrow", "to_owned", "copied", "as_slice", "into", "from"):
                    for a in t["a"]:
                        p = a.get("cp") or a.get("mv")
                        if p:
                            out |= {q + suf for q in go(p, depth + 1)}
            return out
        return go(pl, 0)


class Schedule(Taint):
    """sources: results of futures in the order in which they finish"""

    def source(self, f, name, recv, at, body, d):
        p = f["path"] + " " + str(f.get("rpath") or "")
        if UNORD.search(p):
            return True
        dt = body.locals[d[0]]
        if isinstance(dt, int) and name in ("collect", "from_iter", "new", "default") and UNORD.search(self.C.txt(dt)):
            return True
        return None


def dt_int(self, body, d):
    t = body.locals[d[0]]
    return isinstance(t, int) and self.C.types[t]["k"] == "int"


def full(p):
    """the whole entry, the whole key or the whole value"""
    return len(p) <= 2 and not any(x == ("part",) for x in p)


def hash_order(o, C):
    tn = Taint(C)
    roots = [r for r in C.roots if r["exported"]]
    srcs = set()
    for r in roots:
        inst = r["inst"]
        if not C.insts[inst] or not C.insts[inst].get("body"):
            continue
        before = len(tn.sources)
        n = C.insts[inst]["body"]["argc"]
        ret, outs = tn.summary(inst, (0,) * n)
        if ret or any(outs):
            bad = [f"{C.insts[i]['path']}:{l[-1] if l else '?'}" for i, l in sorted(set(tn.bad_sorts))]
            src = sorted({f"{C.insts[i]['path']} at {'%s:%s' % l[:2] if len(l) > 1 else '?'}" for i, l in tn.sources})
            o.fail("hash order never reaches a result", r["path"], r["path"],
                   "the result depends on the iteration order of a hash table: " + ", ".join(src) + (("; sorted by an incomplete key in " + ", ".join(bad)) if bad else ""))
        else:
            o.good("hash order never reaches a result")
    o.count("hash table iterations", len(set(tn.sources)))
    o.count("order restoring sorts", len(set(tn.checked_sorts)))
    o.count("functions analysed for hash order", len({k[0] for k in tn.memo}))


def c17(tier):
    return [Task("effects", effects), Task("hash order", hash_order)]


TECH = {"C17": "call-graph effect analysis and flow-sensitive interprocedural taint analysis of hash iteration order over the compiler's MIR"}
EXPLAIN = {"C17": "every function reachable from an exported root is checked for calls to effectful external functions and mutable global state; "
                  "values that depend on the iteration order of a hash table are traced until a total sort, a keyed store or an order-insensitive reduction removes the dependence"}
ASSUME = {"C17": ["values stored in a hash table that is later sorted by value are distinct", "the caller's reader and writer are arguments"]}
