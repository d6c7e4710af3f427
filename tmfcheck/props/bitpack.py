"""C26: the bit packer and unpacker, by bit provenance (tmfcheck/bits.py)."""
from ..base import Task, UNMODELLED
from ..bits import *

P = "unaligned_rw::"
WR, RD = P + "UnalignedWriter::<W>::", P + "UnalignedReader::<R>::"
DATA = 1000          # data bit i of a written value is DATA + i; pending and stream bits are 2 + position
SELF = Ref((-1, 0, ()))


def dest_bytes(m, st, r):
    v = m.deref(st, r)
    if not isinstance(v, Arr):
        raise Unsupported("a buffer that is not an array")
    return v


def io(m, st, f, args):
    """the caller's byte sink and source"""
    n, path = f["name"], f["path"]
    if path.endswith("Write::write_all") and len(args) == 2:
        out = ()
        for x in dest_bytes(m, st, args[1]):
            out += tuple(bits_of(x, 8)[::-1])
        st.ghost["out"] = st.ghost.get("out", ()) + out
        return [(st, ok(UNIT))]
    if path.endswith("Write::flush"):
        return [(st, ok(UNIT))]
    if n in ("new", "with_capacity") and m.C.insts[f["inst"]]["path"].split("::<")[0].split("::")[-1] in ("BufWriter", "BufReader") \
            if f.get("inst") is not None and m.C.insts[f["inst"]] else False:
        return [(st, Opaque(("buffered",)))]
    if path.endswith(("Read::read", "Read::read_exact")) and len(args) == 2:
        buf = dest_bytes(m, st, args[1])
        r = args[1]
        stem, lo = (r[2][:-1], r[2][-1][1]) if r[2] and r[2][-1][0] == "r" else (r[2], 0)
        dl, need = st.ghost["dl"], st.ghost["need"]
        size = len(buf)
        res = []

        def deliver(s, k):
            v = Arr(pack(tuple(2 + dl + 8 * j + 7 - i for i in range(8))) for j in range(k))
            m.store(s, r[0], r[1], stem + (("r", lo, lo + k),), v)
            s.ghost["dl"] = dl + 8 * k

        if n == "read_exact":
            if not st.ghost.get("end"):
                s = st.fork()
                deliver(s, size)
                res.append((s, ok(UNIT)))
            if st.ghost.get("end") or dl + 8 * size > need + (-need % 8):
                # the stream may end with the value asked for
                s = st.fork()
                s.ghost["end"] = True
                res.append((s, err()))
            return res
        if not st.ghost.get("end"):
            for k in range(1, size + 1):
                s = st.fork()
                deliver(s, k)
                res.append((s, ok(k)))
        if dl >= need or st.ghost.get("end"):
            s = st.fork()
            s.ghost["end"] = True
            res.append((s, ok(0)))
        return res
    return None


class Kit:
    """the functions of one instance of the packer or unpacker"""

    def __init__(self, C, ty):
        self.C = C
        self.by = {}
        for i, x in enumerate(C.insts):
            if x and x.get("body") and P + ty + "<" in x["path"].replace("::<", "<"):
                self.by.setdefault(tuple(x.get("args") or ()), {}).setdefault(x.get("name"), i)

    def best(self, *names):
        """an instance that has all of these functions"""
        for k in sorted(self.by, key=str):
            if all(n in self.by[k] for n in names):
                return self.by[k]
        return None


def mode_of(m, C, bits):
    i = [i for i, x in enumerate(C.insts) if x and x.get("body") and x["path"] == P + "UnalignedRWMode::precision_bits"]
    if not i:
        raise Unsupported("UnalignedRWMode::precision_bits")
    outs = m.call(i[0], [bits])
    if len(outs) != 1 or outs[0].panic:
        raise Unsupported("UnalignedRWMode::precision_bits")
    return outs[0].ret


def start(m, inst):
    outs = m.call(inst, [Opaque(("stream",))])
    if len(outs) != 1 or outs[0].panic:
        raise Unsupported("constructor")
    return outs[0].ret


def host(v, **ghost):
    st = State()
    st.mem[-1] = [v]
    st.ghost.update(ghost)
    return st


def verdict(o, rule, got, want, key, where, msg):
    """bit vectors agree / differ / cannot be followed"""
    if tuple(got) == tuple(want):
        o.good(rule)
        return True
    sure = any(g != w and g != LOST for g, w in zip(got, want)) or len(got) != len(want)
    if sure:
        o.fail(rule, key, where, msg)
    else:
        o.undecided(rule, key, where, msg + " (bits the analysis does not follow)")
    return False


def failed(o, out, rule, key, where, what):
    """a path that ends without a result"""
    if out.panic:
        fn, loc, kind = out.panic
        at = f"{loc[0]}:{loc[1]} in {fn}" if loc and len(loc) >= 2 else fn
        text = f"{what}: {kind} panics"
    else:
        at, text = where, f"{what}: returns an error although every bit was available"
    (o.undecided if out.state.lossy else o.fail)(rule, key, at, text)


def rename(v, table):
    if isinstance(v, BV):
        return BV(b if b < 2 and b != LOST else table.get(b, MIX) if b != LOST else LOST for b in v)
    if isinstance(v, (Agg, Arr)):
        return type(v)(rename(x, table) for x in v)
    return v


def guard(o, name, fn):
    try:
        fn()
    except Unsupported as ex:
        UNMODELLED.add(str(ex)) if hasattr(UNMODELLED, "add") else UNMODELLED.__setitem__(str(ex), 1)
        o.undecided("analysis", name, name, f"analysis gave up: {ex}")


def known_out(st):
    if st.ghost.get("known"):
        raise Unsupported("a branch on a data bit")


def t_writer(o, C):
    def run():
        m = Machine(C, io)
        k = Kit(C, "UnalignedWriter").best("new", "write_unaligned", "drop")
        if k is None:
            raise Unsupported("UnalignedWriter::new, write_unaligned, drop")
        wb = k.get("write_bit")
        modes = {w: mode_of(m, C, w) for w in range(1, 64)}
        first = (start(m, k["new"]), 0)
        todo, seen = [first], {first}
        while todo and len(o.bad) < 100:
            v, pend = todo.pop()
            pending = tuple(2 + i for i in range(pend))
            # what is still pending comes out when the writer is dropped
            m.steps = 0
            for out in m.call(k["drop"], [SELF], host(v)):
                known_out(out.state)
                where = "UnalignedWriter::drop"
                if out.panic:
                    failed(o, out, "the last bits are written when the packer is dropped", "drop", where, f"{pend} bits pending")
                    continue
                got = out.state.ghost.get("out", ())
                verdict(o, "the last bits are written when the packer is dropped", got[:pend] if len(got) >= pend else got, pending,
                        "drop", where, f"{pend} bits pending, {len(got)} written, not the pending ones in order")
            ops = [(w, "write_unaligned") for w in range(1, 64)] + ([(1, "write_bit")] if wb is not None else [])
            for w, fn in ops:
                where = "UnalignedWriter::" + fn
                data = pack(tuple(DATA + i for i in range(w)) + (0,) * (64 - w))
                args = [SELF, modes[w], data] if fn == "write_unaligned" else [SELF, BV((DATA,))]
                want = pending + tuple(DATA + i for i in range(w - 1, -1, -1))
                m.steps = 0
                for out in m.call(k[fn], args, host(v)):
                    what = f"{w} bits written after {pend} pending ones"
                    key = f"{fn}|{w}|{pend}"
                    known_out(out.state)
                    if out.panic or not isinstance(out.ret, Agg) or out.ret[0] != 0:
                        failed(o, out, "every width is written at every alignment", key, where, what)
                        continue
                    got = out.state.ghost.get("out", ())
                    if out.state.lossy and got != want[:len(got)]:
                        o.undecided("every width is written at every alignment", key, where, what)
                        continue
                    if not verdict(o, "every width is written at every alignment", got, want[:len(got)], key, where,
                                   what + ": the bits written are not those of the values, most significant first"):
                        continue
                    rest = want[len(got):]
                    nv = (rename(out.state.mem[-1][0], {b: 2 + i for i, b in enumerate(rest)}), len(rest))
                    if nv not in seen:
                        if len(seen) > 600:
                            raise Unsupported("too many writer states")
                        seen.add(nv)
                        todo.append(nv)
        o.count("packer states", len(seen))
        for p in m.used:
            o.count("function: " + p)
    guard(o, "bit packer", run)


def stream(m_bits, off=0):
    """the next bits of the stream as an integer, least significant bit first"""
    return tuple(2 + off + m_bits - 1 - i for i in range(m_bits)) + (0,) * (64 - m_bits)


def reader_kit(C):
    return Kit(C, "UnalignedReader")


def t_reader(o, C, part, parts):
    def run():
        m = Machine(C, io)
        k = reader_kit(C).best("new", "read_unaligned")
        if k is None:
            raise Unsupported("UnalignedReader::new, read_unaligned")
        kb = reader_kit(C).best("new", "read_unaligned", "read_bit") or k
        k = kb
        modes = {w: mode_of(m, C, w) for w in range(1, 64)}
        first = (start(m, k["new"]), 0)
        rule = "every width is read back at every alignment"

        def step(v, avail, w, fn, record):
            """states after reading w bits; verdicts are recorded when asked for"""
            where = "UnalignedReader::" + fn
            args = [SELF, modes[w]] if fn == "read_unaligned" else [SELF]
            m.steps = 0
            outs = m.call(k[fn], args, host(v, dl=avail, need=w))
            if not outs and record:
                o.undecided(rule, f"{fn}|{w}", where, "no path returns")
            res = []
            for out in outs:
                what = f"{w} bits read with {avail} at hand"
                key = f"{fn}|{w}|{avail}"
                known_out(out.state)
                if out.panic or not isinstance(out.ret, Agg) or out.ret[0] != 0:
                    if record:
                        failed(o, out, rule, key, where, what)
                    continue
                got = bits_of(out.ret[1], 64 if fn == "read_unaligned" else 1)
                want = stream(w)[:len(got)]
                if not record:
                    if got != want:
                        continue
                elif out.state.lossy and got != want:
                    o.undecided(rule, key, where, what)
                    continue
                elif not verdict(o, rule, got, want, key, where, what + ": the result is not the next bits of the stream"):
                    continue
                dl = out.state.ghost["dl"]
                if not out.state.ghost.get("end"):
                    res.append((rename(out.state.mem[-1][0], {2 + i: 2 + i - w for i in range(w, dl)}), dl - w))
            return res

        def closure(todo, seen, ops, record):
            while todo and len(o.bad) < 100:
                v, avail = todo.pop()
                for w, fn in ops:
                    for nv in step(v, avail, w, fn, record):
                        if nv not in seen:
                            if len(seen) > 600:
                                raise Unsupported("too many reader states")
                            seen.add(nv)
                            todo.append(nv)
            return seen

        # the states some widths lead to are shared out among the tasks; a task takes on what else it meets
        ops = [(w, "read_unaligned") for w in range(1, 64)] + ([(1, "read_bit")] if "read_bit" in k else [])
        base = closure([first], {first}, [(w, "read_unaligned") for w in (1, 8, 63)], False)
        mine = [x for i, x in enumerate(sorted(base, key=lambda x: (x[1], repr(x)))) if i % parts == part]
        seen = closure(list(mine), set(base), ops, True)
        o.count("unpacker states", len(seen))
        for p in m.used:
            o.count("function: " + p)
    guard(o, "bit unpacker", run)


def summary_read(mach, st, args):
    """read_unaligned as decided by the unpacker tasks: the next m bits, most significant first"""
    mode = args[1]
    w = mode[1] if isinstance(mode, Agg) and len(mode) == 2 else None
    if not isinstance(w, int) or not 1 <= w <= 63 or not isinstance(args[0], Ref):
        return None
    off = st.ghost["pos"]
    st.ghost["pos"] = off + w
    return [(st, ok(pack(stream(w, off))))]


def t_pairs(o, C, part, parts):
    def run():
        m = Machine(C, io)
        m.summaries[RD + "read_unaligned"] = summary_read
        kit = reader_kit(C)
        modes = {w: mode_of(m, C, w) for w in range(0, 64)}
        rule = "pairs of values are read back like single ones"

        def one(k, fn, ws, margs):
            where = "UnalignedReader::" + fn
            m.steps = 0
            for out in m.call(k[fn], [SELF] + margs, host(Opaque(("unpacker",)), pos=0, dl=0, need=sum(ws))):
                key = f"{fn}|{','.join(map(str, ws))}"
                what = f"widths {', '.join(map(str, ws))}"
                known_out(out.state)
                if out.panic or not isinstance(out.ret, Agg) or out.ret[0] != 0:
                    failed(o, out, rule, key, where, what)
                    continue
                off = 0
                got, want = (), ()
                for w, x in zip(ws, out.ret[1][1:]):
                    got += tuple(bits_of(x, 64))
                    want += stream(w, off)
                    off += w
                if out.state.lossy and got != want:
                    o.undecided(rule, key, where, what)
                    continue
                verdict(o, rule, got, want, key, where, what + ": the results are not the next bits of the stream")
                if out.state.ghost["pos"] != sum(ws):
                    o.fail(rule, key + "|n", where, f"{what}: {out.state.ghost['pos']} bits are taken from the stream")
                else:
                    o.good(rule)

        k = kit.best("read2_unaligned")
        if k is not None and part == 0:
            for w in range(1, 64):
                one(k, "read2_unaligned", (w, w), [modes[w]])
        k = kit.best("read3_unaligned")
        if k is not None and part == 0:
            for w in range(1, 64):
                one(k, "read3_unaligned", (w, w, w), [modes[w]])
        k = kit.best("read_pair_unaligned")
        if k is not None:
            for a in range(1, 64):
                for b in range(1, 64):
                    if (a * 63 + b) % parts == part:
                        one(k, "read_pair_unaligned", (a, b), [modes[a], modes[b]])
        for p in m.used:
            o.count("function: " + p)
    guard(o, "pairs", run)


def c26(tier):
    out = [Task("packer", t_writer, weight=5)]
    n = 4
    out += [Task(f"unpacker {i}", t_reader, i, n, weight=9) for i in range(n)]
    out += [Task(f"pairs {i}", t_pairs, i, 2, weight=3) for i in range(2)]
    return out


LEVEL = {}
TECH = {"C26": "bit-provenance dataflow analysis over the compiler's MIR (each bit of each integer is a constant or a named source bit), closed over all packer and unpacker states"}
EXPLAIN = {"C26": "the packer and unpacker functions are analysed from every abstract state reachable from their constructors, at every width from 1 to 63, "
                  "for every split of the underlying reads; the bits written and read back must be exactly the bits of the values, most significant first"}
ASSUME = {"C26": ["the underlying writer takes all bytes handed to it; the underlying reader delivers between one byte and the whole buffer until the data ends, and leaves the rest of the buffer alone"]}
