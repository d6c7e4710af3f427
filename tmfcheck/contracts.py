"""Contracts of the bit packer.

The packer and unpacker are verified on their own (property C26, bit-provenance analysis of their
bodies); everywhere else a call to them is replaced by its contract:

  write_unaligned(m, v)  appends the low m bits of v (panics when m > 64)
  read_unaligned(m)      0 without reading when m = 0 or m >= 64, otherwise the next m bits or Err
  read2/read3/pair       the same as that many single reads
"""
from .terms import *
from .values import *
from .models import (fork_on, ok, err, err_ty, ok_ty, reader_of, writer_of, emit, io_results, gset, SBits, G_IOERR,
                     G_SHORT, dv, sref)
from .interp import CallCtx

P = "unaligned_rw::"
RD = P + "UnalignedReader::<R>::"
WR = P + "UnalignedWriter::<W>::"


def mode_of(e, st, v):
    v = dv(e, st, v)
    if isinstance(v, Agg) and v.fields:
        return st.facts.norm(e.toint(v.fields[0]))
    if isinstance(v, Sym):
        return st.facts.norm(e.toint(e.field(v, 0)))
    return st.facts.norm(e.toint(v))


def ubr_new(e, st, fr, f, args, at, dt, site, line):
    return [(st, Nat("ubr", args[0], Lin(0)))]


def packed(e, st, src):
    """bit items in front of a slice reader, when they are known"""
    if src is None or src[0] not in ("slice", "seq"):
        return None
    data = e.deref(st, src[1])
    if src[0] == "slice":
        data = e.deref(st, data)
    if isinstance(data, SBits):
        return data.items
    if isinstance(data, SCat) and isinstance(data.parts[0], SBits):
        return data.parts[0].items
    return None


def read_bits(e, st, ref, m, site, line, fr, dt, tag):
    """-> [(state, Lin value or None on error, error value)]"""
    out = []
    # widths of 64 bits or more read nothing
    a, b = fork_on(st, le(Lin(64), m))
    if a is not None:
        out.append((a, Lin(0), None))
    st = b
    if st is None:
        return out
    if m == Lin(0):
        out.append((st, Lin(0), None))
        return out
    w = e.deref(st, ref)
    if not (isinstance(w, Nat) and w.tag == "ubr"):
        out.append((st, L(mk(("bits?", site, tag, st.ctx), "i", 0, (1 << 64) - 1, None, True)), None))
        return out
    r, pos = w.args
    src = reader_of(e, st, r)
    ext = not (src is not None and src[0] in ("slice", "seq"))
    items = packed(e, st, src)

    def fail(s):
        gset(s, G_IOERR if ext else G_SHORT)
        out.append((s, None, mk(("ioerr", site, tag, s.ctx), "o")))
    if items is not None:
        # the stored position keeps its shape: loop summaries compare positions term by term
        raw, pos = pos, st.facts.norm(pos)
        good, short = fork_on(st, lt(pos, items.len))
        if short is not None:
            fail(short)
        if good is None:
            return out
        for st, it in e.index_cases(good, items, pos):
            e.store(st, ref, Nat("ubr", r, raw + 1))
            if isinstance(it, Nat) and it.tag == "bit":
                d = st.facts.decide(eq(it.args[0], m))
                if d is True:
                    out.append((st, it.args[1], None))
                    continue
                e.event(st, fr, "width-mismatch", line, it.args[0], m, d)
            v = L(mk(("bits?", site, tag, st.ctx, pos), "i", 0, (1 << 64) - 1, None, True))
            out.append((st, v, None))
        return out
    bad = st.fork()
    # m = 0 takes nothing from the reader and cannot fail
    if bad.facts.decide(eq(m, Lin(0))) is not True:
        bad.facts.assume(le(Lin(1), m))
        if not bad.facts.bad:
            fail(bad)
    e.event(st, fr, "bits", line, src, m)
    hi = (1 << min(64, int(st.facts.bounds(m)[1]))) - 1 if st.facts.bounds(m)[1] != INF else (1 << 64) - 1
    a = mk(("bits", site, tag, st.ctx), "i", 0, hi)
    if not m.is_const():
        p = e.pow2(st, m)
        st.facts.assume(le(L(a), p - 1))
    e.store(st, ref, Nat("ubr", r, pos + 1))
    out.append((st, L(a), None))
    return out


def ubr_read(n, single=True, bit=False, modes=None):
    def h(e, st, fr, f, args, at, dt, site, line):
        ref = sref(e, st, args[0])
        w = e.deref(st, ref) if isinstance(ref, Ref) else None
        if not (isinstance(w, Nat) and w.tag == "ubr"):
            return None
        if bit:
            ms = [Lin(1)]
        elif modes:
            ms = [mode_of(e, st, args[1 + i]) for i in range(n)]
        else:
            ms = [mode_of(e, st, args[1])] * n
        cur = [(st, ())]
        out = []
        for i, m in enumerate(ms):
            nxt = []
            for s, vs in cur:
                for s2, v, er in read_bits(e, s, ref, s.facts.norm(m), site, line, fr, dt, i):
                    if s2.facts.bad:
                        continue
                    if v is None:
                        out.append((s2, err(e, dt, Sym(err_ty(e, dt), er))))
                    else:
                        nxt.append((s2, vs + (v,)))
            cur = nxt
        for s, vs in cur:
            if bit:
                v = bnot(eq0(vs[0]))
                # a packed boolean comes back as itself
                a = vs[0].single()
                if a is not None and a.key[0] == "b2i":
                    v = a.key[1]
                elif isinstance(vs[0], Lin) and vs[0].is_const():
                    v = TRUE if vs[0].c else FALSE
            elif n == 1:
                v = vs[0]
            else:
                v = Agg(ok_ty(e, dt), 0, vs)
            out.append((s, ok(e, dt, v)))
        return out
    return h


def ubw_new(e, st, fr, f, args, at, dt, site, line):
    return [(st, Nat("ubw", args[0], SLit(None, ())))]


def ubw_write(bit=False):
    def h(e, st, fr, f, args, at, dt, site, line):
        ref = sref(e, st, args[0])
        w = e.deref(st, ref) if isinstance(ref, Ref) else None
        if not (isinstance(w, Nat) and w.tag == "ubw"):
            return None
        if bit:
            m = Lin(1)
            v = e.toint(args[1])
        else:
            m = mode_of(e, st, args[1])
            v = e.toint(args[2])
            e.oblige(st, fr, "bit-width", le(m, Lin(64)), line, "width given to the bit packer is at most 64")
            if st.facts.bad:
                return []
        wt, items = w.args
        fits = None if bit else st.facts.decide(lt(v, e.pow2(st, st.facts.norm(m))))
        e.event(st, fr, "pack", line, m, v, fits)
        inner = writer_of(e, st, wt)
        e.store(st, ref, Nat("ubw", wt, mk_cat(None, [items, SLit(None, [Nat("bit", m, v)])])))
        out = []
        if inner is not None and inner[0] != "vec":
            bad = st.fork()
            gset(bad, G_IOERR)
            out.append((bad, err(e, dt, Sym(err_ty(e, dt), mk(("ioerr", site, st.ctx), "o")))))
        out.append((st, ok(e, dt)))
        return out
    return h


def ubw_emit(e, st, fr, ref, dt, site, line):
    """hand everything packed so far to the underlying writer -> [(state, ok?)]"""
    w = e.deref(st, ref)
    if not (isinstance(w, Nat) and w.tag == "ubw"):
        return [(st, True)]
    wt, items = w.args
    if isinstance(items, SLit) and not items.items:
        return [(st, True)]
    inner = writer_of(e, st, wt)
    c = CallCtx(e, st, fr, {"name": "flush"}, [], [], dt, site, line)
    e.store(st, ref, Nat("ubw", wt, SLit(None, ())))
    if inner is None:
        return [(st, True)]
    r = emit(c, st, inner, SBits(e._u8, items))
    return r if r is not None else [(st, True)]


def ubw_flush(e, st, fr, f, args, at, dt, site, line):
    ref = sref(e, st, args[0])
    w = e.deref(st, ref) if isinstance(ref, Ref) else None
    if not (isinstance(w, Nat) and w.tag == "ubw"):
        return None
    c = CallCtx(e, st, fr, f, args, at, dt, site, line)
    return io_results(c, ubw_emit(e, st, fr, ref, dt, site, line))


def ubw_drop(e, st, fr, ref, site, t):
    out = []
    for s, good in ubw_emit(e, st, fr, ref, None, site, t.get("l")):
        if not good:
            e.panic(s, fr, "drop-write-error", t.get("l"), "a write error while dropping the bit packer panics")
        else:
            out.append(s)
    return out


def install(e):
    c = e.cuts
    c[RD + "new"] = ubr_new
    c[RD + "read_unaligned"] = ubr_read(1)
    c[RD + "read_bit"] = ubr_read(1, bit=True)
    c[RD + "read2_unaligned"] = ubr_read(2)
    c[RD + "read3_unaligned"] = ubr_read(3)
    c[RD + "read_pair_unaligned"] = ubr_read(2, modes=True)
    c[WR + "new"] = ubw_new
    c[WR + "write_unaligned"] = ubw_write()
    c[WR + "write_bit"] = ubw_write(True)
    c[WR + "flush"] = ubw_flush
    c["drop:unaligned_rw::UnalignedWriter"] = ubw_drop
