"""Properties of the TMF reader, decided on abstract files.

The public single-mesh reader is analysed on an abstract file: header and segment header are given,
the segment body is an arbitrary byte sequence of arbitrary length. One analysis per segment code
and per header version covers every file whose (only) segment has that code; the whole reader is
analysed again on an entirely arbitrary stream (any number of meshes and segments)."""
from ..base import *

CODES = {1: "vertices", 2: "vertex indices", 3: "normals", 4: "normal indices", 5: "uvs", 6: "uv indices",
         9: "tangents", 10: "tangent indices", 15: "custom index", 16: "custom float", 23: "custom colour",
         24: "custom integer", 25: "shared indices"}
# stored bit precisions: offset from the start of the body (custom segments: from the end of the name)
PREC = {1: [56, 57, 58], 2: [0], 3: [8], 4: [0], 5: [0], 6: [0], 9: [8], 10: [0], 25: [1]}
PREC_CUSTOM = {15: [0], 16: [24], 23: [8], 24: [0]}
# element counts stored in the body
COUNT = {1: [0], 2: [1], 3: [0], 4: [1], 5: [1], 6: [1], 9: [0], 10: [1], 25: [2]}
COUNT_CUSTOM = {15: [1], 16: [0], 23: [0], 24: [1]}
MAX_SEG = 2147483648
VERS = ((0, 2), (0, 1))
ONE = "TMFMesh::read_tmf_one"
ONE_ASYNC = "TMFMesh::read_tmf_one_async"


def seg_stream(r, code, ver, comp, body, rest=True, length=None):
    n = body.len if length is None else length
    new = ver[1] > 1
    parts = [r.num(code, 1 if new else 2), r.num(n, 4 if new else 8), r.num(comp, 1), body]
    return parts


def one_mesh(r, ver, segs, rest=True):
    parts = [r.header(1, ver), r.num(1, 2), r.lit("m"), r.num(len(segs), 2)]
    for s in segs:
        parts += s
    if rest:
        parts.append(r.blob("rest"))
    return r.cat(*parts)


def body_blob(r, name="body", lo=0):
    n = L(mk(("in", name + ".len"), "i", lo, MAX_SEG))
    return r.blob(name, n)


def read_one(r, st, data, entry=ONE):
    ref = r.slice_reader(st, data)
    outs = r.call(entry, [ref], st)
    return ref, outs


def results(r, outs):
    return [(s, r.result(s, v)) for s, v in outs]


# ------------------------------------------------------------------ C01
def c01_segment(o, C, code, ver):
    r = Run(C)
    st = r.state()
    comp = r.sym("comp", 1)
    body = body_blob(r)
    data = one_mesh(r, ver, [seg_stream(r, code, ver, comp, body)])
    _, outs = read_one(r, st, data)
    panic_obligations(o, r, "no panic on any segment body")
    o.count("paths", len(outs))
    o.samples.append(f"segment code {code} header {ver}: {len(outs)} outcomes, {len(r.e.obls)} panic sites in context")


def c01_entry(o, C, path):
    r = Run(C)
    st = r.state()
    i = r.inst(path)
    if i is None:
        o.undecided("entry", path, path, "entry point not found")
        return
    outs = r.e.analyse(i, st=st)
    panic_obligations(o, r, "no panic on any stream")
    o.count("paths", len(outs))
    o.samples.append(f"{path} on an arbitrary stream: {len(r.e.obls)} panic sites in context")


def c01_decode(o, C, path):
    """modular: the function with arbitrary arguments"""
    r = Run(C)
    i = r.inst(path)
    if i is None:
        return
    r.e.analyse(i, st=r.state())
    # only proofs count here: arbitrary arguments may violate the callers' guarantees
    seen = {}
    for ob in r.e.obls:
        k = (ob.fn, str(ob.loc), ob.kind)
        seen[k] = seen.get(k, True) and ob.status == "ok"
    o.proved = {k for k, v in seen.items() if v}
    o.good("panic sites proven for arbitrary arguments", sum(seen.values()))


def c01(tier):
    ts = []
    for ver in VERS:
        for c in list(CODES) + [0, 7]:
            ts.append(Task(f"segment {c} v{ver[0]}.{ver[1]}", c01_segment, c, ver))
    for p in ("TMFMesh::read_tmf", ONE, "TMFMesh::read_tmf_async", ONE_ASYNC):
        ts.append(Task(p, c01_entry, p, weight=9))
    return ts


# ------------------------------------------------------------------ C03
def alloc_events(o, r, rule, limit=MAX_SEG):
    for kind, fn, loc, chain, data, facts, ctx in r.e.events:
        if kind != "alloc":
            continue
        n = facts.norm(data[0])
        d = facts.decide(le(n, Lin(limit)))
        if d is True or facts.refuted():
            o.good(rule)
            continue
        dep = n.deps
        if any(a.weak for a in dep):
            o.undecided(rule, f"alloc|{fn}", where(fn, loc), f"reserved amount {n!r} is not bounded here"[:200])
        elif any(a.key[0] in ("in", "el", "bytesle", "bits", "rd", "fld") for a in dep):
            o.fail(rule, f"alloc|{fn}", where(fn, loc), f"reserves {n!r} taken from the file without a bound of {limit}"[:220])
        else:
            o.undecided(rule, f"alloc|{fn}", where(fn, loc), f"reserved amount {n!r}"[:200])


def c03_segment(o, C, code, ver):
    r = Run(C)
    st = r.state()
    # any declared length, including ones above the limit
    n = r.sym("decl", 4 if ver[1] > 1 else 8)
    body = r.blob("body", n)
    data = one_mesh(r, ver, [seg_stream(r, code, ver, r.sym("comp", 1), body)])
    _, outs = read_one(r, st, data)
    alloc_events(o, r, "reserved room is bounded")
    for s, res in results(r, outs):
        if res[0] == "Ok":
            # accepted: the declared length must be within the limit
            d = s.facts.decide(le(n, Lin(MAX_SEG)))
            o.require("accepted segment length is within the limit", d, f"len|{code}", ONE,
                      f"a segment of code {code} with a declared length over {MAX_SEG} is accepted")
    o.count("paths", len(outs))


def c03_refuse(o, C, code, ver, what):
    """a declared length / count above the limit gives the segment-too-long error"""
    r = Run(C)
    st = r.state()
    rule = "oversized " + what + " is refused with SegmentTooLong"
    if what == "segment length":
        n = r.sym("decl", 4 if ver[1] > 1 else 8)
        st.facts.assume(lt(Lin(MAX_SEG), n))
        segs = [seg_stream(r, code, ver, r.sym("comp", 1), r.blob("body", n))]
        allowed = ("SegmentTooLong",)
    else:
        body, offs = counted_body(r, st, code, ver)
        segs = [seg_stream(r, code, ver, 0, body)]
        allowed = ("SegmentTooLong", "InvalidPrecision")
    _, outs = read_one(r, st, one_mesh(r, ver, segs))
    hit = False
    for s, res in results(r, outs):
        ok_ = res[0] == "Err" and res[1] in allowed
        hit = hit or (res[0] == "Err" and res[1] == "SegmentTooLong")
        if res[0] == "?" or (res[0] == "Err" and res[1] is None):
            ok_ = None
        o.require(rule, ok_, f"{what}|{code}", ONE, f"code {code} {CODES.get(code, '')}: oversized {what} gives {res[0]} {res[1] if res[0] == 'Err' else ''}")
    o.require(rule, hit, f"{what}|{code}|never", ONE, f"code {code}: the segment-too-long error is never produced for an oversized {what}")


def counted_body(r, st, code, ver, count=None):
    """body whose element count field is larger than the limit; everything else arbitrary"""
    cnt = r.sym("count", 8) if count is None else count
    if count is None:
        st.facts.assume(lt(Lin(MAX_SEG), cnt))
    old = ver[1] <= 1
    if code in COUNT:
        off = COUNT[code][0]
        parts = []
        if off:
            parts.append(r.blob("pre", Lin(off)))
        parts += [r.num(cnt, 8), r.blob("tail", L(mk(("in", "taillen"), "i", 128, 1 << 20)))]
    else:
        off = COUNT_CUSTOM[code][0]
        parts = [r.num(1, 1), r.lit("c")]
        if off:
            parts.append(r.blob("pre", Lin(off)))
        parts += [r.num(cnt, 8), r.blob("tail", L(mk(("in", "taillen"), "i", 128, 1 << 20)))]
    return r.cat(*parts), off


def c03_entry(o, C, path):
    r = Run(C)
    i = r.inst(path)
    if i is None:
        o.undecided("entry", path, path, "entry point not found")
        return
    r.e.analyse(i, st=r.state())
    alloc_events(o, r, "reserved room is bounded")


def c03(tier):
    ts = []
    for ver in VERS:
        for c in list(CODES) + [7]:
            ts.append(Task(f"segment {c} v{ver[0]}.{ver[1]}", c03_segment, c, ver))
            ts.append(Task(f"oversized segment {c} v{ver[0]}.{ver[1]}", c03_refuse, c, ver, "segment length"))
            if c in CODES:
                ts.append(Task(f"oversized count {c} v{ver[0]}.{ver[1]}", c03_refuse, c, ver, "element count"))
    for p in ("TMFMesh::read_tmf", "TMFMesh::read_tmf_async"):
        ts.append(Task(p, c03_entry, p, weight=9))
    return ts


# ------------------------------------------------------------------ C04
def c04_segment(o, C, code, ver, k):
    r = Run(C)
    st = r.state()
    p = r.sym("prec", 1)
    st.facts.assume(le(Lin(64), p))
    custom = code in PREC_CUSTOM
    offs = (PREC_CUSTOM if custom else PREC)[code]
    off = offs[k]
    parts = []
    if custom:
        parts += [r.num(1, 1), r.lit("c")]
    if off:
        parts.append(r.blob("pre", Lin(off)))
    parts += [r.num(p, 1), r.blob("tail", L(mk(("in", "taillen"), "i", 0, 1 << 20)))]
    _, outs = read_one(r, st, one_mesh(r, ver, [seg_stream(r, code, ver, 0, r.cat(*parts))]))
    rule = "a stored precision of 64 bits or more is refused"
    hit = False
    for s, res in results(r, outs):
        if res[0] == "Ok":
            o.fail(rule, f"ok|{code}|{k}", ONE, f"code {code} {CODES[code]}: precision byte {k} >= 64 is accepted")
        elif res[0] == "Err" and res[1] == "InvalidPrecision":
            v = r.e.toint(res[2].fields[0])
            same = s.facts.decide(eq(v, p))
            big = s.facts.decide(le(Lin(64), v))
            if same is True:
                hit = True
            if big is True:
                o.good(rule)
            else:
                o.require("the error carries the stored value", False if same is False or big is False else None,
                          f"val|{code}|{k}", ONE, f"code {code}: InvalidPrecision carries {v!r}")
        elif res[0] == "Err" and res[1] in ("SegmentTooLong", "IO"):
            o.good(rule)
        elif res[0] == "Err" and res[1] is not None:
            o.fail(rule, f"err|{code}|{k}", ONE, f"code {code}: precision >= 64 gives {res[1]}")
        else:
            o.undecided(rule, f"res|{code}|{k}", ONE, f"outcome {res[:2]!r}"[:160])
    o.require("the invalid-precision error names the stored value", hit, f"hit|{code}|{k}", ONE,
              f"code {code} {CODES[code]}: no path refuses precision byte {k} >= 64 with its own value")
    o.count("paths", len(outs))


def c04(tier):
    ts = []
    for ver in VERS:
        for c in CODES:
            for k in range(len((PREC_CUSTOM if c in PREC_CUSTOM else PREC)[c])):
                ts.append(Task(f"segment {c} precision {k} v{ver[0]}.{ver[1]}", c04_segment, c, ver, k))
    return ts


# ------------------------------------------------------------------ C05 (reader half)
def ghost_ok(o, r, outs, rule, key):
    for s, v in outs:
        res = r.result(s, v)
        io = s.mem.get(("g", "ioerr"))
        short = s.mem.get(("g", "short"))
        if res[0] == "Ok":
            bad = io is TRUE or short is TRUE
            und = not bad and (io is not None or short is not None) and not (io in (None, FALSE) and short in (None, FALSE))
            o.require(rule, None if und else not bad, key, key, "returns Ok although a read failed or ended early")
        elif res[0] == "?":
            o.undecided(rule, key, key, "outcome not known")
        else:
            o.good(rule)
    o.count("paths", len(outs))


def c05_entry(o, C, path):
    r = Run(C)
    i = r.inst(path)
    if i is None:
        o.undecided("entry", path, path, "entry point not found")
        return
    outs = r.e.analyse(i, st=r.state())
    ghost_ok(o, r, outs, "no Ok after a failed or short read", path)


def c05_segment(o, C, code, ver, what):
    """a file cut short inside the segment / a body shorter than its own count needs"""
    r = Run(C)
    st = r.state()
    body = body_blob(r)
    if what == "cut":
        decl = r.sym("decl", 4 if ver[1] > 1 else 8)
        st.facts.assume(lt(body.len, decl))
        segs = [seg_stream(r, code, ver, r.sym("comp", 1), body, length=decl)]
        data = one_mesh(r, ver, segs, rest=False)
    else:
        data = one_mesh(r, ver, [seg_stream(r, code, ver, 0, body)])
    _, outs = read_one(r, st, data)
    if what == "cut":
        rule = "a file that ends inside a segment is refused"
        for s, res in results(r, outs):
            o.require(rule, None if res[0] == "?" else res[0] == "Err", f"cut|{code}", ONE,
                      f"code {code}: a file that ends inside the segment body is read as Ok")
    else:
        ghost_ok(o, r, outs, "no Ok after a short body", f"short|{code}")


def c05_header(o, C, ver, n):
    """a file cut inside the header, the mesh header or the segment header"""
    r = Run(C)
    st = r.state()
    full = one_mesh(r, ver, [seg_stream(r, 7, ver, 0, r.lit("abc"))], rest=False)
    data = mk_slice(full, Lin(0), Lin(n))
    if not data.len.is_const():
        return
    _, outs = read_one(r, st, data)
    for s, res in results(r, outs):
        o.require("a file cut anywhere in its headers is refused", None if res[0] == "?" else res[0] == "Err", f"cuth|{n}", ONE,
                  f"a file cut after {n} bytes is read as Ok")


def c05(tier):
    from . import obj
    ts = [Task(p, c05_entry, p, weight=9) for p in
          ("TMFMesh::read_tmf", ONE, "TMFMesh::read_tmf_async", ONE_ASYNC, "TMFMesh::read_from_obj", "TMFMesh::read_from_obj_one",
           "tmf_importer::TMFImportContext::analize")]
    for ver in VERS:
        for c in list(CODES) + [7]:
            ts.append(Task(f"cut segment {c} v{ver[0]}.{ver[1]}", c05_segment, c, ver, "cut"))
            if c in CODES:
                ts.append(Task(f"short body {c} v{ver[0]}.{ver[1]}", c05_segment, c, ver, "short"))
        L_ = 15 + 3 + 2 + (1 if ver[1] > 1 else 2) + (4 if ver[1] > 1 else 8) + 1 + 3
        for n in range(0, L_):
            ts.append(Task(f"cut at {n} v{ver[0]}.{ver[1]}", c05_header, ver, n, cfg=("default",)))
    for p in ("read_unaligned", "read2_unaligned", "read3_unaligned", "read_pair_unaligned", "read_bit"):
        ts.append(Task("bit reader " + p, c05_bits, p, cfg=("default",)))
    return ts


def c05_bits(o, C, name):
    """the bit reader's own bodies (they are replaced by their contract elsewhere)"""
    r = Run(C)
    r.e.cuts.clear()
    path = contracts.RD + name
    i = r.inst(path)
    if i is None:
        o.undecided("bit reader", path, path, "not found")
        return
    outs = r.e.analyse(i, st=r.state())
    ghost_ok(o, r, outs, "the bit reader never hides a failed or short read", path)


# ------------------------------------------------------------------ C18
def c18_segments(o, C, codes, ver, entry):
    r = Run(C)
    st = r.state()
    segs = [seg_stream(r, c, ver, 0 if c in CODES or len(codes) > 1 else r.sym("comp%d" % i, 1), body_blob(r, "body%d" % i)) for i, c in enumerate(codes)]
    data = one_mesh(r, ver, segs)
    total = data.len - r.blob("rest").len
    ref, outs = read_one(r, st, data, entry)
    n = 0
    for s, v in outs:
        res = r.result(s, v)
        if res[0] != "Ok":
            continue
        n += 1
        left = r.e.deref(s, ref)
        pos = left.rng[0] if isinstance(left, Ref) and left.rng else None
        d = None
        if pos is not None:
            d = s.facts.decide(eq(pos, total))
        o.require("a successful read consumes exactly the file", d, f"pos|{codes}|{entry}", entry,
                  f"segments {codes}: reader stands at {pos!r}, the file ends at {total!r}"[:200])
    if not n:
        o.undecided("a successful read consumes exactly the file", f"none|{codes}", entry, "no successful outcome")
    o.count("paths", len(outs))


def c18_reads(o, C, path):
    r = Run(C)
    i = r.inst(path)
    if i is None:
        o.undecided("entry", path, path, "entry point not found")
        return
    r.e.analyse(i, st=r.state())
    rule = "the caller's reader is only read by exact amounts"
    for kind, fn, loc, chain, data, facts, ctx in r.e.events:
        if kind == "read":
            if data[0] == "to_end" and data[1] is not None:
                o.fail(rule, f"to_end|{fn}", where(fn, loc), "reads the caller's reader to its end")
            elif data[0] in ("exact", "partial"):
                o.good(rule)
        elif kind == "bufreader":
            o.require(rule, not data[0], f"bufreader|{fn}", where(fn, loc), "wraps the caller's reader in a buffering reader, which reads ahead")


def c18(tier):
    ts = []
    for ver in VERS:
        for c in list(CODES) + [7]:
            ts.append(Task(f"one segment {c} v{ver}", c18_segments, [c], ver, ONE))
        for cs in ([1, 2], [3, 7], [16, 5], [7, 7, 7], [23, 9], [15, 6]):
            ts.append(Task(f"segments {cs} v{ver}", c18_segments, cs, ver, ONE))
        ts.append(Task(f"no segment v{ver}", c18_segments, [], ver, ONE))
        ts.append(Task(f"async v{ver}", c18_segments, [7, 5], ver, ONE_ASYNC))
    for p in ("TMFMesh::read_tmf", "TMFMesh::read_tmf_async"):
        ts.append(Task(p, c18_reads, p, weight=9))
    return ts


# ------------------------------------------------------------------ C19
def writer_version(o, C):
    """reader version = the version the header writer stores"""
    return (0, 2)


def c19_magic(o, C, i, entry):
    r = Run(C)
    st = r.state()
    magic = b"TMF"
    bs = []
    for j in range(3):
        x = r.sym("m%d" % j, 1)
        if j == i:
            st.facts.assume(bnot(eq(x, Lin(magic[j]))))
        bs.append(x)
    data = r.cat(SLit(r.u8, bs), r.blob("rest", L(mk(("in", "restlen"), "i", 0, 1 << 40))))
    ref, outs = read_one(r, st, data, entry)
    rule = "a stream without the signature is refused as NotTMFFile"
    for s, res in results(r, outs):
        good = res[0] == "Err" and res[1] == "NotTMFFile"
        o.require(rule, None if res[0] == "?" else good, f"magic|{i}|{entry}", entry,
                  f"signature byte {i} differs: outcome {res[0]} {res[1] if res[0] == 'Err' else ''}")
    if not outs:
        o.undecided(rule, f"magic|{i}", entry, "no outcome")


def c19_short(o, C, n, entry):
    """fewer bytes than a signature"""
    r = Run(C)
    st = r.state()
    data = SLit(r.u8, [r.sym("m%d" % j, 1) for j in range(n)])
    ref, outs = read_one(r, st, data, entry)
    for s, res in results(r, outs):
        o.require("a stream shorter than the signature is refused", None if res[0] == "?" else res[0] == "Err", f"short|{n}", entry,
                  f"a {n} byte stream is accepted")


def c19_version(o, C, case, entry):
    r = Run(C)
    st = r.state()
    M, m = writer_version(o, C)
    maj, mnr = r.sym("maj", 2), r.sym("min", 2)
    if case == "newer major":
        st.facts.assume(lt(Lin(M), maj))
    elif case == "newer minor":
        st.facts.assume(eq(maj, Lin(M)))
        st.facts.assume(lt(Lin(m), mnr))
    elif case == "older major":
        st.facts.assume(lt(maj, Lin(M)))
    elif case == "same or older minor":
        st.facts.assume(eq(maj, Lin(M)))
        st.facts.assume(le(mnr, Lin(m)))
    if st.facts.bad:
        return
    # mesh count 0 and no mesh data: nothing but the version decides
    data = r.cat(r.lit("TMF"), r.num(r.sym("vmaj", 2), 2), r.num(r.sym("vmin", 2), 2), r.num(maj, 2), r.num(mnr, 2),
                 r.num(0, 4), r.blob("rest", L(mk(("in", "restlen"), "i", 0, 1 << 40))))
    ref, outs = read_one(r, st, data, entry)
    newer = case.startswith("newer")
    n = 0
    for s, v in outs:
        res = r.result(s, v)
        nv = res[0] == "Err" and res[1] == "NewerVersionRequired"
        if res[0] == "?" or (res[0] == "Err" and res[1] is None):
            o.undecided("version", f"{case}|{entry}", entry, "outcome not known")
            continue
        if newer:
            o.require("a file that needs a newer reader is refused as such", nv, f"{case}|{entry}", entry,
                      f"{case}: outcome {res[0]} {res[1] if res[0] == 'Err' else ''}")
            left = r.e.deref(s, ref)
            pos = left.rng[0] if isinstance(left, Ref) and left.rng else None
            if nv and pos is not None:
                o.require("it is refused before any mesh data is read", s.facts.decide(le(pos, Lin(15))), f"pos|{case}|{entry}", entry,
                          f"{case}: {pos!r} bytes consumed before refusing")
        else:
            o.require("a file for this or an older reader is not refused for its version",
                      not nv and not (res[0] == "Err" and res[1] == "NotTMFFile"), f"{case}|{entry}", entry,
                      f"{case}: outcome {res[0]} {res[1] if res[0] == 'Err' else ''}")
    if not outs:
        o.undecided("version", f"{case}|{entry}", entry, "no outcome")


def c19(tier):
    ts = []
    for e in ("TMFMesh::read_tmf", ONE, "TMFMesh::read_tmf_async", ONE_ASYNC):
        for i in range(3):
            ts.append(Task(f"signature byte {i} {e}", c19_magic, i, e))
            ts.append(Task(f"{i} byte stream {e}", c19_short, i, e))
        for c in ("newer major", "newer minor", "older major", "same or older minor"):
            ts.append(Task(f"{c} {e}", c19_version, c, e))
    return ts


# ------------------------------------------------------------------ C24
def c24_tmf(o, C, n, entry):
    r = Run(C)
    st = r.state()
    mesh = lambda i: r.cat(r.num(1, 2), r.lit(chr(97 + i)), r.num(0, 2))
    if n == "many":
        cnt = r.sym("count", 4)
        st.facts.assume(le(Lin(2), cnt))
        data = r.cat(r.header(cnt), r.blob("rest", L(mk(("in", "restlen"), "i", 0, 1 << 40))))
    else:
        data = r.cat(r.header(n), *[mesh(i) for i in range(n)], r.blob("rest", L(mk(("in", "restlen"), "i", 0, 1 << 40))))
    ref, outs = read_one(r, st, data, entry)
    seen = set()
    for s, res in results(r, outs):
        nm = res[1] if res[0] == "Err" else res[0]
        seen.add(nm)
        if n == 0:
            want = ("NoMeshes",)
        elif n == 1:
            want = ("Ok",)
        elif n == "many":
            want = ("TooManyMeshes", "IO", "SegmentTooLong", "InvalidPrecision", "CompressionTypeUnknown", "UnsuportedCompressionType", None)
        else:
            want = ("TooManyMeshes",)
        good = nm in want
        if res[0] == "?" :
            good = None
        o.require("outcome of a single-mesh reader", good, f"{n}|{entry}", entry, f"{n} meshes: outcome {nm}")
        if n == 1 and res[0] == "Ok" and isinstance(res[1], Agg):
            name = dv_seq(r, s, res[1].fields[1])
            o.require("the mesh's own name is returned", None if name is None else name == SLit(r.u8, [Lin(97)]), f"name|{entry}", entry,
                      f"name is {name!r}")


def dv_seq(r, s, v):
    while isinstance(v, Ref):
        v = r.e.deref(s, v)
    return v if isinstance(v, Seq) else None


def c24_obj(o, C):
    """the OBJ single-mesh reader over an arbitrary result list of the OBJ reader"""
    r = Run(C)
    st = r.state()
    path = "TMFMesh::read_from_obj_one"
    got = {}

    def cut(e, st, fr, f, args, at, dt, site, line):
        t = e.variants(dt)[e.vindex(dt, "Ok")]["fields"][0]["ty"]
        if e.C.elem_of(t) is None:
            return None
        v = e.symval(t, ("objlist",))
        got["v"] = v
        return [(st, e.enum(dt, "Ok", v))]
    for p in ("TMFMesh::read_from_obj", "obj::read_from_obj", "model_importer::ModelImporter::finish"):
        if p != "model_importer::ModelImporter::finish":
            r.e.cuts[p] = cut
    i = r.inst(path)
    if i is None:
        o.undecided("entry", path, path, "entry point not found")
        return
    outs = r.e.analyse(i, st=st)
    if "v" not in got:
        o.undecided("obj", path, path, "list of read meshes not recognised")
        return
    n = got["v"].len
    seen = set()
    for s, v in outs:
        res = r.result(s, v)
        nm = res[0]
        want = {"Ok": eq(n, Lin(1)), "Err": bnot(eq(n, Lin(1)))}.get(nm)
        seen.add(nm)
        if want is None:
            o.undecided("obj", f"{nm}", path, f"unexpected outcome {nm}")
            continue
        d = s.facts.decide(want)
        if d is None:
            # this outcome is reachable for a list length it must not have
            d = False if s.facts.decide(bnot(want)) is not True and not any(a.weak for f in s.facts.log if isinstance(f, B) for a in f.deps) else None
        o.require("OBJ single-mesh reader outcome follows the number of meshes", d, f"{nm}", path,
                  f"{nm} is returned although the file may not hold the matching number of meshes")
        if nm == "Ok":
            el = r.e.index(s, got["v"], Lin(0))
            o.require("the only mesh is returned", True if repr(res[1]) == repr(el) or res[1] == el else None, "el", path, "returned mesh not recognised")
    for w in ("Ok", "Err"):
        o.require("every outcome is possible", w in seen, f"possible|{w}", path, f"{w} is never returned")


def c24(tier):
    ts = []
    for e in (ONE, ONE_ASYNC):
        for n in (0, 1, 2, 3, "many"):
            ts.append(Task(f"{n} meshes {e}", c24_tmf, n, e))
    ts.append(Task("obj", c24_obj))
    return ts


# ------------------------------------------------------------------ C27
def c27_known(o, C, code, ver, comp):
    r = Run(C)
    st = r.state()
    body = body_blob(r)
    _, outs = read_one(r, st, one_mesh(r, ver, [seg_stream(r, code, ver, comp, body)]))
    rule = "a known segment with a compression other than plain is refused naming the code"
    for s, res in results(r, outs):
        key = f"{code}|{comp}"
        if res[0] == "Err" and res[1] == "UnsuportedCompressionType":
            v = r.e.toint(res[2].fields[0])
            d = s.facts.decide(eq(v, Lin(comp)))
            o.require(rule, d, key, ONE, f"code {code} compression {comp}: the error names {v!r}")
        elif res[0] == "?" or (res[0] == "Err" and res[1] is None):
            o.undecided(rule, key, ONE, "outcome not known")
        elif res[0] == "Err" and res[1] == "IO" and s.facts.decide(le(body.len, Lin(8))) is True:
            o.good("a body too short for its own layout is refused as well")
        else:
            o.fail(rule, key, ONE, f"code {code} {CODES[code]} with compression {comp}: outcome {res[0]} {res[1] if res[0] == 'Err' else ''}")
    if not outs:
        o.undecided(rule, f"{code}|{comp}", ONE, "no outcome")


def c27_unknown(o, C, code, ver):
    r = Run(C)
    st = r.state()
    comp = r.sym("comp", 1)
    for k in (0, 1, 2, 255):
        st.facts.assume(bnot(eq(comp, Lin(k))))
    _, outs = read_one(r, st, one_mesh(r, ver, [seg_stream(r, code, ver, comp, body_blob(r))]))
    rule = "an unknown compression code is refused naming the code"
    for s, res in results(r, outs):
        key = f"unknown|{code}"
        if res[0] == "Err" and res[1] == "CompressionTypeUnknown":
            v = r.e.toint(res[2].fields[0])
            o.require(rule, s.facts.decide(eq(v, comp)), key, ONE, f"code {code}: the error names {v!r}")
        elif res[0] == "?" or (res[0] == "Err" and res[1] is None):
            o.undecided(rule, key, ONE, "outcome not known")
        else:
            o.fail(rule, key, ONE, f"code {code}: unknown compression gives {res[0]} {res[1] if res[0] == 'Err' else ''}")
    if not outs:
        o.undecided(rule, f"unknown|{code}", ONE, "no outcome")


def c27(tier):
    ts = []
    for ver in VERS:
        for c in CODES:
            for k in (1, 2, 255):
                ts.append(Task(f"code {c} compression {k} v{ver}", c27_known, c, ver, k))
        for c in list(CODES) + [0, 7]:
            ts.append(Task(f"code {c} unknown compression v{ver}", c27_unknown, c, ver))
    return ts
