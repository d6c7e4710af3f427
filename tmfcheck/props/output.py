"""What the writers do to the underlying writer: C06 (failures are reported) and C07 (stored lengths are true)."""
import re

from .meshlib import *
from .tmfwrite import build, MAIN, NAMEAT, refused
from .. import models

OBJ1, OBJ, TMF1, TMF = "TMFMesh::write_obj_one", "TMFMesh::write_obj", "TMFMesh::write_tmf_one", "TMFMesh::write_tmf"


# ------------------------------------------------------------------ C06
def written_ok(o, r, outs, key):
    """no Ok after a failed or partial write, nor while bytes sit in a buffer of the library's own"""
    for s, v in outs:
        res = r.result(s, v)
        if res[0] == "Err":
            o.good("a failed write ends in an error")
            continue
        if res[0] != "Ok":
            o.undecided("a failed write ends in an error", key, key, "outcome not known")
            continue
        if s.facts.refuted():
            continue
        io = s.mem.get(("g", "ioerr"))
        dirty = s.mem.get(("g", "dirty"))
        o.require("a failed write ends in an error", True if io in (None, FALSE) else (False if io is TRUE and not s.facts.weak_path() else None), key, key,
                  "returns Ok although a write to the underlying writer failed or accepted fewer bytes than given")
        o.require("Ok means every byte was handed over", True if dirty in (None, FALSE) else (False if dirty is TRUE and not s.facts.weak_path() else None), key, key,
                  "returns Ok while bytes are held in a buffer whose flush may fail unnoticed")
    o.count("paths", len(outs))


def unwraps(o, r):
    """panics caused by the result of a write"""
    panic_obligations(o, r, "a failed write does not panic", lambda b: "unwrap" in b.kind or "expect" in b.kind)


def ext_writer(w, path, argno):
    """an argument list with a caller's writer about which nothing is known"""
    b = w.C.body(w.r.inst(path))
    return w.e.symval(b.locals[argno + 1], ("in", "writer"))


def c06_obj(o, C, path):
    r = Run(C, cap=64)
    i = r.inst(path)
    if i is None:
        o.undecided("entry", path, path, "entry point not found")
        return
    outs = r.e.analyse(i, st=r.state())
    written_ok(o, r, outs, path)
    unwraps(o, r)


def c06_set(o, C, attrs):
    w = World(C, cap=64)
    sts, mref, d = build(o, w, attrs)
    for st in sts:
        nref = w.slice_of(st, "name", w.r.text("name", L(mk(("in", "name.len"), "i", 0, 1 << 40))))
        outs = w.r.call(TMF1, [mref, ext_writer(w, TMF1, 1), w.prec(st), nref], st)
        written_ok(o, w.r, outs, TMF1)
    unwraps(o, w.r)


def mesh_list(w, st, n):
    """(&[(TMFMesh, &str)], element type): n empty meshes with arbitrary names"""
    b = w.C.body(w.r.inst(TMF))
    t = b.locals[1]
    et = w.C.elem_of(w.C.types[t]["to"]) if w.C.types[t]["k"] == "ref" else w.C.elem_of(t)
    (st, m), = w.r.call("TMFMesh::empty", [], st)
    vals = []
    for i in range(n):
        nm = w.r.text(f"name{i}", L(mk(("in", f"name{i}.len"), "i", 0, 1 << 40)))
        vals.append(Agg(et, 0, [m, w.slice_of(st, f"nm{i}", nm)]))
    lst = w.r.place(st, "list", SLit(et, vals))
    return st, Ref(lst.loc, (), (Lin(0), Lin(n)))


def c06_list(o, C, n):
    w = World(C, cap=64)
    st, lst = mesh_list(w, w.r.state(), n)
    outs = w.r.call(TMF, [lst, ext_writer(w, TMF, 1), w.prec(st)], st)
    written_ok(o, w.r, outs, TMF)
    unwraps(o, w.r)


def c06_any(o, C):
    """any list of meshes without attributes the encoders treat specially: nothing is known of the list"""
    w = World(C, cap=64)
    r = w.r
    i = r.inst(TMF)
    outs = r.e.analyse(i, st=r.state())
    written_ok(o, r, outs, TMF)


def c06(tier):
    ts = [Task("OBJ, one mesh", c06_obj, OBJ1, weight=4), Task("OBJ, any list", c06_obj, OBJ, weight=6)]
    ts += [Task(f"TMF, {n} empty meshes", c06_list, n, weight=2) for n in (0, 1, 2)]
    ts += [Task("TMF, empty mesh", c06_set, ())]
    for a in list(ATTRS) + list(CUSTOM):
        ts.append(Task(f"TMF, only {a}", c06_set, (a,), weight=3))
    return ts


# ------------------------------------------------------------------ C07
def stored(w, st, data, at, n):
    """the unsigned little endian number of n bytes at offset `at`"""
    if n == 1:
        return w.e.index(st, data, L(at))
    t = next(i for i, x in enumerate(w.e.T) if x and x["k"] == "int" and x["bits"] == 8 * n and not x["signed"])
    return models.join_bytes(w.e, st, models.mk_slice2(st, data, Lin(at), Lin(n)), t, "le")


def true_length(o, w, st, got, want, n, rule, key, what):
    """a field of n bytes holds `want` on this (successful) path"""
    if st.facts.bad or st.facts.refuted():
        return
    if isinstance(got, Lin) and isinstance(want, Lin) and st.facts.settle(eq(got, want)) is True:
        o.good(rule)
        return
    weak = st.facts.weak_path() or any(a.weak for a in term_deps(want)) or st.facts.lossy_for(term_deps(want))
    big = st.fork()
    big.facts.assume(le(Lin(1 << (8 * n)), want))
    if not weak and not big.facts.bad and not big.facts.refuted():
        o.fail(rule, key, MAIN, f"{what} of {1 << (8 * n)} or more is written without an error although its field has {n} bytes")
        return
    d = st.facts.settle(eq(got, want)) if isinstance(got, Lin) else None
    o.require(rule, None if weak or d is None else d, key, MAIN, f"{what}: {got!r} is stored instead of {want!r}"[:260])


def c07_name(o, C):
    w = World(C, cap=64)
    sts, mref, d = build(o, w, ())
    rule = "the length of a mesh name is stored or refused"
    n = L(mk(("in", "name.len"), "i", 0, 1 << 47))
    name = w.r.text("name", n)
    for st in sts:
        for s, res, data in w.write_one(st, mref, name):
            if res[0] == "Ok":
                true_length(o, w, s, stored(w, s, data, NAMEAT, 2), n, 2, rule, "name", "a name length")
                if not (s.facts.bad or s.facts.refuted()):
                    o.require(rule, None if s.facts.weak_path() else s.facts.settle(eq(data.len, n + Lin(NAMEAT + 4))), "name|bytes", MAIN,
                              f"a file with one empty mesh and a name of {n!r} bytes has {data.len!r} bytes"[:200])
            elif res[0] == "Err":
                o.good(rule)
            else:
                o.undecided(rule, "name", MAIN, "outcome not known")


def records(o, w, s, out, n, rule, key, what):
    """as many records follow as were counted"""
    if s.facts.bad or s.facts.refuted():
        return
    reps = [p for p in getattr(out, "parts", (out,)) if isinstance(p, SRep)]
    if not reps and s.facts.settle(eq(n, Lin(0))) is True:
        o.good(rule)
    elif len(reps) != 1:
        o.undecided(rule, key + "|records", MAIN, "the records are not emitted by one loop")
    else:
        d = s.facts.settle(eq(reps[0].count, n))
        weak = s.facts.weak_path() or any(a.weak for a in term_deps(reps[0].count))
        if d is None and not weak:
            f, g = s.fork(), s.fork()
            f.facts.assume(lt(reps[0].count, n))
            g.facts.assume(lt(n, reps[0].count))
            if any(not x.facts.bad and not x.facts.refuted() for x in (f, g)):
                d = False
        o.require(rule, None if weak and not d else d, key + "|records", MAIN, f"{what} {n!r}: {reps[0].count!r} records are written"[:200])


def c07_meshes(o, C):
    w = World(C, cap=64)
    r = w.r
    rule = "the number of meshes is stored or refused"
    st = r.state()
    st, one = mesh_list(w, st, 1)
    one = w.e.deref(st, Ref(one.loc, ()))
    n = L(mk(("in", "meshes.len"), "i", 0, 1 << 47))
    lst = Ref(r.place(st, "meshes", SConstRep(one.elem, one.items[0], n)).loc, (), (Lin(0), n))
    out = r.place(st, "out", SLit(r.u8, []))
    for s, v in r.call(TMF, [lst, out, w.prec(st)], st):
        res = r.result(s, v)
        if res[0] == "Ok":
            true_length(o, w, s, stored(w, s, w.e.deref(s, out), 11, 4), n, 4, rule, "meshes", "a number of meshes")
            records(o, w, s, w.e.deref(s, out), n, rule, "meshes", "a list of")
        elif res[0] == "Err":
            o.good(rule)
        else:
            o.undecided(rule, "meshes", TMF, "outcome not known")


def c07_body(o, C, attr):
    """the length of a segment body; arrays of any length at all"""
    w = World(C, cap=64)
    key = attr
    rule = "the length of a segment body is stored or refused"
    HI = 1 << 40
    st, m = w.start()
    mref = w.r.place(st, "mesh", m)
    if attr in ATTRS:
        data = w.attr_data(attr, lo=1, hi=HI)
        sts = [w.append(st, mref, attr, data)]
    else:
        outs, data = w.custom(st, attr, lo=1, hi=HI)
        sts = [s3 for s2, v in outs for s3, n in w.add_custom(s2, mref, v, w.r.lit("x")) if n == "Ok"]
    for st in sts:
        for s, res, out in w.write_one(st, mref, w.r.lit("mesh")):
            if res[0] == "Ok":
                one = s.facts.settle(eq(stored(w, s, out, 21, 2), Lin(1)))
                if one is not True:
                    o.undecided(rule, key, MAIN, "stored as several segments")
                    continue
                true_length(o, w, s, stored(w, s, out, 24, 4), out.len - Lin(29), 4, rule, key, f"a segment body ({attr})")
            elif res[0] == "Err":
                o.good(rule)
            else:
                o.undecided(rule, key, MAIN, "outcome not known")


def segment_count(o, w, s, out, rule, key):
    """the stored number is the number of times the loop that emits the records runs"""
    if s.facts.bad or s.facts.refuted():
        return
    got = stored(w, s, out, 21, 2)
    reps = [p for p in getattr(out, "parts", ()) if isinstance(p, SRep)]
    if len(reps) != 1 or not isinstance(got, Lin):
        o.undecided(rule, key, MAIN, "the records are not emitted by one loop")
        return
    cnt = reps[0].count
    a = got.single()
    if s.facts.settle(eq(got, cnt)) is True:
        full = all(s.facts.decide(le(Lin(1), x.len)) is True for _, x in reps[0].alts)
        o.require(rule, True if full else None, key, MAIN, "some records may be empty")
    elif (isinstance(a, Atom) and a.key[0] == "wrap" and s.facts.settle(eq(a.key[1], cnt)) is True
          and not s.facts.unk and s.facts.decide(le(cnt, Lin(65535))) is None
          and not any(re.search(r"\b6553[4-7]\b", repr(g)) for g in s.facts.log)):
        # narrowed, and nothing on the way compares with the capacity of the field
        o.fail(rule, key, MAIN, "the number of segments is narrowed to two bytes and stored; no test that it fits lies on the path")
    else:
        o.undecided(rule, key, MAIN, f"{got!r} is stored, {cnt!r} records follow"[:200])


def c07_segments(o, C, kind):
    """any number of pieces of custom data"""
    w = World(C, cap=64)
    rule = "the number of segments is stored or refused"
    st, m = w.start()
    mref = w.r.place(st, "mesh", m)
    outs, data = w.custom(st, kind, lo=1)
    n = L(mk(("in", "custom.len"), "i", 0, 1 << 40))
    for s2, v in outs:
        for s3, ok_ in w.add_custom(s2, mref, v, w.r.lit("x")):
            if ok_ != "Ok":
                continue
            mesh = w.e.deref(s3, mref)
            fs = list(mesh.fields)
            hits = [i for i, f in enumerate(fs) if isinstance(f, Seq) and s3.facts.settle(eq(f.len, Lin(1))) is True]
            if len(hits) != 1:
                o.undecided(rule, kind, MAIN, "custom data is not kept in a list of the mesh")
                continue
            x = w.e.index(s3, fs[hits[0]], Lin(0))
            fs[hits[0]] = SConstRep(fs[hits[0]].elem, x, n)
            w.e.store(s3, mref, Agg(mesh.ty, mesh.variant, fs))
            for s, res, out in w.write_one(s3, mref, w.r.lit("mesh")):
                if res[0] == "Ok":
                    segment_count(o, w, s, out, rule, kind)
                elif res[0] == "Err":
                    o.good(rule)
                else:
                    o.undecided(rule, kind, MAIN, "outcome not known")


def c07(tier):
    ts = [Task("name", c07_name), Task("mesh list", c07_meshes), Task("segment count", c07_segments, "float")]
    for a in list(ATTRS) + list(CUSTOM):
        ts.append(Task(f"body of {a}", c07_body, a, weight=3))
    return ts
