"""Properties of the TMF writer, decided on abstract meshes: a mesh is built through the public API
with arrays of arbitrary content and length, written to an empty vector and read back."""
from .meshlib import *
from .quant import c10

MAIN = "TMFMesh::write_tmf_one"
NAMEAT = 15


class Trip:
    """one outcome of writing a mesh and reading the bytes back"""

    def __init__(self, st, mesh, rest, data, name, written):
        self.st = st
        self.mesh = mesh
        self.rest = rest
        self.data = data
        self.name = name
        self.written = written


def trips(o, w, st, mref, name, rule, key):
    """every outcome of write then read; refused writes and reads are violations of `rule`"""
    out = []
    nw = 0
    for s, res, data in w.write_one(st, mref, name):
        nw += 1
        if res[0] != "Ok":
            refused(o, s, res, rule, key, "writing a mesh that fits the format is refused")
            continue
        for s2, r2, m2, rest in w.read_one(s, data):
            if r2[0] != "Ok":
                refused(o, s2, r2, rule, key, "the written file is refused by the reader")
                continue
            o.good(rule)
            out.append(Trip(s2, m2, rest, data, r2[1].fields[1], s))
    o.count("write/read paths", len(out))
    if not nw:
        o.undecided(rule, key, MAIN, "no outcome")
    return out


def refused(o, s, res, rule, key, msg):
    if s.facts.refuted():
        return
    if res[0] == "?" or s.facts.weak_path():
        o.undecided(rule, key, MAIN, msg + f": {res[0]} {res[1]!r}"[:80])
    else:
        o.fail(rule, key, MAIN, msg + f" ({res[1]})")


def build(o, w, attrs, lo=0):
    """a mesh with these attributes, each of arbitrary content -> [(state, mesh reference)], data"""
    st, m = w.start()
    mref = w.r.place(st, "mesh", m)
    d = {}
    sts = [st]
    for a in attrs:
        nxt = []
        if a in ATTRS:
            d[a] = w.attr_data(a, lo=lo)
            nxt = [w.append(st, mref, a, d[a]) for st in sts]
        else:
            for st in sts:
                outs, d[a] = w.custom(st, a, lo=lo)
                for s2, v in outs:
                    for s3, n in w.add_custom(s2, mref, v, w.r.lit("the " + a)):
                        if n == "Ok":
                            nxt.append(s3)
                        else:
                            o.fail("custom data with a plain name is accepted", a, "TMFMesh::add_custom_data", f"adding custom {a} data: {n}")
        sts = nxt
    return sts, mref, d


def presence(w, st, mref):
    """attribute -> True/False/None"""
    res = {}
    for a in ATTRS:
        g = w.get(st, mref, a)
        res[a] = {x is not None for _, x in g}
        res[a] = res[a].pop() if len(res[a]) == 1 else None
    return res


# ------------------------------------------------------------------ C08
def c08_set(o, C, attrs):
    """a mesh with exactly these attributes comes back with exactly these attributes"""
    w = World(C, cap=64 if len(attrs) < 3 else 600)
    sts, mref, d = build(o, w, attrs)
    key = "+".join(attrs)
    rule = "every attribute is written and read back as itself"
    for st in sts:
        for t in trips(o, w, st, mref, w.r.lit("mesh"), rule, key):
            check_set(o, w, t, attrs, d, rule, key)


def check_set(o, w, t, attrs, d, rule, key):
    st = t.st
    have = presence(w, st, t.mesh)
    for a in ATTRS:
        want = a in attrs
        ok_ = None if have[a] is None else have[a] == want
        if ok_ is False and st.facts.refuted():
            continue
        o.require(rule, ok_, f"{key}|{a}", MAIN, f"a mesh with {key}: {a} is {'absent' if want else 'present'} after writing and reading")
        if ok_ and want:
            x = w.get1(st, t.mesh, a)
            ok2 = length_is(st, x, d[a].len)
            o.require(rule, ok2, f"{key}|{a}|len", MAIN, f"a mesh with {key}: {a} comes back with {x.len!r} elements instead of {d[a].len!r}"[:200])
    for k in CUSTOM:
        for s2, v in w.lookup(st, t.mesh, w.r.lit("the " + k)):
            if s2.facts.refuted():
                continue
            if v == "?":
                o.undecided(rule, f"{key}|{k}", MAIN, "custom data lookup not decided")
                continue
            kind = VARIANT.get(w.r.vname(v)) if v is not None else None
            want = k if k in attrs else None
            o.require(rule, kind == want, f"{key}|{k}", MAIN, f"a mesh with {key}: custom {k} data comes back as {kind}")
            if kind == want and want:
                x = data_of(w, s2, v)
                o.require(rule, length_is(s2, x, d[k].len), f"{key}|{k}|len", MAIN,
                          f"custom {k} data comes back with {x.len!r} elements instead of {d[k].len!r}"[:200])


VARIANT = {"CustomIndex": "index", "CustomIntiger": "intiger", "CustomFloat": "float", "CustomColorRGBA": "color"}


def data_of(w, st, v):
    x = v.fields[0]
    while isinstance(x, Ref):
        x = w.e.deref(st, x)
    return x


def c08_code(o, C, attr, others=()):
    """the stored segment code"""
    w = World(C)
    sts, mref, d = build(o, w, [attr])
    code = ATTRS.get(attr) or CUSTOM.get(attr)
    rule = "the segment carries the code of its attribute"
    for s, res, data in [x for st in sts for x in w.write_one(st, mref, w.r.lit("mesh"))]:
        if res[0] != "Ok":
            continue
        b = w.e.index(s, data, Lin(NAMEAT + 2 + 4 + 2))
        n = w.e.index(s, data, Lin(NAMEAT + 2 + 4))
        if s.facts.settle(eq(n, Lin(0))) is True:
            o.fail(rule, attr, MAIN, f"{attr}: no segment is written")
            continue
        o.require(rule, s.facts.settle(eq(b, Lin(code))), attr, MAIN, f"{attr} is written with segment code {b!r} instead of {code}"[:160])


def c08_decode(o, C, code, ver):
    """whatever its body, a segment of this code touches only its own attribute"""
    w = World(C, cap=48)
    r = w.r
    st = r.state()
    body = L(mk(("in", "body.len"), "i", 0, 1 << 31))
    parts = [r.header(1, ver), r.num(1, 2), r.lit("m"), r.num(1, 2)]
    new = ver[1] > 1
    own = {a for a, c in ATTRS.items() if c == code}
    pre = []
    if code == 25:
        mask = r.sym("mask", 1)
        pre = [r.num(mask, 1)]
    blob = r.blob("body", body)
    parts += [r.num(code, 1 if new else 2), r.num(body + len(pre), 4 if new else 8), r.num(r.sym("comp", 1), 1)] + pre + [blob]
    if code == 25:
        st.facts.assume(le(body, Lin((1 << 31) - 1)))
    data = r.cat(*parts)
    rule = "a segment is applied to its own attribute only"
    n = 0
    for s, res, m, rest in w.read_one(st, data):
        if res[0] != "Ok":
            continue
        n += 1
        have = presence(w, s, m)
        if code == 25:
            own = set()
            und = False
            for bit, a in ((1, "vertex_triangles"), (2, "normal_triangles"), (4, "uv_triangles")):
                d = bit_of(w, s, mask, bit)
                if d is None:
                    und = True
                elif d:
                    own.add(a)
            if und:
                o.undecided(rule, f"code {code}", MAIN, "mask bits not decided")
                continue
        for a in ATTRS:
            ok_ = None if have[a] is None else have[a] == (a in own)
            if ok_ is False and s.facts.refuted():
                continue
            o.require(rule, ok_, f"{code}|{a}", "TMFMesh::read_tmf_one",
                      f"a segment with code {code} leaves {a} {'absent' if a in own else 'present'}" + (f" (mask {sorted(own)})" if code == 25 else ""))
    o.require(rule, True if n else None, f"{code}|never", "TMFMesh::read_tmf_one", f"no segment with code {code} is accepted")


def bit_of(w, s, mask, bit):
    """value of a bit of the mask under the path condition"""
    x = mk_and(mask, Lin(bit), (0, 255))
    d = s.facts.settle(eq(x, Lin(0)))
    return None if d is None else not d


def c08_unknown(o, C, ver):
    """a segment with an unknown code is skipped, whatever it holds, and what follows is still read"""
    w = World(C)
    r = w.r
    st = r.state()
    code = r.sym("code", 1 if ver[1] > 1 else 2)
    for c in list(ATTRS.values()) + list(CUSTOM.values()) + [25]:
        st.facts.assume(bnot(eq(code, Lin(c))))
    new = ver[1] > 1
    n = L(mk(("in", "body.len"), "i", 0, 1 << 31))
    seg1 = [r.num(code, 1 if new else 2), r.num(n, 4 if new else 8), r.num(0, 1), r.blob("body", n)]
    # then vertex indices: width 0, two elements, minimum 7
    b2 = r.cat(r.num(0, 1), r.num(2, 8), r.num(7, 8 if new else 4))
    seg2 = [r.num(2, 1 if new else 2), r.num(b2.len.c, 4 if new else 8), r.num(0, 1), b2]
    data = r.cat(r.header(1, ver), r.num(1, 2), r.lit("m"), r.num(2, 2), *seg1, *seg2)
    rule = "segments of unknown kinds are skipped"
    nr = 0
    for s, res, m, rest in w.read_one(st, data):
        nr += 1
        if s.facts.refuted():
            continue
        if res[0] != "Ok":
            o.require(rule, None if res[0] == "?" else False, "refused", ONE_, f"a file with a segment of an unknown kind is refused: {res[1]}")
            continue
        have = presence(w, s, m)
        for a in ATTRS:
            o.require(rule, None if have[a] is None else have[a] == (a == "vertex_triangles"), a, ONE_,
                      f"after a segment of unknown kind and vertex indices, {a} is {'present' if have[a] else 'absent'}")
    o.require(rule, True if nr else None, "none", ONE_, "no outcome")


ONE_ = "TMFMesh::read_tmf_one"


def c08(tier):
    ts = []
    names = list(ATTRS)
    for a in names + list(CUSTOM):
        ts.append(Task(f"only {a}", c08_set, (a,), weight=3))
        ts.append(Task(f"code of {a}", c08_code, a, weight=2))
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            ts.append(Task(f"{a} and {b}", c08_set, (a, b), cfg=("default",) if tier == "quick" else ("default", "full"), weight=5))
    for i, a in enumerate(CUSTOM):
        for b in list(CUSTOM)[i + 1:]:
            ts.append(Task(f"custom {a} and {b}", c08_set, (a, b), cfg=("default",), weight=5))
    ts.append(Task("three lists", c08_set, TRIS[:3], cfg=("default",), weight=20))
    if tier != "quick":
        ts.append(Task("all lists", c08_set, tuple(TRIS), cfg=("default",), weight=90))
        for a in names:
            for b in CUSTOM:
                ts.append(Task(f"{a} and custom {b}", c08_set, (a, b), cfg=("default",), weight=6))
        for a in TRIS:
            for b in TRIS:
                if a < b:
                    for c in names:
                        if c not in TRIS:
                            ts.append(Task(f"{a}, {b} and {c}", c08_set, (a, b, c), cfg=("default",), weight=20))
    for ver in ((0, 2), (0, 1)):
        for c in list(ATTRS.values()) + list(CUSTOM.values()) + [25, 0, 7]:
            ts.append(Task(f"reading code {c} v{ver[0]}.{ver[1]}", c08_decode, c, ver, weight=2))
        ts.append(Task(f"unknown code v{ver[0]}.{ver[1]}", c08_unknown, ver))
    return ts


# ------------------------------------------------------------------ C09
def floaty(x):
    """does a term depend on floating point values or on values lost in a join?"""
    return any(a.sort == "f" or a.weak for a in term_deps(x))


def check_layout(o, w, st, rest, rule, key):
    """nothing of the file is left over, and every packed number is read with the width it was written with"""
    d = st.facts.settle(eq(rest, Lin(0))) if rest is not None else None
    if d is False and st.facts.refuted():
        return
    o.require(rule, d, key + "|rest", ONE_, f"{key}: after reading the written file {rest!r} bytes are left"[:200])


def widths(o, w, rule, key):
    n = 0
    for kind, fn, loc, chain, data, facts, ctx in w.e.events:
        if kind != "width-mismatch":
            continue
        n += 1
        a, b, d = data
        if facts.refuted():
            continue
        if d is False and not floaty(a) and not floaty(b):
            o.fail(rule, key + "|width", where(fn, loc), f"{key}: a number packed in {a!r} bits is read as {b!r} bits"[:260])
        else:
            o.undecided(rule, key + "|width", where(fn, loc), f"{key}: widths {a!r} and {b!r} not compared"[:260])
    if not n:
        o.good(rule)


def c09_set(o, C, attrs, lo=0):
    w = World(C, cap=64 if len(attrs) < 3 else 600)
    sts, mref, d = build(o, w, attrs, lo)
    key = "+".join(attrs) or "an empty mesh"
    rule = "the reader consumes exactly the fields the writer emits"
    nm = L(mk(("in", "name.len"), "i", 0, 65535))
    name = w.r.text("name", nm)
    for st in sts:
        for t in trips(o, w, st, mref, name, rule, key):
            check_layout(o, w, t.st, t.rest, rule, key)
            x = t.name
            while isinstance(x, Ref):
                x = w.e.deref(t.st, x)
            g, why = same_elements(t.st, w.e, x, name)
            o.require("the mesh name is read back as written", g, key + "|name", ONE_, f"{key}: name: {why}")
            for a in attrs:
                if a not in ATTRS:
                    continue
                y = w.get(t.st, t.mesh, a)
                if len(y) == 1 and y[0][1] is not None:
                    o.require("as many elements are read as were written", t.st.facts.settle(eq(y[0][1].len, d[a].len)), key + "|" + a, ONE_,
                              f"{key}: {a}: {y[0][1].len!r} elements instead of {d[a].len!r}"[:200])
    widths(o, w, "packed numbers are read with the width they were written with", key)


def c09_list(o, C, sets):
    """several meshes in one file"""
    w = World(C, cap=200)
    r = w.r
    rule = "a list of meshes is read back mesh by mesh"
    st, m = w.start()
    key = " / ".join("+".join(x) or "empty" for x in sets)
    items, names, datas = [], [], []
    for i, attrs in enumerate(sets):
        (st, m), = r.call("TMFMesh::empty", [], st)
        mref = r.place(st, f"mesh{i}", m)
        d = {}
        for a in attrs:
            d[a] = w.attr_data(a, name=f"{a}#{i}", lo=1)
            st = w.append(st, mref, a, d[a], tag=f"data{i}")
        nm = r.text(f"name{i}", L(mk(("in", f"name{i}.len"), "i", 0, 65535)))
        names.append(nm)
        datas.append(d)
        items.append((mref, nm))
    b = C.body(r.inst("TMFMesh::write_tmf"))
    t = b.locals[1]
    et = C.elem_of(C.types[t]["to"]) if C.types[t]["k"] == "ref" else C.elem_of(t)
    vals = []
    for i, (mref, nm) in enumerate(items):
        nref = w.slice_of(st, f"nm{i}", nm)
        vals.append(Agg(et, 0, [w.e.deref(st, mref), nref]))
    lst = r.place(st, "list", SLit(et, vals))
    out = r.place(st, "out", SLit(r.u8, []))
    arg = Ref(lst.loc, (), (Lin(0), Lin(len(vals))))
    for s, v in r.call("TMFMesh::write_tmf", [arg, out, w.prec(st)], st):
        res = r.result(s, v)
        if res[0] != "Ok":
            refused(o, s, res, rule, key, "writing meshes that fit the format is refused")
            continue
        data = w.e.deref(s, out)
        src = r.slice_reader(s, data, "srcl")
        for s2, v2 in r.call("TMFMesh::read_tmf", [src], s):
            r2 = r.result(s2, v2)
            if r2[0] != "Ok":
                refused(o, s2, r2, rule, key, "the written file is refused by the reader")
                continue
            x = w.e.deref(s2, src)
            check_layout(o, w, s2, x.rng[1] if isinstance(x, Ref) and x.rng else None, rule, key)
            got = r2[1]
            while isinstance(got, Ref):
                got = w.e.deref(s2, got)
            n = s2.facts.settle(eq(got.len, Lin(len(vals))))
            o.require(rule, n, key + "|count", "TMFMesh::read_tmf", f"{key}: {got.len!r} meshes are read back instead of {len(vals)}")
            if n is not True:
                continue
            for i in range(len(vals)):
                p = w.e.index(s2, got, Lin(i))
                mesh, nm = p.fields
                g, why = same_elements(s2, w.e, nm, names[i])
                o.require(rule, g, f"{key}|name{i}", "TMFMesh::read_tmf", f"{key}: name of mesh {i}: {why}")
                mr = r.place(s2, f"got{i}", mesh)
                have = presence(w, s2, mr)
                for a in ATTRS:
                    want = a in datas[i]
                    ok_ = None if have[a] is None else have[a] == want
                    o.require(rule, ok_, f"{key}|{i}|{a}", "TMFMesh::read_tmf", f"{key}: {a} of mesh {i} is {'absent' if want else 'present'} after reading")
                    if ok_ and want:
                        y = w.get1(s2, mr, a)
                        o.require(rule, length_is(s2, y, datas[i][a].len), f"{key}|{i}|{a}|len", "TMFMesh::read_tmf",
                                  f"{key}: {a} of mesh {i} has {y.len!r} elements instead of {datas[i][a].len!r}"[:200])
                        if a in TRIS:
                            g, why = same_elements(s2, w.e, y, datas[i][a])
                            o.require(rule, g, f"{key}|{i}|{a}|same", "TMFMesh::read_tmf", f"{key}: {a} of mesh {i}: {why}")
    widths(o, w, "packed numbers are read with the width they were written with", key)


def c09(tier):
    ts = [Task("empty mesh", c09_set, ())]
    names = list(ATTRS)
    for a in names + list(CUSTOM):
        ts.append(Task(f"only {a}", c09_set, (a,), weight=3))
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            ts.append(Task(f"{a} and {b}", c09_set, (a, b), cfg=("default",) if tier == "quick" else ("default", "full"), weight=6))
    for i, a in enumerate(CUSTOM):
        for b in list(CUSTOM)[i + 1:]:
            ts.append(Task(f"custom {a} and {b}", c09_set, (a, b), cfg=("default",), weight=5))
    lists = [(), ((),), (("vertex_triangles",), ("normals",)), (("uvs",), ()), ((), ("tangent_triangles",)), (("vertices",), ("vertices",))]
    if tier != "quick":
        lists += [((a,), (b,)) for a in names for b in names]
        for a in names:
            for b in CUSTOM:
                ts.append(Task(f"{a} and custom {b}", c09_set, (a, b), cfg=("default",), weight=6))
    for x in lists:
        ts.append(Task("list " + repr(x), c09_list, x, cfg=("default", "full") if len(x) < 2 else ("default",), weight=8))
    return ts


# ------------------------------------------------------------------ C28
def c28_set(o, C, attrs, lo=0):
    w = World(C, cap=64 if len(attrs) < 3 else 600)
    sts, mref, d = build(o, w, attrs, lo)
    key = "+".join(attrs)
    rule = "index lists come back unchanged"
    n = 0
    for st in sts:
        for t in trips(o, w, st, mref, w.r.lit("mesh"), rule, key):
            n += 1
            same_lists(o, w, t.st, t.mesh, attrs, d, rule, key)
    o.require(rule, True if n else None, key, MAIN, f"{key}: never written and read back")
    fits(o, w, key)


def same_lists(o, w, st, mesh, attrs, d, rule, key):
    for a in attrs:
        if a in TRIS:
            xs = w.get(st, mesh, a)
        elif a in ("index", "intiger"):
            xs = [(s2, data_of(w, s2, v) if isinstance(v, Agg) else None) for s2, v in w.lookup(st, mesh, w.r.lit("the " + a))]
        else:
            continue
        for s2, x in xs:
            if s2.facts.refuted():
                continue
            if x is None:
                o.fail(rule, f"{key}|{a}", MAIN, f"{key}: {a} is lost")
                continue
            g, why = same_elements(s2, w.e, x, d[a])
            if g is False and (why.startswith("length") and s2.facts.lossy_for(term_deps(x) | term_deps(d[a])) or "h(" in why and floaty_text(why)):
                g = None
            o.require(rule, g, f"{key}|{a}", MAIN, f"{key}: {a}: {why}")


def floaty_text(t):
    return "?" in t


def fits(o, w, key):
    """every packed index fits the width it is packed with"""
    rule = "packed indices fit their width"
    for kind, fn, loc, chain, data, facts, ctx in w.e.events:
        if kind != "pack":
            continue
        m, v, ok_ = data
        if floaty(m) or floaty(v):
            continue
        if ok_ is False and not facts.refuted():
            o.fail(rule, key + "|fits", where(fn, loc), f"{key}: {v!r} does not fit {m!r} bits"[:260])
        else:
            o.require(rule, True if ok_ else None, key + "|fits", where(fn, loc), f"{key}: {v!r} in {m!r} bits"[:260])


def c28(tier):
    ts = []
    for a in TRIS + ("index", "intiger"):
        ts.append(Task(f"only {a}", c28_set, (a,), weight=3))
    for i, a in enumerate(TRIS):
        for b in TRIS[i + 1:]:
            ts.append(Task(f"{a} and {b}", c28_set, (a, b), cfg=("default",) if tier == "quick" else ("default", "full"), weight=6))
    ts.append(Task("index and intiger", c28_set, ("index", "intiger"), cfg=("default",), weight=6))
    for a in ("vertices", "normals", "uvs", "tangents") if tier != "quick" else ("vertices",):
        for b in TRIS:
            ts.append(Task(f"{a} and {b}", c28_set, (a, b), cfg=("default",), weight=6))
    return ts


# ------------------------------------------------------------------ C22
def splitters(C):
    """functions of the crate that cut a slice into a list of slices"""
    out = []
    for i, x in enumerate(C.insts):
        if not x or not x.get("body") or "{" in x["path"]:
            continue
        b = C.body(i)
        e = C.elem_of(b.locals[0])
        if e is None or C.types[e]["k"] != "ref" or C.types[C.types[e]["to"]]["k"] != "slice":
            continue
        if b.argc >= 1 and any(b.locals[k + 1] == e for k in range(b.argc)) and not x["path"].startswith(("core::", "alloc::", "std::", "<", "smallvec::")):
            out.append(i)
    return out


def splitter_ok(C, i, o=None):
    """modular induction: assuming the recursive calls return adjacent parts in order, does this one?"""
    w = World(C, cap=200, split_rec=2)
    st = w.r.state()
    b = C.body(i)
    e = C.elem_of(b.locals[0])
    data = w.seq(C.elem_of(C.types[e]["to"]), "slice")
    ref = w.slice_of(st, "slice", data)
    args = []
    for k in range(b.argc):
        t = b.locals[k + 1]
        args.append(ref if t == e else w.e.symval(t, ("in", f"arg{k}")))
    good = True
    n = 0
    for s, v in w.e.analyse(i, args=args, st=st):
        if s.facts.refuted():
            continue
        n += 1
        if not isinstance(v, SLit):
            return None
        pos = Lin(0)
        for x in v.items:
            if not (isinstance(x, Ref) and x.loc == ref.loc):
                return None
            a, ln = x.rng if x.rng is not None else (Lin(0), data.len)
            if s.facts.settle(eq(a, pos)) is not True:
                return None
            pos = a + ln
        if s.facts.settle(eq(pos, data.len)) is not True:
            return None
        if o is not None:
            o.good("a split list is its parts in order")
    return good if n else None


def c22_split(o, C, attr):
    """one attribute, written in several segments"""
    ok_ = []
    for i in splitters(C):
        try:
            if splitter_ok(C, i, o):
                ok_.append(i)
        except Undecided:
            pass
    rule = "a list split into segments comes back whole"
    w = World(C, cap=600, split_rec=1, split_contract=tuple(ok_))
    sts, mref, d = build(o, w, [attr])
    n = 0
    for st in sts:
        for t in trips(o, w, st, mref, w.r.lit("mesh"), rule, attr):
            k = w.e.index(t.st, t.data, Lin(NAMEAT + 6))
            if t.st.facts.settle(eq(k, Lin(1))) is not True:
                n += 1
            if attr in TRIS:
                same_lists(o, w, t.st, t.mesh, [attr], d, rule, attr)
            else:
                x = w.get1(t.st, t.mesh, attr)
                if x is None:
                    o.fail(rule, attr, MAIN, f"{attr} is lost")
                    continue
                o.require(rule, length_is(t.st, x, d[attr].len), attr + "|len", MAIN, f"{attr}: {x.len!r} elements instead of {d[attr].len!r}"[:200])
    o.count("outcomes with several segments", n)


def c22_share(o, C, attrs, lo=0):
    w = World(C, cap=64 if len(attrs) < 3 else 600)
    sts, mref, d = build(o, w, attrs, lo)
    key = "+".join(attrs)
    rule = "sharing equal lists loses nothing"
    n = 0
    for st in sts:
        for t in trips(o, w, st, mref, w.r.lit("mesh"), rule, key):
            k = w.e.index(t.st, t.data, Lin(NAMEAT + 6))
            if t.st.facts.settle(lt(k, Lin(len(attrs)))) is True:
                n += 1
            have = presence(w, t.st, t.mesh)
            for a in ATTRS:
                ok_ = None if have[a] is None else have[a] == (a in attrs)
                if ok_ is False and t.st.facts.refuted():
                    continue
                o.require(rule, ok_, f"{key}|{a}", MAIN, f"{key}: {a} is {'lost' if a in attrs else 'made up'}")
            if all(have[a] for a in attrs):
                same_lists(o, w, t.st, t.mesh, attrs, d, rule, key)
    o.count("outcomes with a shared segment", n)


def c22_mask(o, C, mask):
    """a shared segment with this mask is applied to each attribute of the mask"""
    w = World(C)
    r = w.r
    st = r.state()
    lst = L(mk(("in", "min"), "i", 0, (1 << 32) - 1))
    body = r.cat(r.num(mask, 1), r.num(0, 1), r.num(3, 8), r.num(lst, 8))
    data = r.cat(r.header(1, (0, 2)), r.num(1, 2), r.lit("m"), r.num(1, 2), r.num(25, 1), r.num(body.len.c, 4), r.num(0, 1), body)
    rule = "a shared segment is applied to every attribute it names"
    own = [a for bit, a in ((1, "vertex_triangles"), (2, "normal_triangles"), (4, "uv_triangles")) if mask & bit]
    n = 0
    for s, res, m, rest in w.read_one(st, data):
        if s.facts.refuted():
            continue
        if res[0] != "Ok":
            o.require(rule, None if res[0] == "?" else False, f"mask{mask}", ONE_, f"a shared segment with mask {mask} is refused")
            continue
        n += 1
        have = presence(w, s, m)
        for a in ATTRS:
            o.require(rule, None if have[a] is None else have[a] == (a in own), f"mask{mask}|{a}", ONE_,
                      f"a shared segment with mask {mask} leaves {a} {'absent' if a in own else 'present'}")
            if have[a] and a in own:
                x = w.get1(s, m, a)
                g = same_elements(s, w.e, x, SLit(x.elem, [lst] * 3))
                o.require(rule, g[0], f"mask{mask}|{a}|same", ONE_, f"shared segment: {a}: {g[1]}")
    o.require(rule, True if n else None, f"mask{mask}", ONE_, "never accepted")


def c22(tier):
    ts = []
    for a in TRIS + ("vertices",):
        ts.append(Task(f"{a} in several segments", c22_split, a, cfg=("default",) if tier == "quick" else ("default", "full"), weight=6))
    for i, a in enumerate(TRIS):
        for b in TRIS[i + 1:]:
            ts.append(Task(f"{a} and {b}", c22_share, (a, b), weight=6))
    ts.append(Task("three lists", c22_share, TRIS[:3], cfg=("default",), weight=20))
    if tier != "quick":
        ts.append(Task("all lists", c22_share, tuple(TRIS), cfg=("default",), weight=90))
    for m in range(8):
        ts.append(Task(f"shared mask {m}", c22_mask, m))
    return ts


# ------------------------------------------------------------------ C21
def c21_set(o, C, attrs, lo=0):
    """writing a mesh with these attributes, each of arbitrary content"""
    w = World(C, cap=64 if len(attrs) < 3 else 600, zero_case=True)
    sts, mref, d = build(o, w, attrs, lo)
    name = w.r.text("name", L(mk(("in", "name.len"), "i", 0, 1 << 40)))
    n = 0
    for st in sts:
        for s, res, data in w.write_one(st, mref, name):
            n += 1
    o.count("outcomes of writing", n)
    panic_obligations(o, w.r, "writing never panics")


def c21_any(o, C, keep, generic=False):
    """writing a mesh about which nothing is known, custom data included, except that attributes not in keep are absent"""
    w = World(C, cap=64, zero_case=True)
    st, m = w.start()
    mref = w.r.place(st, "mesh", w.e.symval(w.meshty, ("in", "mesh")))
    sts = [st]
    for a in ATTRS:
        if a not in keep:
            sts = [s for st in sts for s, x in w.get(st, mref, a) if x is None]
    name = w.r.text("name", L(mk(("in", "name.len"), "i", 0, 1 << 40)))
    n = 0
    for st in sts:
        for s, res, data in w.write_one(st, mref, name):
            n += 1
    o.count("outcomes of writing", n)
    panic_obligations(o, w.r, "writing never panics")


def c21_list(o, C, n):
    """a list of n unknown meshes without index lists and vertices"""
    w = World(C, cap=64, zero_case=True)
    r = w.r
    st, m = w.start()
    b = C.body(r.inst("TMFMesh::write_tmf"))
    t = b.locals[1]
    et = C.elem_of(C.types[t]["to"]) if C.types[t]["k"] == "ref" else C.elem_of(t)
    vals = []
    for i in range(n):
        nm = r.text(f"name{i}", L(mk(("in", f"name{i}.len"), "i", 0, 1 << 40)))
        vals.append(Agg(et, 0, [m, w.slice_of(st, f"nm{i}", nm)]))
    lst = r.place(st, "list", SLit(et, vals))
    out = r.place(st, "out", SLit(r.u8, []))
    k = 0
    for s, v in r.call("TMFMesh::write_tmf", [Ref(lst.loc, (), (Lin(0), Lin(n))), out, w.prec(st)], st):
        k += 1
    o.count("outcomes of writing", k)
    panic_obligations(o, r, "writing never panics")


def c21(tier):
    ts = [Task("empty mesh", c21_set, ()), Task("no mesh", c21_list, 0), Task("two meshes", c21_list, 2)]
    names = list(ATTRS)
    for a in names + list(CUSTOM):
        ts.append(Task(f"only {a}", c21_set, (a,), weight=3))
        ts.append(Task(f"only {a}, unknown custom data", c21_any, (a,), weight=3))
    for i, a in enumerate(TRIS):
        for b in TRIS[i + 1:]:
            ts.append(Task(f"{a} and {b}", c21_set, (a, b), weight=6))
    for a in TRIS:
        ts.append(Task(f"vertices and {a}", c21_set, ("vertices", a), weight=6))
    ts.append(Task("three lists", c21_set, TRIS[:3], cfg=("default",), weight=20))
    if tier != "quick":
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                ts.append(Task(f"{a} and {b}, any", c21_set, (a, b), weight=6))
        ts.append(Task("all lists", c21_set, tuple(TRIS), cfg=("default",), weight=90))
    return ts
