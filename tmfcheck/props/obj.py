"""Properties of the OBJ reader: C02 (never panics) and C25 (routing of lines)."""
from .meshlib import *

READ, READ1 = "TMFMesh::read_from_obj", "TMFMesh::read_from_obj_one"
LISTS = (("vertices", "vertex_triangles", "v", 3), ("uvs", "uv_triangles", "vt", 2), ("normals", "normal_triangles", "vn", 3))


# ------------------------------------------------------------------ abstract OBJ text
class Text:
    """lines of known keywords and opaque words; word kinds: int, float, any"""

    def __init__(self, r):
        self.r = r
        self.e = r.e
        self.parts = []
        self.n = 0

    def word(self, kind):
        a = mk(("word", self.n, kind), "o")
        self.n += 1
        return SSym(self.r.u8, a, L(mk(("len", a), "i", 1, 1 << 20)))

    def put(self, *xs):
        for x in xs:
            self.parts.append(self.r.lit(x) if isinstance(x, (bytes, str)) else x)

    def line(self, *words, end=b"\n"):
        for i, w in enumerate(words):
            if i:
                self.put(b" ")
            self.put(w)
        self.put(end)

    def face(self, corners, end=b"\n"):
        self.put(b"f")
        for v, t, n in corners:
            self.put(b" ", v, b"/", t, b"/", n)
        self.put(end)

    def data(self, kw, n, count, end=b"\n"):
        """count lines of n coordinates -> the words"""
        out = []
        for _ in range(count):
            ws = [self.word("float") for _ in range(n)]
            self.line(kw, *ws, end=end)
            out.append(ws)
        return out

    def seq(self):
        return mk_cat(self.r.u8, self.parts)


def number(w):
    """zero-based value of an index word"""
    return Lin(int(w)) - 1 if isinstance(w, bytes) else L(mk(("number", w), "i", 1, 1 << 31)) - 1


def read_text(o, r, path, text):
    i = r.inst(path)
    if i is None:
        o.undecided("entry", path, path, "entry point not found")
        return None
    st = r.state()
    rd = r.slice_reader(st, text.seq(), "obj")
    outs = r.call(path, [rd], st)
    o.count("texts")
    o.count("outcomes", len(outs))
    return outs


# ------------------------------------------------------------------ C02
def c02_entry(o, C, path):
    """an arbitrary stream of lines"""
    r = Run(C, cap=64)
    i = r.inst(path)
    if i is None:
        o.undecided("entry", path, path, "entry point not found")
        return
    outs = r.e.analyse(i, st=r.state())
    o.count("outcomes", len(outs))
    panic_obligations(o, r, "reading an OBJ stream never panics")


def c02_face(o, C, corners, which, have):
    """one face of the given number of corners whose indices into one list are arbitrary, `have` lines
    of data for that list, and another object after it"""
    r = Run(C, cap=600)
    t = Text(r)
    t.line(b"o", t.word("any"))
    for data, _, kw, n in LISTS:
        t.data(kw, n, have if data == which else corners)
    cs = []
    for j in range(corners):
        cs.append([t.word("int") if x[0] == which else str(1 + j).encode() for x in LISTS])
    t.face(cs)
    t.line(b"o", t.word("any"))
    if read_text(o, r, READ, t) is not None:
        panic_obligations(o, r, "reading an OBJ stream never panics")


def c02(tier):
    out = [Task(p, c02_entry, p, weight=6) for p in (READ, READ1)]
    for k in (3, 4) if tier == "quick" else (3, 4, 5):
        for which in ("vertices", "uvs", "normals"):
            for have in (0, 2, 4):
                out.append(Task(f"face {k} {which} {have}", c02_face, k, which, have, weight=2,
                                cfg=("default", "full") if k == 3 else ("full",)))
    return out


# ------------------------------------------------------------------ C25
def floats(C, W, data):
    """name of the float type of the coordinates"""
    e = W.e
    t = W.elem_ty("TMFMesh::append_" + data)
    return C.types[t]["of"][0]


def c25_list(o, C, which):
    """one object with two triangles; the indices into one list are arbitrary, the other two lists
    have known indices"""
    W = World(C, cap=600)
    r, e = W.r, W.e
    rule = "indices and data of a triangle line reach the right lists"
    t = Text(r)
    nl = b"\r\n" if which == "uvs" else b"\n"
    t.line(b"#", t.word("any"), end=nl)
    t.line(b"o", t.word("any"), end=nl)
    words = {}
    for data, _, kw, n in LISTS:
        words[data] = t.data(kw, n, 7, end=nl)
    t.line(b"s", b"1", end=nl)
    known = {"vertices": (2, 5, 3, 3, 5, 4), "uvs": (6, 7, 7, 6, 7, 6), "normals": (3, 7, 6, 6, 3, 4)}
    cs = []
    for j in range(6):
        cs.append([t.word("int") if x[0] == which else str(known[x[0]][j]).encode() for x in LISTS])
    t.face(cs[:3], end=nl)
    t.face(cs[3:], end=nl)
    outs = read_text(o, r, READ, t)
    if outs is None:
        return
    good = 0
    for s, v in outs:
        k = r.result(s, v)
        if k[0] != "Ok":
            if k[0] == "Err":
                o.fail("a file of triangles is read", f"{which}|error", READ, "a well formed file of triangles is refused")
            else:
                o.undecided("a file of triangles is read", which, READ, "result not known")
            continue
        good += 1
        ms = dv_seq(e, s, k[1])
        if ms is None or not s.facts.decide(eq(ms.len, Lin(1))) is True:
            o.undecided(rule, which, READ, "number of meshes not known")
            continue
        m = e.index(s, ms, Lin(0))
        check_mesh(o, W, s, m, words, [[c[i] for c in cs] for i in range(3)], which, rule)
    o.count("meshes", good)
    read_something(o, r, good, which)


def dv_seq(e, st, v):
    while isinstance(v, Ref):
        v = e.deref(st, v)
    return v if isinstance(v, Seq) else None


def parsed(e, fty, w):
    return e.symval(fty, ("parse", w, e.tt(fty)))


def check_mesh(o, W, s, pair, words, idx, tag, rule):
    """the mesh of (mesh, name) resolves every corner to the data line its index names"""
    e, r = W.e, W.r
    mref = r.place(s, "got" + tag, pair.fields[0])
    for i, (data, tris, kw, n) in enumerate(LISTS):
        key = f"{tag}|{data}"
        td = [x for x in W.get(s, mref, tris)]
        vd = [x for x in W.get(s, mref, data)]
        if len(td) != 1 or len(vd) != 1:
            o.undecided(rule, key, READ, "more than one outcome of a getter")
            continue
        tri, val = td[0][1], vd[0][1]
        if tri is None or val is None:
            o.fail(rule, key + "|absent", READ, f"the mesh has no {data if val is None else tris}")
            continue
        n_i = length_is(s, tri, Lin(len(idx[i])))
        o.require(rule, n_i, key + "|count", READ, f"{tris} has {tri.len!r} entries for {len(idx[i])} corners")
        if n_i is not True:
            continue
        # indices are rebased by one common amount, which is also how many data elements are dropped
        got = [s.facts.norm(e.toint(e.index(s, tri, Lin(j)))) for j in range(len(idx[i]))]
        want = [number(w) for w in idx[i]]
        m = s.facts.norm(want[0] - got[0])
        for j in range(1, len(got)):
            d = s.facts.norm(want[j] - got[j] - m)
            q = s.facts.settle(eq(d, Lin(0)))
            if q is None and all(a.key[0] == "number" for a, _ in d.t):
                # file numbers that nothing relates
                q = False
            o.require(rule, weigh(s, q, d), key + f"|corner {j}", READ,
                      f"corner {j} of {tris}: {got[j]!r} for the index {want[j]!r}, corner 0 moved by {m!r}")
        q = s.facts.settle(eq(val.len + m, Lin(len(words[data]))))
        o.require(rule, weigh(s, q, val.len, m), key + "|moved", READ,
                  f"{data} has {val.len!r} elements of {len(words[data])} read while its indices moved by {m!r}")
        if q is not True:
            continue
        fty = floats(W.C, W, data)
        ety = W.elem_ty("TMFMesh::append_" + data)
        for p in range(len(words[data])):
            f = s.fork()
            f.facts.assume(le(m, Lin(p)))
            if f.facts.bad or f.facts.refuted():
                continue
            x = e.index(f, val, Lin(p) - m)
            w = Agg(ety, 0, tuple(parsed(e, fty, y) for y in words[data][p]))
            a = same_value(f.facts, e, x, w)
            if a is False and not isinstance(x, Agg):
                a = None        # an element chosen by a position that is not known
            o.require(rule, weigh(f, a, x, w) if a is not True else True, key + f"|element {p}", READ,
                      f"element {p} of {data} is {x!r}")


def weigh(st, q, *xs):
    """a failed comparison counts only on an exact path over exact values"""
    if q is True:
        return True
    if any(weak_in(x) for x in xs) or st.facts.lossy_for(frozenset(d for x in xs for d in term_deps(x))):
        return None
    return q


def c25_objects(o, C):
    """two objects: each mesh has the name of the line that started it and the faces up to the next,
    whose indices count from the beginning of the file"""
    W = World(C, cap=200)
    r, e = W.r, W.e
    rule = "a mesh holds the faces of its object, under its name"
    t = Text(r)
    names = [t.word("any"), t.word("any")]
    words = {}
    t.line(b"o", names[0])
    for data, _, kw, n in LISTS:
        words[data] = t.data(kw, n, 4)
    a = [[b"2", b"4", b"3"], [b"3", b"2", b"4"], [b"4", b"3", b"2"]]
    t.line(b"usemtl", t.word("any"))
    t.face(a)
    t.line(b"o", names[1])
    for data, _, kw, n in LISTS:
        words[data] = words[data] + t.data(kw, n, 3)
    b = [[b"5", b"7", b"6"], [b"7", b"3", b"2"], [b"6", b"4", b"5"], [b"5", b"7", b"4"], [b"2", b"6", b"3"], [b"3", b"5", b"7"]]
    t.line(b"s", b"off")
    t.face(b[:3])
    t.face(b[3:])
    outs = read_text(o, r, READ, t)
    if outs is None:
        return
    good = 0
    for s, v in outs:
        k = r.result(s, v)
        if k[0] != "Ok":
            if k[0] == "Err":
                o.fail(rule, "error", READ, "a well formed file of two objects is refused")
            else:
                o.undecided(rule, "result", READ, "result not known")
            continue
        ms = dv_seq(e, s, k[1])
        q = s.facts.decide(eq(ms.len, Lin(2))) if ms is not None else None
        o.require(rule, q, "count", READ, f"{ms.len if ms is not None else '?'} meshes for two objects")
        if q is not True:
            continue
        for j, (cs, upto) in enumerate(((a, 4), (b, 7))):
            m = e.index(s, ms, Lin(j))
            nm = m.fields[1] if isinstance(m, Agg) else None
            nm = dv_seq(e, s, nm) if nm is not None else None
            if nm is None:
                o.undecided(rule, f"name {j}", READ, "name not known")
            else:
                q = True if nm == names[j] else None if weak_in(nm) else False
                o.require(rule, q, f"name {j}", READ, f"mesh {j} is called {nm!r} instead of {names[j]!r}")
            good += 1
            check_mesh(o, W, s, m, {d: words[d][:upto] for d in words}, [[c[i] for c in cs] for i in range(3)], f"object {j}", rule)
    read_something(o, r, good, "objects")


def read_something(o, r, good, tag):
    """when no path ends in a mesh, every one of them panics"""
    if good or o.bad or o.und:
        return
    if any(x.status != "ok" and not x.weak for x in r.e.obls):
        o.fail("a file of triangles is read", tag + "|panic", READ, "every path of reading a well formed file ends in a panic")
    else:
        o.undecided("a file of triangles is read", tag, READ, "no path of reading a well formed file is known to end")


def c25(tier):
    return [Task("corners " + d, c25_list, d, weight=3) for d, _, _, _ in LISTS] + [Task("objects", c25_objects)]
