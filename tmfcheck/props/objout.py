"""The OBJ writer, decided on the text it produces: C16 (face indices) and C29 (every element once, exactly, in order).

A list of meshes with given attributes of arbitrary content and length is written to an empty vector. The
abstract text is a concatenation of literal bytes, displayed values, names and comprehensions (one piece per loop
iteration); comprehensions are instantiated at an arbitrary position (for faces, an arbitrary triple of positions)
and cut into lines and words, so the way the code produces the text does not matter."""
from .meshlib import *

OBJ = "TMFMesh::write_obj"
ONE = "TMFMesh::write_obj_one"
DATA = {"v": ("vertices", 3), "vn": ("normals", 3), "vt": ("uvs", 2)}
SLOTS = (("vertex_triangles", "vertices"), ("uv_triangles", "uvs"), ("normal_triangles", "normals"))
ALL = ("vertices", "normals", "uvs", "vertex_triangles", "normal_triangles", "uv_triangles")
INCR = "one more than the list says, plus what earlier meshes wrote"


def obj_text(C, sets, one=False, cap=400):
    """[(state, result, text)], data per mesh: the text written for a list of meshes with these attributes"""
    w = World(C, cap=cap)
    r = w.r
    st = r.state()
    i = r.inst(ONE if one else OBJ)
    if i is None:
        raise Undecided("entry point not found")
    vals, datas = [], []
    if not one:
        t = C.body(i).locals[1]
        et = C.elem_of(C.types[t]["to"]) if C.types[t]["k"] == "ref" else C.elem_of(t)
    for i, attrs in enumerate(sets):
        (st, m), = r.call("TMFMesh::empty", [], st)
        mref = r.place(st, f"mesh{i}", m)
        d = {}
        for a in attrs:
            d[a] = w.attr_data(a, name=f"{a}#{i}")
            st = w.append(st, mref, a, d[a], tag=f"data{i}")
        datas.append(d)
        name = r.text(f"name{i}", L(mk(("in", f"name{i}.len"), "i", 0, 1 << 40)))
        d["name"] = name
        nref = w.slice_of(st, f"nm{i}", name)
        if not one:
            vals.append(Agg(et, 0, [w.e.deref(st, mref), nref]))
    out = r.place(st, "out", SLit(r.u8, []))
    if one:
        args = [mref, out, nref]
    else:
        lst = r.place(st, "list", SLit(et, vals))
        args = [Ref(lst.loc, (), (Lin(0), Lin(len(vals)))), out]
    res = []
    for s, v in r.call(ONE if one else OBJ, args, st):
        res.append((s, r.result(s, v), w.e.deref(s, out)))
    return w, res, datas


# ------------------------------------------------------------------ text -> lines
def tokens(st, x):
    """flat list of bytes (int), ("disp", v), ("text", seq), ("rep", seq)"""
    if isinstance(x, SLit):
        return [("byte", y) if not (isinstance(y, Lin) and y.is_const()) else y.c for y in x.items]
    if isinstance(x, SCat):
        return [t for p in x.parts for t in tokens(st, p)]
    if isinstance(x, SFun):
        if x.name == "disp" or x.name == "new_debug" and x.args[1] == "()" and not isinstance(x.args[0], Seq):
            return [("disp", x.args[0])]
        return [("fmt", x.name, "prec" in repr(x.args[1:]))]
    if isinstance(x, SRep):
        n = st.facts.norm(x.count)
        if n.is_const() and n.c <= 8 and len(x.alts) == 1:
            return [t for j in range(n.c) for t in tokens(st, Subst({x.k: Lin(j)})(x.alts[0][1]))]
        return [("rep", x)]
    if st.facts.settle(le(x.len, Lin(0))) is True:
        return []
    return [("text", x)]


def at_pos(st, rep, pos):
    """the pieces a comprehension may produce at a position -> [(state, tokens)]"""
    sb = Subst({rep.k: pos})
    out = []
    for g, piece in rep.alts:
        f = st.fork()
        for x in g:
            f.facts.assume(sb(x))
        if f.facts.bad or f.facts.refuted():
            continue
        out += unroll(f, tokens(f, sb(piece)))
    return out


def unroll(f, ts, depth=0):
    """an inner loop over the three corners of a triangle"""
    for i, t in enumerate(ts):
        if not (isinstance(t, tuple) and t[0] == "rep"):
            continue
        g = f.fork()
        g.facts.assume(eq(t[1].count, Lin(3)))
        if f.facts.decide(lt(t[1].count, Lin(3))) is True:
            return []  # fewer than three corners are left at the end of the list: not a triangle
        if g.facts.bad or g.facts.refuted() or depth > 3:
            return [(f, ts)]
        cur = [(g, [])]
        for j in range(3):
            cur = [(s2, a + b) for s1, a in cur for s2, b in at_pos(s1, t[1], Lin(j))]
        return [x for s1, mid in cur for x in unroll(s1, ts[:i] + mid + ts[i + 1:], depth + 1)]
    return [(f, ts)]


def cut(ts):
    """complete lines of a token list, or None"""
    if ts and ts[-1] != 10:
        return None
    out, cur = [], []
    for t in ts:
        if t == 10:
            out.append(cur)
            cur = []
        elif isinstance(t, tuple) and t[0] == "rep":
            return None
        else:
            cur.append(t)
    return out


def many(st, rep):
    """-> [(state, position, number of positions, lines)] for the lines of a comprehension, or None"""
    for per in (1, 3):
        t = mk(("line", rep.k), "i", 0, 1 << 60)
        f = st.fork()
        f.facts.assume(le(L(t).scale(per) + per, rep.count))
        if f.facts.bad or f.facts.refuted():
            return []
        cur = [(f, [])]
        for j in range(per):
            cur = [(f3, ts + us) for f2, ts in cur for f3, us in at_pos(f2, rep, L(t).scale(per) + j)]
        ls = [(f2, L(t), per, cut(ts)) for f2, ts in cur]
        if all(x[3] is not None for x in ls) and (per == 3 or all(x[3] for x in ls) or not any(x[3] for x in ls) or True):
            return ls
    return None


def broken(st, rep):
    """the complete lines inside six consecutive pieces -> [(state, lines)]"""
    t = mk(("line", rep.k), "i", 0, 1 << 60)
    f = st.fork()
    f.facts.assume(le(L(t).scale(6) + 6, rep.count))
    if f.facts.bad or f.facts.refuted():
        return []
    cur = [(f, [])]
    for j in range(6):
        cur = [(f3, ts + us) for f2, ts in cur for f3, us in at_pos(f2, rep, L(t).scale(6) + j)]
        if len(cur) > 64:
            return []
    out = []
    for f2, ts in cur:
        at = [i for i, x in enumerate(ts) if x == 10]
        if len(at) >= 2 and not any(isinstance(x, tuple) and x[0] == "rep" for x in ts):
            out.append((f2, cut(ts[at[0] + 1:at[-1] + 1])))
    return out


def lines_of(st, text):
    """items: ("line", tokens) | ("many", rep, [(state, t, per, lines)]); raises Undecided"""
    cur = []
    for t in tokens(st, text):
        if t == 10:
            yield "line", cur
            cur = []
        elif isinstance(t, tuple) and t[0] == "rep":
            if cur:
                raise Undecided("a line made of a varying number of parts")
            ls = many(st, t[1])
            if ls is None:
                yield "broken", broken(st, t[1])
                raise Undecided("a repetition that does not consist of lines")
            yield "many", (t[1], ls)
        else:
            cur.append(t)
    if cur:
        yield "line", cur


def words(ts):
    out, cur = [], []
    for t in ts:
        if t in (32, 9, 13):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def word(ts):
    return "".join(chr(t) if isinstance(t, int) else "?" for t in ts)


def shows(ts):
    """the value a word displays"""
    if len(ts) == 1 and isinstance(ts[0], tuple) and ts[0][0] == "disp":
        return ts[0][1]
    return None


def slots(ts):
    out = [[]]
    for t in ts:
        if t == 47:
            out.append([])
        else:
            out[-1].append(t)
    return out


class Judge:
    def __init__(self, o, w, datas, index, lines, where):
        self.o, self.w, self.datas, self.index, self.lines, self.where = o, w, datas, index, lines, where

    def line(self, ok_, key, msg):
        if self.lines:
            self.o.require("every element is one line, in order, printed exactly", ok_, key, self.where, msg[:260])

    def idx(self, ok_, key, msg):
        if self.index:
            self.o.require("a face index is the mesh's own index plus one plus the elements written before", ok_, key, self.where, msg[:260])

    def weak(self, f):
        return f.facts.weak_path()

    def outcome(self, s, text):
        mesh = -1
        seen = {}
        for kind, x in lines_of(s, text):
            if kind == "line":
                ws = words(x)
                if not ws:
                    continue
                k = word(ws[0])
                if k == "o":
                    mesh += 1
                    nm = [t for y in ws[1:] for t in y]
                    want = tokens(s, self.datas[mesh]["name"]) if mesh < len(self.datas) else None
                    self.line(nm == want, "name", f"object {mesh} is announced with {nm!r}")
                elif k in DATA or k == "f":
                    # a line outside of any loop: a list known to be short
                    raise Undecided("a line of data outside of a loop")
                continue
            if kind == "broken":
                for f, lines in x:
                    for l in lines or ():
                        ws = words(l)
                        if any(shows(slots(y)[0]) is not None for y in ws) and word(ws[0]) not in DATA and (word(ws[0]) != "f" or len(ws) != 4):
                            self.line(None if self.weak(f) else False, "torn", f"a torn line: {l!r}")
                continue
            rep, ls = x
            for f, t, per, lines in ls:
                weak = self.weak(f)
                ks = [word(words(l)[0]) if words(l) else "" for l in lines]
                if len(lines) != 1:
                    if not lines:
                        self.line(None if weak else False, "skipped", "an iteration that writes no line")
                    else:
                        self.line(None, "several", f"several lines per element: {ks}")
                    continue
                k, ws = ks[0], words(lines[0])
                seen.setdefault((mesh, k), []).append(rep)
                if not 0 <= mesh < len(self.datas):
                    self.line(None, "object", "a line before any object")
                elif k in DATA:
                    self.data(f, mesh, k, t, rep, ws)
                elif k == "f":
                    self.face(f, mesh, t, per, rep, ws)
                else:
                    self.line(None, "keyword", f"unknown line {k}")
        for i, d in enumerate(self.datas):
            for k, a in [(k, v[0]) for k, v in DATA.items()] + [("f", "vertex_triangles")]:
                reps = list(dict.fromkeys(seen.get((i, k), ())))
                if a not in d:
                    self.line(not reps, f"{a}|absent", f"{k} lines for a mesh without {a}")
                elif len(reps) > 1:
                    self.line(None, f"{a}|once", f"{k} lines come from several loops")
                elif not reps:
                    f = s.fork()
                    f.facts.assume(le(Lin(3 if k == "f" else 1), d[a].len))
                    if not f.facts.bad and not f.facts.refuted():
                        self.line(None if self.weak(f) else False, f"{a}|missing", f"mesh {i}: no {k} lines although it has {a}")
                else:
                    n = reps[0].count
                    per = 1
                    if k == "f":
                        per = next(p for (kk, r) in [(k, reps[0])] for _, _, p, _ in many(s, r)) if many(s, reps[0]) else 3
                    want = d[a].len
                    d_ = s.facts.settle(eq(n.scale(3) if (k == "f" and per == 1) else n, want))
                    if k == "f" and per == 1 and d_ is not True:
                        # whole triangles only
                        d_ = True if s.facts.settle(le(want, n.scale(3) + 2)) is True and s.facts.settle(le(n.scale(3), want + 2)) is True else (None if d_ is None else d_)
                    self.line(d_, f"{a}|count", f"mesh {i}: {n!r} {k} lines for {want!r} entries of {a}")

    def data(self, f, mesh, k, t, rep, ws):
        a, n = DATA[k]
        d = self.datas[mesh].get(a)
        if d is None:
            return
        if len(ws) != n + 1:
            self.line(False, f"{a}|fields", f"a {k} line with {len(ws) - 1} values")
            return
        x = self.w.e.index(f, d, t)
        x = self.w.e.expand(x) if isinstance(x, Sym) else x
        for j in range(n):
            v = shows(ws[j + 1])
            if v is None:
                self.line(False if len(ws[j + 1]) == 1 and isinstance(ws[j + 1][0], tuple) and ws[j + 1][0][0] == "fmt" and ws[j + 1][0][2] else None,
                          f"{a}|{j}", f"component {j} of a {k} line is not printed in full: {ws[j + 1]!r}")
                continue
            g = same_value(f, self.w.e, v, x.fields[j])
            if g is False and self.weak(f):
                g = None
            self.line(g, f"{a}|{j}", f"component {j} of a {k} line shows {v!r} instead of {x.fields[j]!r}")

    def face(self, f, mesh, t, per, rep, ws):
        d = self.datas[mesh]
        if len(ws) != 4:
            self.line(None if self.weak(f) else False, "f|corners", f"a face line with {len(ws) - 1} corners")
            if len(ws) < 2:
                return
        for j, c in enumerate(ws[1:]):
            ss = slots(c)
            for i, (lst, dat) in enumerate(SLOTS):
                have = i < len(ss) and bool(ss[i])
                if have != (lst in d):
                    self.line(None if self.weak(f) else False, f"f|{lst}|presence",
                              f"slot {i} of a corner is {'given' if have else 'missing'} in a mesh {'with' if lst in d else 'without'} {lst}")
                    if have:
                        self.idx(None, f"{lst}|presence", "an index of a list the mesh does not have")
                    continue
                if not have:
                    continue
                v = shows(ss[i])
                if not isinstance(v, Lin):
                    self.idx(None, lst, f"index shown as {ss[i]!r}")
                    continue
                self.corner(f, mesh, lst, dat, v, L(t).scale(3) + j if per == 1 else L(t).scale(per) + j)

    def corner(self, f, mesh, lst, dat, v, pos):
        d = self.datas[mesh]
        base = Lin(1)
        for e in self.datas[:mesh]:
            if dat in e:
                base = base + e[dat].len
        own = self.w.e.index(f, d[lst], pos)
        v = f.facts.norm(v)
        if f.facts.settle(eq(v, own + base)) is True:
            self.idx(True, lst, "")
            self.line(True, lst, "")
            return
        # which list and position is it taken from?
        els = [a for a, c in v.t if a.key[0] == "el" and c == 1]
        names = {a: nm for i, e in enumerate(self.datas) for nm, s in e.items() for a in els if a.key[1] == s.base} if els else {}
        weak = self.weak(f) or any(a.weak for a in v.deps) or f.facts.lossy_for(v.deps)
        msg = f"mesh {mesh}: a face shows {v!r} where {lst} at {pos!r} gives {f.facts.norm(own + base)!r}"
        if len(els) == 1:
            rest = v - L(els[0])
            same = els[0].key[1] == own.single().key[1] if isinstance(own.single(), Atom) else False
            if same:
                g = f.facts.settle(eq(rest, base))
                if g is None and not weak and any(self.differs(f, p, q) for p, q in ((rest, base), (base, rest))):
                    g = False
                self.idx(None if weak and g is False else g, lst, msg)
                p = f.facts.settle(eq(els[0].key[2], pos))
                self.line(None if weak and p is False else p, f"f|{lst}|position", msg)
                return
            self.idx(None if weak else False, lst, msg)
            return
        self.idx(None if weak or not v.is_const() else False, lst, msg)

    def differs(self, f, p, q):
        g = f.fork()
        g.facts.assume(lt(p, q))
        return not g.facts.bad and not g.facts.refuted()


def judge(o, C, sets, index, lines, one=False):
    w, outs, datas = obj_text(C, sets, one)
    n = 0
    for s, res, out in outs:
        if res[0] != "Ok":
            continue
        if s.facts.refuted():
            continue
        n += 1
        Judge(o, w, datas, index, lines, ONE if one else OBJ).outcome(s, out)
    o.count("texts", n)
    if not n:
        o.undecided("text", "/".join("+".join(x) for x in sets), OBJ, "no successful outcome")


def sets_for(tier):
    """lists of attribute sets"""
    pts = ("vertices",)
    tri = ("vertices", "vertex_triangles")
    full = [(ALL,), (pts,), (tri,), (("vertices", "normals", "uvs"),), (("vertices", "uvs", "vertex_triangles", "uv_triangles"),),
            (("vertices", "normals", "vertex_triangles", "normal_triangles"),), ((),)]
    import itertools
    for n in range(0, 4):
        for sub in itertools.combinations(("vertices", "normals", "uvs"), n):
            full.append((sub, ALL))
            if "vertices" in sub:
                full.append((sub + ("vertex_triangles",), ALL))
    full += [(ALL, ALL), (ALL, pts, ALL), (("uvs",), ("normals",), ALL), (ALL, tri, ALL)]
    return full


def c16(tier):
    ts = []
    for sets in sets_for(tier):
        ts.append(Task(" / ".join("+".join(x) or "empty" for x in sets), judge, sets, True, False, weight=len(sets)))
    ts.append(Task("one mesh", judge, (ALL,), True, False, True))
    return ts


def c29(tier):
    ts = []
    for sets in sets_for(tier):
        ts.append(Task(" / ".join("+".join(x) or "empty" for x in sets), judge, sets, False, True, weight=len(sets)))
    ts.append(Task("one mesh", judge, (ALL,), False, True, True))
    return ts
