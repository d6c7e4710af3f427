"""Properties of the in-memory mesh: accessors, index expansion, custom data names."""
from .meshlib import *
import math
import random
from .. import feval
from ..models import seq_eq


def slice_inst(w, path):
    """the instance of a generic setter for a slice, else the first one with a body"""
    return w.find(path, lambda a: "&[" in a)


def symbolic_mesh(w):
    """a mesh about which nothing is known, and an untouched copy of it"""
    st, m = w.start()
    m = w.e.symval(w.meshty, ("in", "mesh"))
    a = w.r.place(st, "mesh", m)
    b = w.r.place(st, "before", m)
    return st, a, b


def compare(o, w, st, before, after, attr, rule, key, fn):
    """attr of both meshes is the same"""
    for s, x in w.get(st, before, attr):
        for s2, y in w.get(s, after, attr):
            if s2.facts.refuted():
                continue
            if (x is None) != (y is None):
                o.fail(rule, key + "|" + attr, fn, f"{key} {'adds' if x is None else 'removes'} {attr}")
            elif x is None:
                o.good(rule)
            else:
                g, why = same_elements(s2, w.e, y, x)
                o.require(rule, g, key + "|" + attr, fn, f"{key} changes {attr}: {why}")


# ------------------------------------------------------------------ C13
def stored(o, w, st, mref, attr, want, rule, key, fn):
    for s, y in w.get(st, mref, attr):
        if s.facts.refuted():
            continue
        if y is None:
            o.fail(rule, key, fn, f"{key}: {attr} is absent afterwards")
            continue
        g, why = same_elements(s, w.e, y, want)
        o.require(rule, g, key, fn, f"{key}: {attr}: {why}")


def c13_set(o, C, attr):
    w = World(C)
    st, m, before = symbolic_mesh(w)
    fn = "TMFMesh::set_" + attr
    data = w.attr_data(attr, "new")
    n = 0
    for s0, old in w.get(st, before, attr):
        arg = w.slice_of(s0, "newdata", data)
        for s, v in w.e.analyse(slice_inst(w, fn), args=[m, arg], st=s0):
            n += 1
            prev = w.opt_seq(s, v)
            rule = "setting returns the previous data"
            if (prev is None) != (old is None):
                if not s.facts.refuted():
                    o.fail(rule, fn, fn, f"{fn} returns {'nothing' if prev is None else 'something'} although there was {'nothing' if old is None else 'something'}")
            elif prev is not None:
                g, why = same_elements(s, w.e, prev, old)
                o.require(rule, g, fn, fn, f"{fn}: returned data: {why}")
            else:
                o.good(rule)
            stored(o, w, s, m, attr, data, "setting stores exactly the given data", fn, fn)
            for b in ATTRS:
                if b != attr:
                    compare(o, w, s, before, m, b, "setting changes nothing else", fn, fn)
    if not n:
        o.undecided("setting stores exactly the given data", fn, fn, "no outcome")


def c13_append(o, C, attr):
    w = World(C)
    st, m, before = symbolic_mesh(w)
    fn = "TMFMesh::append_" + attr
    data = w.attr_data(attr, "new")
    for s0, old in w.get(st, before, attr):
        arg = w.slice_of(s0, "newdata", data)
        for s, v in w.r.call(fn, [m, arg], s0):
            want = data if old is None else mk_cat(data.elem, [old, data])
            stored(o, w, s, m, attr, want, "appending adds after the existing data", fn, fn)
            for b in ATTRS:
                if b != attr:
                    compare(o, w, s, before, m, b, "appending changes nothing else", fn, fn)


def c13_full(o, C, attr, op, present):
    """a mesh with two kinds of custom data keeps them, whatever is set or appended"""
    w = World(C)
    st, m = w.start()
    m = w.r.place(st, "mesh", m)
    d = {}
    for a in ATTRS:
        if present:
            d[a] = w.attr_data(a)
            st = w.append(st, m, a, d[a])
    sts, dd = [st], {}
    for k in CUSTOM:
        nxt = []
        for st in sts:
            outs, dd[k] = w.custom(st, k)
            for s2, v in outs:
                nxt += [s for s, n in w.add_custom(s2, m, v, w.r.lit("my " + k)) if n == "Ok"]
        sts = nxt
    fn = f"TMFMesh::{op}_{attr}"
    data = w.attr_data(attr, "new")
    rule = "custom data stays"
    for st in sts:
        arg = w.slice_of(st, "newdata", data)
        i = slice_inst(w, fn) if op == "set" else w.r.inst(fn)
        for s, v in w.e.analyse(i, args=[m, arg], st=st):
            for k in CUSTOM:
                for s2, x in w.lookup(s, m, w.r.lit("my " + k)):
                    if s2.facts.refuted():
                        continue
                    if x is None:
                        o.fail(rule, fn + "|" + k, fn, f"{fn}: custom {k} data is lost")
                    elif x == "?":
                        o.undecided(rule, fn + "|" + k, fn, "lookup not decided")
                    else:
                        g, why = same_elements(s2, w.e, payload(w, s2, x), dd[k])
                        o.require(rule, g, fn + "|" + k, fn, f"{fn}: custom {k} data: {why}")
            for b in ATTRS:
                if b != attr:
                    y = w.get1(s, m, b)
                    if (y is not None) != present:
                        o.fail(rule, fn + "|" + b, fn, f"{fn} {'removes' if present else 'adds'} {b}")
                    elif present:
                        g, why = same_elements(s, w.e, y, d[b])
                        o.require("changes nothing else", g, fn + "|" + b, fn, f"{fn}: {b}: {why}")


def payload(w, st, v):
    x = v.fields[0]
    while isinstance(x, Ref):
        x = w.e.deref(st, x)
    return x


def c13_custom(o, C):
    """adding custom data leaves all attributes alone"""
    w = World(C)
    st, m, before = symbolic_mesh(w)
    fn = "TMFMesh::add_custom_data"
    for k in CUSTOM:
        outs, _ = w.custom(st.fork(), k)
        for s, v in outs:
            for s2, n in w.add_custom(s, m, v, w.r.lit("name")):
                for a in ATTRS:
                    compare(o, w, s2, before, m, a, "adding custom data changes no attribute", fn, fn)


def c13_empty(o, C):
    w = World(C)
    st, m = w.start()
    m = w.r.place(st, "mesh", m)
    for a in ATTRS:
        o.require("an empty mesh has no attribute", w.get1(st, m, a) is None, a, "TMFMesh::empty", f"an empty mesh has {a}")


def c13(tier):
    ts = [Task("empty mesh", c13_empty), Task("adding custom data", c13_custom)]
    for a in ATTRS:
        ts.append(Task("setting " + a, c13_set, a))
        ts.append(Task("appending " + a, c13_append, a))
        for op in ("set", "append"):
            for p in (True, False):
                ts.append(Task(f"{op} {a}, others {'present' if p else 'absent'}", c13_full, a, op, p))
    return ts


# ------------------------------------------------------------------ C20
BUFFERS = {"vertex": ("vertices", "vertex_triangles"), "normal": ("normals", "normal_triangles"), "uv": ("uvs", "uv_triangles")}


def c20_buffer(o, C, kind):
    data, idx = BUFFERS[kind]
    fn = f"TMFMesh::get_{kind}_buffer"
    w = World(C)
    st, m, before = symbolic_mesh(w)
    rule = "an expanded buffer is one element per index"
    nsome = nnone = 0
    for s0, d in w.get(st, m, data):
        for s1, t in w.get(s0, m, idx):
            for s, v in w.r.call(fn, [m], s1):
                if s.facts.refuted():
                    continue
                x = w.opt_seq(s, v)
                if d is None or t is None:
                    o.require("nothing is expanded from nothing", x is None, kind + "|absent", fn, f"{fn} returns a buffer although {data if d is None else idx} are absent")
                    continue
                if x is None:
                    nnone += 1
                    f = s.fork()
                    forall_below(w, f, t, d.len)
                    o.require("nothing is returned only when an index is out of range", True if f.facts.refuted() else (None if s.facts.weak_path() else False),
                              kind + "|none", fn, f"{fn} returns nothing although every index is in range")
                    continue
                nsome += 1
                dd = length_is(s, x, t.len)
                o.require(rule, dd, kind + "|len", fn, f"{fn}: {x.len!r} elements for {t.len!r} indices"[:200])
                if dd is not True:
                    continue
                for f, p, y, _ in cells(s, w.e, x):
                    i = w.e.index(f, t, p)
                    c = f.facts.settle(lt(i, d.len))
                    o.require("no index is out of range when a buffer is returned", c if c is not False or not f.facts.lossy else None, kind + "|range", fn,
                              f"{fn}: index {i!r} is not below {d.len!r}"[:200])
                    z = w.e.index(f, d, i)
                    g = same_value(f, w.e, y, z)
                    o.require(rule, g, kind + "|value", fn, f"{fn}: element {y!r} instead of {z!r}"[:260])
    panic_obligations(o, w.r, "no panic while expanding")
    o.require(rule, True if nsome else None, kind + "|some", fn, "never returns a buffer")


def forall_below(w, st, seq, bound):
    """assume every element of seq is below bound"""
    bv = mk(("all", seq), "i", 0, 1 << 62)
    el = w.e.index(st, seq, L(bv))
    st.facts.foralls = st.facts.foralls + (w.e.Forall(bv, Lin(0), seq.len, ((lt(el, bound),),), {seq.base: Lin(0)}),)
    for x in list(st.facts.ineqs):
        for a in x.deps:
            if a.key[0] == "el" and a.key[1] == seq.base:
                w.e.index(st, seq, a.key[2])


def c20(tier):
    return [Task(f"{k} buffer", c20_buffer, k) for k in BUFFERS]


# ------------------------------------------------------------------ C23
NAME255 = 255


def c23_accept(o, C):
    """which names are accepted"""
    w = World(C)
    r = w.r
    st, m = w.start()
    m = r.place(st, "mesh", m)
    name = r.text("name", L(mk(("in", "name.len"), "i", 0, 1 << 40)))
    fn = "TMFMesh::add_custom_data"
    inr = band(le(Lin(1), name.len), le(name.len, Lin(NAME255)))
    for k in CUSTOM:
        outs, _ = w.custom(st.fork(), k)
        for s, v in outs:
            for s2, n in w.add_custom(s, m, v, name):
                if s2.facts.refuted():
                    continue
                d = s2.facts.settle(inr)
                if n == "Ok":
                    o.require("only names of 1 to 255 bytes are accepted", d if d else (None if s2.facts.weak_path() else False), k + "|accept", fn,
                              f"custom {k} data is accepted under a name of a length outside of 1..=255")
                elif n == "Err":
                    o.require("names of 1 to 255 bytes are accepted", True if d is False else (None if s2.facts.weak_path() else False), k + "|refuse", fn,
                              f"custom {k} data is refused under a name of a length within 1..=255")
                else:
                    o.undecided("names of 1 to 255 bytes are accepted", k, fn, "result not decided")
    panic_obligations(o, r, "no panic while adding custom data")


def add_two(o, w, kinds, n1, n2):
    st, m = w.start()
    m = w.r.place(st, "mesh", m)
    sts = [st]
    d = []
    for i, (k, nm) in enumerate(zip(kinds, (n1, n2))):
        nxt = []
        for st in sts:
            outs, x = w.custom(st, k, name=f"#{i}", lo=1 + 1000 * i, hi=999 + 1000 * i)
            for s2, v in outs:
                nxt += [s for s, n in w.add_custom(s2, m, v, nm) if n == "Ok"]
        d.append(x)
        sts = nxt
    return sts, m, d


def c23_lookup(o, C, kinds, trip):
    w = World(C, cap=200)
    r = w.r
    nm = [r.text(f"name{i}", L(mk(("in", f"name{i}.len"), "i", 1, NAME255))) for i in range(2)]
    ask = r.text("asked", L(mk(("in", "asked.len"), "i", 0, 1 << 40)))
    sts, m, d = add_two(o, w, kinds, nm[0], nm[1])
    fn = "TMFMesh::lookup_custom_data"
    key = "/".join(kinds) + ("|read back" if trip else "")
    found = set()
    if trip:
        nxt = []
        for st in sts:
            for s, res, data in w.write_one(st, m, r.lit("mesh")):
                if res[0] != "Ok":
                    continue
                for s2, r2, m2, rest in w.read_one(s, data):
                    if r2[0] == "Ok":
                        nxt.append((s2, m2))
    else:
        nxt = [(st, m) for st in sts]
    for st, mm in nxt:
        for s, v in w.lookup(st, mm, ask):
            if s.facts.refuted():
                continue
            if v == "?":
                o.undecided("lookup", key, fn, "lookup not decided")
                continue
            weak = s.facts.weak_path()
            es = [same_name(s, ask, x) for x in nm]
            if v is None:
                for i in range(2):
                    o.require("data is found under its name", True if es[i] is False else (None if weak and es[i] is not True else False), f"{key}|lost{i}", fn,
                              f"{key}: data {i} is not found although the names may be equal")
                found.add(None)
                continue
            x = payload(w, s, v)
            # the entries have arrays of different lengths
            which = [i for i in range(2) if s.facts.settle(eq(x.len, d[i].len)) is True]
            if not which:
                o.undecided("only the data of that name is found", key, fn, "found data not identified")
                continue
            i = which[0]
            found.add(i)
            o.require("only the data of that name is found", True if es[i] is True else (None if weak and es[i] is None else False), f"{key}|other{i}", fn,
                      f"{key}: data {i} is found under a name that may differ")
            if i == 1:
                o.require("the first data of a name is found", True if es[0] is False else (None if weak and es[0] is None else False), f"{key}|first", fn,
                          f"{key}: the second data is found although the first may have the same name")
    for i in (0, 1, None):
        o.require("lookup outcome seen", True if i in found else None, f"{key}|{i}", fn, f"outcome {i} never seen")


def same_name(st, a, b):
    """are two names equal under the path condition?"""
    q = seq_eq(None, st, a, b)
    for v, x in ((True, bnot(q)), (False, q)):
        f = st.fork()
        f.facts.assume(x)
        if f.facts.refuted():
            return v
    return None


def c23(tier):
    ts = [Task("accepted names", c23_accept)]
    ks = list(CUSTOM)
    prs = [(a, ks[(i + 1) % 4]) for i, a in enumerate(ks)] if tier == "quick" else [(a, b) for a in ks for b in ks]
    for p in prs:
        for t in (False, True):
            ts.append(Task(f"{p[0]}, {p[1]}{' read back' if t else ''}", c23_lookup, p, t, weight=4 if t else 2))
    return ts


# ------------------------------------------------------------------ C14
PAIRS = (("vertices", "vertex_triangles"), ("normals", "normal_triangles"), ("uvs", "uv_triangles"))
VERIFY = "TMFMesh::verify"
NAN, INF = float("nan"), float("inf")


def unit_points():
    """points around the unit sphere, at and beyond the tolerance, and the special values"""
    rnd = random.Random(5)
    dirs = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1), (-1, 1, -1), (3, 4, 0), (0, -3, 4), (0, 1, 1), (1, 0, 1)]
    dirs += [tuple(rnd.uniform(-1, 1) for _ in range(3)) for _ in range(30)]
    for d in dirs:
        n = math.sqrt(sum(x * x for x in d))
        for m in (1, 0.9995, 1.0005, 0.99905, 1.00095, 0.9989, 1.0011, 0.9985, 1.0015, 0.99, 1.01, 0.9, 1.1, 0.5, 2, 0, 1e-3, 1e3, -0.5, 1.4142, 0.7071):
            yield tuple(x / n * m for x in d)
    for s in (NAN, INF, -INF):
        for k in range(3):
            p = [0.0, 0.0, 0.0]
            p[k] = s
            yield tuple(p)
            p = [0.6, 0.8, 0.0]
            p[k] = s
            yield tuple(p)
        yield (s, s, s)


def unit_ok(p):
    m = math.sqrt(sum(x * x for x in p)) if all(abs(x) < 1e18 for x in p) else NAN
    return abs(m - 1) <= 0.001


def uv_points():
    vs = (0.0, 1.0, 0.5, 0.25, 1e-6, 0.999999, -1e-3, 1.001, -1.0, 2.0, -0.5, 1.5, 1e9, -1e9, NAN, INF, -INF, 0.01, 0.99, -0.01, 1.01)
    for a in vs:
        for b in vs:
            yield (a, b)


def uv_ok(p):
    return all(0 <= x <= 1 for x in p)


RANGES = {"normals": (unit_points, unit_ok, "a normal has a length that is not within 0.001 of one"),
          "uvs": (uv_points, uv_ok, "a UV component is not between 0 and 1")}


def guards_on(f, atoms):
    """what the path condition says about one element, and whether it says more than can be evaluated"""
    want = frozenset(atoms)
    gs = []
    for a, v in f.lits.items():
        if want & a.deps:
            gs.append(lit(a) if v else bnot(lit(a)))
    for c in f.clauses:
        if want & c.deps:
            gs.append(c)
    return gs


def sample(f, atoms, points, good):
    """(a conforming point satisfies the path condition, a non-conforming one does)"""
    gs = guards_on(f, atoms)
    yes = no = None
    for p in points():
        m = dict(zip(atoms, p))
        pt = feval.Point(1, lambda q, a: m.get(a))
        try:
            if not all(pt.holds(g) for g in gs):
                continue
        except feval.NoValue:
            return None, None, gs
        if good(p):
            yes = yes or p
        else:
            no = no or p
    return yes, no, gs


def fields_of(w, x):
    return [a for a in (w.e.expand(x).fields if isinstance(x, (Sym, Agg)) else [x])]


def c14_ok(o, w, s, m, key):
    for data, idx in PAIRS:
        for s1, d in w.get(s.fork(), m, data):
            for s2, t in w.get(s1, m, idx):
                if s2.facts.refuted():
                    continue
                rule = "a verified mesh has indices of existing elements only"
                if t is not None:
                    if d is None:
                        o.require(rule, None if s2.facts.weak_path() else False, f"{idx}|absent", VERIFY, f"verification accepts {idx} although {data} are absent")
                    else:
                        for f, p, i, _ in cells(s2, w.e, t):
                            c = f.facts.settle(lt(i, d.len))
                            if c is None:
                                c = None if f.facts.lossy or i_weak(i) else False
                            o.require(rule, c, f"{idx}|range", VERIFY, f"verification accepts {idx} that are not below the number of {data}")
                if d is not None and data in RANGES:
                    pts, good, what = RANGES[data]
                    for f, p, x, _ in cells(s2, w.e, d):
                        yes, no, gs = sample(f.facts, fields_of(w, x), pts, good)
                        if yes is None and no is None:
                            o.undecided("a verified mesh has " + data + " in range", data, VERIFY, "condition not evaluated")
                        else:
                            o.require("a verified mesh has " + data + " in range", no is None, f"{data}|range", VERIFY, f"verification accepts a mesh in which {what}: {no}")


def i_weak(x):
    return any(a.weak for a in term_deps(x))


def c14_err(o, w, s, m, key):
    """a refused mesh: assume it has no defect in its indices, then look at its floats"""
    rule = "a mesh is refused for a reason"
    sts = [s.fork()]
    for data, idx in PAIRS:
        nxt = []
        for s0 in sts:
            for s1, d in w.get(s0, m, data):
                for s2, t in w.get(s1, m, idx):
                    if t is not None and d is None:
                        continue           # really violated
                    if t is not None:
                        forall_below(w, s2, t, d.len)
                    if not s2.facts.refuted():
                        nxt.append(s2)
        sts = nxt
    if not sts:
        o.good(rule)
    for s1 in sts:
        found = None
        for data in RANGES:
            pts, good, what = RANGES[data]
            for s2, d in w.get(s1, m, data):
                if d is None:
                    continue
                deps = set().union(*[a.deps for a in s2.facts.lits], *[c.deps for c in s2.facts.clauses])
                for e in sorted((b for b in deps if b.key[0] == "el" and b.key[1] == d.base), key=lambda x: x.id):
                    yes, no, gs = sample(s2.facts, fields_of(w, w.e.index(s2, d, e.key[2])), pts, good)
                    if yes is None and no is not None:
                        found = e
        if found is not None:
            o.good(rule)
        else:
            o.require(rule, None if s1.facts.lossy or s1.facts.weak_path() else False, "refused", VERIFY,
                      f"verification refuses a mesh without a defect: {key}")


def c14_all(o, C, keep):
    """verify any mesh whose attributes other than `keep` are absent"""
    w = World(C, cap=20000, keep_foralls=True)
    st, m, _ = symbolic_mesh(w)
    sts = [st]
    for a in ATTRS:
        if a in keep:
            continue
        sts = [s for st in sts for s, x in w.get(st, m, a) if x is None]
    n = 0
    for st in sts:
        for s, v in w.r.call(VERIFY, [m], st):
            if s.facts.refuted():
                continue
            res = w.r.result(s, v)
            n += 1
            if res[0] == "Ok":
                c14_ok(o, w, s, m, "+".join(keep))
            elif res[0] == "Err":
                c14_err(o, w, s, m, "+".join(keep) + " (" + str(res[1]) + ")")
            else:
                o.undecided("a mesh is refused for a reason", "result", VERIFY, "result not decided")
    panic_obligations(o, w.r, "verification never panics")
    o.count("outcomes of verification", n)


def c14(tier):
    ts = []
    for p in PAIRS:
        ts.append(Task("+".join(p), c14_all, p))
    for i, p in enumerate(PAIRS):
        for q in PAIRS[i + 1:]:
            ts.append(Task("+".join(p + q), c14_all, p + q, weight=3))
    ts.append(Task("any mesh", c14_all, tuple(ATTRS), weight=20))
    return ts
