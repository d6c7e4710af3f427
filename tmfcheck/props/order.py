"""C11: the order of segments in the file is the order in which they reach the mesh."""
import re

from .meshlib import *
from .effects import Schedule
from . import tmfread as t

ONE_ = "TMFMesh::read_tmf_one"
LISTS = {"vertex_triangles": 2, "normal_triangles": 4, "uv_triangles": 6, "tangent_triangles": 10}
COUNTS = (2, 3, 4)
PAIR = (2, 3)


def index_body(r, n, m, ver):
    """an index list of n elements, all equal to m"""
    return r.cat(r.num(0, 1), r.num(n, 8), *([r.num(m, 8)] if ver[1] > 1 else []))


def read_all(o, w, st, data, entry, rule, key):
    out = []
    r = w.r
    src = r.slice_reader(st, data)
    for s, v in r.call(entry, [src], st):
        res = r.result(s, v)
        if s.facts.refuted():
            continue
        if res[0] != "Ok":
            o.require(rule, None if res[0] == "?" or s.facts.weak_path() else False, key, entry, f"a well formed file is refused: {res[1]}"[:160])
            continue
        out.append((s, r.place(s, "mesh.read", res[1].fields[0])))
    if not out:
        o.undecided(rule, key, entry, "no outcome")
    return out


def c11_lists(o, C, codes, entry, masks=()):
    """index segments with these codes, in this order: each list holds its own parts in file order"""
    w = World(C)
    r = w.r
    st = r.state()
    ver = (0, 2)
    segs = []
    want = {a: [] for a in LISTS}
    for i, c in enumerate(codes):
        m = L(mk(("in", f"m{i}"), "i", 0, (1 << 32) - 1))
        n = COUNTS[i % 3]
        body = index_body(r, n, m, ver)
        if c == 25:
            mask = masks[i]
            body = r.cat(r.num(mask, 1), body)
            own = [a for bit, a in ((1, "vertex_triangles"), (2, "normal_triangles"), (4, "uv_triangles")) if mask & bit]
        else:
            own = [a for a, k in LISTS.items() if k == c]
        for a in own:
            want[a] += [m] * n
        segs.append(t.seg_stream(r, c, ver, r.num(0, 1) if False else Lin(0), body))
    data = t.one_mesh(r, ver, segs)
    rule = "segments are applied in file order"
    key = "+".join(map(str, codes))
    for s, m in read_all(o, w, st, data, entry, rule, key):
        for a in LISTS:
            x = w.get1(s, m, a)
            if not want[a]:
                o.require(rule, x is None, f"{key}|{a}", entry, f"segments {key}: {a} is made up")
                continue
            if x is None:
                o.fail(rule, f"{key}|{a}", entry, f"segments {key}: {a} is lost")
                continue
            d = s.facts.settle(eq(x.len, Lin(len(want[a]))))
            if d is not True:
                o.require(rule, d, f"{key}|{a}", entry, f"segments {key}: {a} has {x.len!r} elements instead of {len(want[a])}"[:200])
                continue
            for k, v in enumerate(want[a]):
                y = w.e.index(s, x, Lin(k))
                # the minima are independent inputs: a different term is a different value
                ok = True if y == v else None if weak_in(y) else s.facts.settle(eq(y, v)) if isinstance(y, Lin) else None
                if ok is None and isinstance(y, Lin) and not weak_in(y):
                    ok = False
                o.require(rule, ok, f"{key}|{a}|{k}", entry, f"segments {key}: element {k} of {a} is {y!r} instead of {v!r}"[:240])


MARKS = (4095.0, 8191.0)


def marks_in(x):
    """which of the divisors a value is computed with"""
    return {p for a in term_deps(x) for p in a.key if isinstance(p, float) and p in MARKS}


def c11_data(o, C, code, entry):
    """two segments of one data attribute: where does every element come from?"""
    w = World(C, cap=1200)
    r = w.r
    st = r.state()
    ver = (0, 2)
    attr = next(a for a, c in ATTRS.items() if c == code)
    segs = []
    want = []
    for i, n in enumerate(PAIR if code in (1, 5) else (1, 1)):
        blob = r.blob(f"body{i}", L(mk(("in", f"body{i}.len"), "i", 64, 4096)))
        # fixed precisions, one per segment: the divisor tells where a value comes from
        bits = r.num(12 + i, 1)
        head = {1: [r.num(n, 8), r.blob(f"body{i}p", Lin(48)), bits, bits, bits], 5: [bits, r.num(n, 8)]}.get(code) or [r.num(n, 8), bits]
        segs.append(t.seg_stream(r, code, ver, Lin(0), r.cat(*head, blob)))
        want += [float((1 << (12 + i)) - 1)] * n
    data = t.one_mesh(r, ver, segs)
    rule = "elements keep the order of their segments"
    key = attr
    src = r.slice_reader(st, data)
    n = 0
    for s, v in r.call(entry, [src], st):
        res = r.result(s, v)
        if res[0] != "Ok" or s.facts.refuted():
            continue
        m = r.place(s, "mesh.read", res[1].fields[0])
        for s, x in w.get(s, m, attr):
            if s.facts.refuted():
                continue
            n += c11_elements(o, w, s, x, attr, key, rule, want, entry)
    if not n:
        o.undecided(rule, f"{key}|never", entry, "never accepted")


def c11_elements(o, w, s, x, attr, key, rule, want, entry):
    if x is None:
        o.require(rule, None if s.facts.weak_path() else False, f"{key}|lost", entry, f"{attr}: two segments are read and nothing is stored")
        return 1
    if True:
        d = s.facts.settle(eq(x.len, Lin(len(want))))
        if d is not True:
            o.require(rule, d, f"{key}|len", entry, f"{attr}: {x.len!r} elements instead of {len(want)}"[:160])
            return 1
        for k, b in enumerate(want):
            y = w.e.index(s, x, Lin(k))
            got = marks_in(y)
            if got == {b}:
                o.good(rule)
            elif not got or weak_in(y):
                o.undecided(rule, f"{key}|{k}", entry, f"{attr}: origin of element {k} not decided: {y!r}"[:200])
            else:
                o.fail(rule, f"{key}|{k}", entry, f"{attr}: element {k} has the precision of another segment: {sorted(got)} instead of {b}")
    return 1


def c11_sched(o, C):
    """no value that depends on the order in which tasks finish reaches a result"""
    tn = Schedule(C)
    rule = "completion order never reaches a result"
    for r in C.roots:
        if not r["exported"] or not C.insts[r["inst"]] or not C.insts[r["inst"]].get("body"):
            continue
        n = C.insts[r["inst"]]["body"]["argc"]
        ret, outs = tn.summary(r["inst"], (0,) * n)
        if ret or any(outs):
            src = sorted({f"{C.insts[i]['path']} at {'%s:%s' % l[:2] if len(l) > 1 else '?'}" for i, l in tn.sources})
            o.fail(rule, r["path"], r["path"], "the result depends on the order in which concurrent tasks finish: " + ", ".join(src)[:300])
        else:
            o.good(rule)
    o.count("functions analysed for completion order", len({k[0] for k in tn.memo}))


SHARED = re.compile(r"\b(Mutex|RwLock|RefCell|Cell|UnsafeCell|Atomic\w*|Sender|Receiver|OnceCell)\b")


def c11_isolated(o, C):
    """futures that run concurrently capture nothing they could write to in common"""
    rule = "concurrent tasks share no mutable state"
    n = 0
    for i, x in enumerate(C.insts):
        if not x or not x.get("body") or not x.get("local"):
            continue
        for blk in x["body"]["blocks"]:
            tm = blk["t"]
            if tm["k"] != "call" or "path" not in tm["f"]:
                continue
            p = tm["f"]["path"]
            if not (p.startswith(("tokio::task::spawn", "futures_util::future::join", "futures_util::future::try_join", "tokio::task::join_set"))):
                continue
            todo = [a for a in (tm["f"].get("args") or []) if isinstance(a, int)] + list(tm.get("at") or [])
            seen = set()
            while todo:
                ty = todo.pop()
                if ty in seen:
                    continue
                seen.add(ty)
                k = C.types[ty]
                if k["k"] in ("closure", "coroutine"):
                    n += 1
                    for u in k.get("upvars") or []:
                        todo += contents(C, u, tm, x, o, rule)
                elif k["k"] == "adt":
                    todo += [a for a in C.args(k)]
                elif k["k"] in ("ref", "ptr"):
                    todo.append(k["to"])
                elif k["k"] in ("array", "slice"):
                    todo.append(k["of"])
                elif k["k"] == "tuple":
                    todo += [a for a in k["of"] if isinstance(a, int)]
    o.count("captured environments of concurrent tasks", n)


def contents(C, u, tm, x, o, rule):
    k = C.types[u]
    txt = C.txt(u)
    if (k["k"] == "ref" and k["mut"]) or SHARED.search(txt):
        o.fail(rule, f"{txt}|{x['path']}", where(x["path"], tm.get("l")), f"tasks that run concurrently capture {txt}")
    else:
        o.good(rule)
    return [u] if k["k"] in ("closure", "coroutine") else []


def c11_custom(o, C):
    """custom data of one name: the first segment of the file is the one found"""
    w = World(C)
    r = w.r
    sts, mref, d = None, None, None
    st, m = w.start()
    mref = r.place(st, "mesh", m)
    name = r.lit("abc")
    vals = []
    sts = [st]
    for i in (0, 1):
        nxt = []
        for st in sts:
            vs, data = w.custom(st, "index", str(i), lo=2 + i, hi=2 + i)
            for s, v in vs:
                for s2, rn in w.add_custom(s, mref, v, name):
                    if rn == "Ok":
                        nxt.append(s2)
        vals.append(data)
        sts = nxt
    rule = "segments are written in the order of the mesh"
    n = 0
    for st in sts:
        for s, res, data in w.write_one(st, mref, r.lit("mesh")):
            if res[0] != "Ok":
                continue
            for s2, r2, m2, rest in w.read_one(s, data):
                if r2[0] != "Ok":
                    continue
                for s3, x in w.lookup(s2, m2, name):
                    n += 1
                    if s3.facts.refuted():
                        continue
                    if x is None or x == "?":
                        o.require(rule, None if x == "?" else False, "custom", ONE_, "custom data is lost")
                        continue
                    q = x.fields[0]
                    while isinstance(q, Ref):
                        q = w.e.deref(s3, q)
                    ln = getattr(q, "len", None)
                    o.require(rule, s3.facts.settle(eq(ln, vals[0].len)) if ln is not None else None, "custom", ONE_,
                              "two custom data segments of one name change places")
    if not n:
        o.undecided(rule, "custom", ONE_, "no outcome")


def c11(tier):
    ts = [Task("schedule", c11_sched), Task("isolation", c11_isolated), Task("custom order", c11_custom)]
    orders = [(2, 2, 2), (4, 4, 4), (6, 6, 6), (10, 10, 10), (2, 4, 2), (6, 2, 6), (4, 10, 4), (10, 6, 10)]
    for e in (ONE_, t.ONE_ASYNC):
        for cs in orders if e == ONE_ or tier != "quick" else orders[:4]:
            ts.append(Task(f"{cs} {e}", c11_lists, cs, e, weight=2))
        ts.append(Task(f"shared {e}", c11_lists, (25, 2, 25), e, (7, 0, 1), weight=2))
        ts.append(Task(f"shared2 {e}", c11_lists, (4, 25, 6), e, (0, 6, 0), weight=2))
        for c in (1, 3, 5, 9):
            ts.append(Task(f"data {c} {e}", c11_data, c, e, weight=4))
    return ts


TECH = {"C11": "taint analysis of task completion order, capture analysis of concurrent tasks, and abstract interpretation of multi-segment files"}
EXPLAIN = {"C11": "values depending on the order in which futures finish are traced to the results; environments captured by concurrent tasks are checked for shared mutable state; "
                  "files with several segments of one attribute are read abstractly and every element is traced to its segment"}
ASSUME = {"C11": ["join_all returns results in the order of its input and tokio::task::spawn returns the value of its future"]}
