"""C12: every unchecked memory operation reachable from the public API is found and discharged."""
from ..base import *
from . import tmfread as t
from .effects import Graph

# unsafe operations the compiler's own desugarings introduce
DESUGAR = ("core::fmt::Arguments::", "core::pin::Pin::<Ptr>::new_unchecked", "core::future::get_context",
           "alloc::boxed::box_assume_init_into_vec_unsafe", "core::fmt::rt::")
SET_LEN = "alloc::vec::Vec::<T, A>::set_len"


def reachable(C):
    g = Graph(C)
    parent = {}
    todo = []
    for r in C.roots:
        if r["exported"] and r["inst"] not in parent:
            parent[r["inst"]] = None
            todo.append(r["inst"])
    while todo:
        i = todo.pop()
        if not C.insts[i]:
            continue
        for inst, f, loc in g.out(i):
            if inst is not None and inst not in parent:
                parent[inst] = i
                todo.append(inst)
    return parent


def places(o):
    if isinstance(o, list):
        if len(o) > 1 and isinstance(o[0], int) and not isinstance(o[0], bool) and all(isinstance(e, list) for e in o[1:]):
            yield o
        for v in o:
            yield from places(v)
    elif isinstance(o, dict):
        for v in o.values():
            yield from places(v)


def size_of(C, t):
    return C.types[t].get("size")


def in_bounds(C, body, l, depth=0):
    """the raw pointer local l is a cast of a reference to a live local of at least the pointee's size"""
    if depth > 8:
        return None
    want = size_of(C, C.types[body.locals[l]]["to"])
    for b in body.rpo:
        for s in body.blocks[b].s:
            if s[0] == "=" and s[1] == [l]:
                rv = s[2]
                src = l
                for _ in range(6):
                    p = None
                    if rv[0] == "use":
                        p = rv[1].get("cp") or rv[1].get("mv")
                    elif rv[0] == "cast":
                        p = rv[2].get("cp") or rv[2].get("mv")
                    elif rv[0] in ("ref", "rawptr"):
                        base = rv[2]
                        if len(base) == 1:
                            have = size_of(C, body.locals[base[0]])
                            return want is not None and have is not None and want <= have
                        if base[1][0] == "*" and len(base) == 2:
                            p = [base[0]]
                    if not p or len(p) != 1:
                        return None
                    src = p[0]
                    n = None
                    for b2 in body.rpo:
                        for s2 in body.blocks[b2].s:
                            if s2[0] == "=" and s2[1] == [src]:
                                n = s2[2]
                    if n is None:
                        return None
                    rv = n
    return None


def inventory(o, C):
    reach = reachable(C)
    rule = "unchecked memory operations are accounted for"
    n = 0
    for i in sorted(reach):
        x = C.insts[i]
        if not x or not x.get("body") or not x.get("local"):
            continue
        n += 1
        body = C.body(i)
        for blk in body.blocks:
            tm = blk.t
            if tm["k"] == "call" and tm["f"].get("unsafe"):
                p = tm["f"]["path"]
                if p.startswith(DESUGAR):
                    continue
                if p == SET_LEN:
                    o.good(rule)         # discharged by the abstract runs below
                    continue
                o.fail(rule, f"{p}|{x['path']}", where(x["path"], tm.get("l")),
                       f"{p} is reachable from the public API and nothing bounds its arguments")
            for s in list(blk.s) + [tm]:
                for pl in places(s):
                    l = pl[0]
                    if l >= len(body.locals) or not isinstance(body.locals[l], int):
                        continue
                    if pl[1][0] != "*" or C.types[body.locals[l]]["k"] != "ptr":
                        continue
                    loc = s[-1] if isinstance(s, list) else s.get("l")
                    ok = in_bounds(C, body, l)
                    if ok:
                        o.good(rule)
                    else:
                        o.fail(rule, f"raw pointer|{x['path']}", where(x["path"], loc),
                               "a raw pointer is dereferenced and " + ("reads more bytes than the object has" if ok is False else "nothing shows that it is valid"))
    o.count("functions scanned", n)


def exposed(o, r):
    rule = "elements made visible by set_len are written"
    for kind, fn, loc, chain, data, facts, ctx in r.e.events:
        if kind == "assume_init":
            from ..values import UNINIT
            if data[0] is UNINIT:
                o.fail(rule, f"assume_init|{fn}", where(fn, loc), "assume_init on a value that is not written")
            else:
                o.good(rule)
        if kind != "set_len":
            continue
        if data[0] in ("ok", "shrink") or facts.refuted():
            o.good(rule)
            continue
        goals = data[2]
        strong = goals is not None
        for g in goals or ():
            if any(a.weak for a in g.deps) or facts.weak_path(g.deps):
                strong = False
        if strong:
            o.fail(rule, f"set_len|{fn}", where(fn, loc), str(data[1])[:220])
        else:
            o.undecided(rule, f"set_len|{fn}", where(fn, loc), str(data[1])[:220])


def c12_segment(o, C, code, ver):
    r = Run(C)
    st = r.state()
    body = t.body_blob(r)
    data = t.one_mesh(r, ver, [t.seg_stream(r, code, ver, r.sym("comp", 1), body)])
    t.read_one(r, st, data)
    exposed(o, r)


def c12_entry(o, C, path):
    r = Run(C)
    i = r.inst(path)
    if i is None:
        return
    r.e.analyse(i, st=r.state())
    exposed(o, r)


def c12(tier):
    ts = [Task("inventory", inventory)]
    for ver in t.VERS:
        for c in t.CODES:
            ts.append(Task(f"segment {c} v{ver[0]}.{ver[1]}", c12_segment, c, ver))
    for p in ("TMFMesh::read_tmf", t.ONE_ASYNC):
        ts.append(Task(p, c12_entry, p, weight=9))
    return ts


TECH = {"C12": "inventory of unchecked operations over the call graph, and abstract interpretation with an initialised-elements domain"}
EXPLAIN = {"C12": "every unsafe call and raw pointer access in functions reachable from the public API is enumerated; set_len is decided by tracking which elements of the spare capacity are written on every path, raw reads by comparing object sizes"}
ASSUME = {"C12": ["unsafe code inside the standard library and dependencies is sound when used through safe interfaces"]}
