"""C15: reordering and unifying keep data and index lists paired, decided by label dependencies."""
from ..base import *
from ..interp import UNMODELLED
from ..bits import Agg, Arr, Ref, State, NONE, Unsupported, some
from ..labels import Labels, Lab, Coll, labels, LOSSY

ATTRS = [("vertices", "vertex_triangles"), ("normals", "normal_triangles"), ("uvs", "uv_triangles"), ("tangents", "tangent_triangles")]
SELF = Ref((-1, 0, ()))
TOGETHER = "data and index list are replaced together"
OWN = "new data and indices are made from the attribute's own"
ONLY = "nothing else flows into the new data and indices"
REST = "what is not processed stays as it was"


def mesh_fields(C):
    for i, x in enumerate(C.insts):
        if x and x["path"] == "TMFMesh::reorder_data" or x and x["path"] == "TMFMesh::unify_index_data":
            b = C.body(i)
            t = C.types[b.locals[1]]
            return [f["name"] for f in C.types[t["to"]]["variants"][0]["fields"]]
    raise Unsupported("TMFMesh")


def named(C, path):
    for i, x in enumerate(C.insts):
        if x and x["path"] == path and x.get("body"):
            return i
    raise Unsupported("no function " + path)


def start(fields, present):
    v = []
    for f in fields:
        tok = Coll((Lab((f,)), f))
        if any(f in p for p in ATTRS):
            v.append(some(tok) if f in present else NONE)
        else:
            v.append(tok)
    return Agg((0,) + tuple(v))


def t_pairs(o, C, fn, part, parts):
    try:
        fields = mesh_fields(C)
        i = named(C, "TMFMesh::" + fn)
        flat = [f for p in ATTRS for f in p]
        for f in flat:
            if f not in fields:
                raise Unsupported("no field " + f)
        used = set()
        for mask in range(part, 256, parts):
            one(o, C, fn, i, fields, {f for k, f in enumerate(flat) if mask >> k & 1}, used)
            if len(o.bad) > 60:
                break
        for p in used:
            o.count("function: " + p)
    except Unsupported as ex:
        UNMODELLED.add(str(ex)) if hasattr(UNMODELLED, "add") else UNMODELLED.__setitem__(str(ex), 1)
        o.undecided("analysis", fn, fn, f"analysis gave up: {ex}")


def one(o, C, fn, i, fields, present, used):
    m = Labels(C)
    st = State()
    before = start(fields, present)
    st.mem[-1] = [before]
    outs = m.call(i, [SELF], st)
    used |= m.used
    where = "TMFMesh::" + fn
    desc = "mesh with " + (", ".join(sorted(present)) or "no attribute")
    o.count("outcomes", len(outs))
    lists = {l for _, l in ATTRS}
    done = [x for x in outs if not x.panic]
    if not done:
        o.undecided(ONLY, fn + "|none", where, desc + ": no path returns")
        return
    union = {}
    imprecise = False
    for out in done:
        after = out.state.mem[-1][0]
        if not isinstance(after, Agg) or len(after) != len(before):
            raise Unsupported("the mesh after " + fn)
        now = dict(zip(fields, after[1:]))
        was = dict(zip(fields, before[1:]))
        lossy = LOSSY in labels(after)
        imprecise |= lossy

        def say(rule, good, key, msg):
            o.require(rule, True if good else None if lossy else False, f"{fn}|{key}", where, f"{desc}: {msg}")
        changed = {f for f in fields if now[f] != was[f]}
        for f in fields:
            if not any(f in p for p in ATTRS):
                say(REST, f not in changed, f, f"{f} changes")
        for d, l in ATTRS:
            if d not in present or l not in present:
                for f in (d, l):
                    say(REST, f not in changed, f, f"{f} changes although the attribute is not there with both data and indices")
                continue
            gone = [f for f in (d, l) if not isinstance(now[f], Agg) or now[f][0] == 0]
            say(REST, not gone, d + "|gone", f"{' and '.join(gone)} may be dropped")
            if gone:
                continue
            say(TOGETHER, (d in changed) == (l in changed), d, f"{d} {'is' if d in changed else 'is not'} replaced while {l} {'is' if l in changed else 'is not'}")
            if d not in changed or l not in changed:
                continue
            allowed = {d} | ({l} if fn == "reorder_data" else lists)
            extra = labels(now[d]) - allowed - {LOSSY}
            say(ONLY, not extra, d + "|from", f"{d} is made from {', '.join(sorted(extra))}")
            extra = labels(now[l]) - ({l} if fn == "reorder_data" else lists) - {LOSSY}
            say(ONLY, not extra, l + "|from", f"{l} is made from {', '.join(sorted(extra))}")
            a, b = union.setdefault((tuple(sorted(changed)), d, l), (set(), set()))
            a |= labels(now[d])
            b |= labels(now[l])
    # among the paths that replace the same arrays: some carry no element at all, so the flow is asked of all together
    for (_, d, l), (a, b) in union.items():
        for what, got, want in ((d, a, (d, l)), (l, b, (l,))):
            for w in want:
                good = w in got
                o.require(OWN, True if good else None if imprecise else False, f"{fn}|{what}|{w}", where, f"{desc}: {what} is made without {w}")


def c15(tier):
    out = []
    for fn in ("reorder_data", "unify_index_data"):
        n = 1 if fn == "reorder_data" else 6
        out += [Task(f"{fn} {k}", t_pairs, fn, k, n, weight=3) for k in range(n)]
    return out


LEVEL = {}
TECH = {"C15": "label-dependency dataflow analysis (which mesh arrays each value was made from) over the compiler's MIR, for every combination of present arrays"}
EXPLAIN = {"C15": "reorder_data and unify_index_data are analysed for all 256 combinations of present data arrays and index lists; on every path the replaced arrays "
                  "must be paired and made from the attribute's own data and the index lists"}
ASSUME = {"C15": ["values are followed, neither conditions nor lengths of collections are",
                  "the models of the standard library functions used by the two operations are faithful"]}
