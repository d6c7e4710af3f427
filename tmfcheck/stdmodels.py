"""Further library transformers: the parts of std a maintainer may reach for when rewriting the code.

Same contract as models.py: the documented behaviour of the library function, or None (declined).
"""
from .terms import *
from .values import *
from .models import (model, it_method, MODELS, ITER, ITTAGS, END, SKIP, sref, dv, seqval, some, none, ok, err, err_ty,
                     ok_ty, fork_on, mk_slice2, mk_cat, make_iter, it_of, iter_next, it_skip, it_reverse, option_states,
                     split_option, call_fn, native_loop, native_collect, fix_item, fixty, exact_len, adaptor,
                     int_method, self_range, seq_eq, seqval, whole_seq, rd_bytes, writer_of, chunk_model, sub_str)


def weakval(c, st, t, tag):
    return c.e.unknown(st, t, c.site, tag)


# ------------------------------------------------------------------ slices
def split_end(front):
    def f(c):
        e, st = c.e, c.st
        r = sref(e, st, c.a[0])
        v = e.deref(st, r)
        if not isinstance(v, Seq):
            return None
        off = r.rng[0] if r.rng else Lin(0)
        n = st.facts.norm(v.len)
        a, b = fork_on(st, lt(Lin(0), n))
        out = []
        if a is not None:
            i, o = (Lin(0), Lin(1)) if front else (n - 1, Lin(0))
            tt = next(x["fields"][0]["ty"] for x in e.variants(c.dt) if x["name"] == "Some")
            out.append((a, some(e, c.dt, Agg(tt, 0, (Ref(r.loc, r.path + (("i", off + i),)), Ref(r.loc, r.path, (off + o, n - 1)))))))
        if b is not None:
            out.append((b, none(e, c.dt)))
        return out
    return f


for m_ in ("", "_mut"):
    MODELS["core::slice::<impl [T]>::split_first" + m_] = split_end(True)
    MODELS["core::slice::<impl [T]>::split_last" + m_] = split_end(False)


@model("core::slice::<impl [T]>::contains")
def seq_contains(c):
    e, st = c.e, c.st
    s = seqval(e, st, c.a[0])
    x = dv(e, st, c.a[1])
    if s is None or not isinstance(x, Lin):
        return None
    n = st.facts.norm(s.len)
    if n.is_const() and n.c <= 16:
        xs = [e.index(st, s, Lin(i)) for i in range(n.c)]
        if all(isinstance(y, Lin) for y in xs):
            return c.ret(bor(*[eq(x, y) for y in xs]) if xs else FALSE)
    return c.ret(weakval(c, st, c.dt, "contains"))


def same_seq_result(c, hint):
    """an unmodelled rearrangement of a sequence: same length, unknown contents"""
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    e.store(st, r, SSym(v.elem, mk(("re", hint, v, c.site, st.ctx), "o", weak=True), v.len))
    return c.ret(UNIT)


def rotate(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    k = st.facts.norm(e.toint(c.a[1]))
    n = st.facts.norm(v.len)
    e.oblige(st, c.fr, "call:rotate", le(k, n), c.line)
    if st.facts.bad:
        return []
    m = k if c.f["name"] == "rotate_left" else n - k
    e.store(st, r, mk_cat(v.elem, [mk_slice2(st, v, m, n - m), mk_slice2(st, v, Lin(0), m)]))
    return c.ret(UNIT)


MODELS["core::slice::<impl [T]>::rotate_left"] = rotate
MODELS["core::slice::<impl [T]>::rotate_right"] = rotate


@model("alloc::vec::Vec::<T, A>::split_off")
def vec_split_off(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    i = st.facts.norm(e.toint(c.a[1]))
    n = st.facts.norm(v.len)
    e.oblige(st, c.fr, "call:split_off", le(i, n), c.line)
    if st.facts.bad:
        return []
    e.store(st, r, mk_slice2(st, v, Lin(0), i))
    return c.ret(mk_slice2(st, v, i, n - i))


@model("alloc::vec::Vec::<T, A>::shrink_to_fit", "alloc::vec::Vec::<T, A>::shrink_to", "alloc::string::String::shrink_to_fit")
def vec_shrink(c):
    return c.ret(UNIT)


@model("alloc::vec::Vec::<T, A>::retain", "alloc::vec::Vec::<T, A>::retain_mut", "alloc::vec::Vec::<T, A>::dedup",
       "alloc::vec::Vec::<T, A>::dedup_by_key", "alloc::vec::Vec::<T, A>::dedup_by")
def vec_retain(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    n = L(mk(("retained", v, c.site, st.ctx), "i", 0, ISIZE_MAX_, None, True))
    st.facts.assume(le(n, v.len))
    e.store(st, r, SSym(v.elem, mk(("retain", v, c.site, st.ctx), "o", weak=True), n))
    return c.ret(UNIT)


ISIZE_MAX_ = (1 << 63) - 1


@model("alloc::vec::Vec::<T, A>::extend_from_within")
def vec_extend_within(c):
    from .models import range_of, check_range
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    rg = range_of(c, c.a[1], c.at[1], st.facts.norm(v.len))
    if rg is None:
        return None
    check_range(c, rg[0], rg[1], st.facts.norm(v.len))
    if st.facts.bad:
        return []
    e.store(st, r, mk_cat(v.elem, [v, mk_slice2(st, v, rg[0], rg[1] - rg[0])]))
    return c.ret(UNIT)


@model("<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign")
def string_add(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v, o = e.deref(st, r), seqval(e, st, c.a[1])
    if not isinstance(v, Seq) or o is None:
        return None
    e.store(st, r, mk_cat(v.elem, [v, o]))
    return c.ret(UNIT)


def array_try_from(c):
    """&[T] -> [T; N] or &[T; N]"""
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r) if isinstance(r, Ref) else r
    t = ok_ty(e, c.dt)
    x = e.T[t]
    at = e.T[x["to"]] if x["k"] == "ref" else x
    n = at.get("len")
    if not isinstance(v, Seq) or not isinstance(n, int):
        return None
    a, b = fork_on(st, eq(v.len, Lin(n)))
    out = []
    if a is not None:
        out.append((a, ok(e, c.dt, r if x["k"] == "ref" else v)))
    if b is not None:
        out.append((b, err(e, c.dt, Sym(err_ty(e, c.dt), mk(("tryfromslice",), "o")))))
    return out


for k in ("core::array::<impl core::convert::TryFrom<&[T]> for [T; N]>::try_from",
          "core::array::<impl core::convert::TryFrom<&mut [T]> for [T; N]>::try_from",
          "core::array::<impl core::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from",
          "core::array::<impl core::convert::TryFrom<&'a mut [T]> for &'a mut [T; N]>::try_from",
          "alloc::vec::<impl core::convert::TryFrom<alloc::vec::Vec<T, A>> for [T; N]>::try_from",
          "<[T; N] as core::convert::TryFrom<alloc::vec::Vec<T, A>>>::try_from"):
    MODELS[k] = array_try_from


@model("core::array::<impl [T; N]>::map")
def array_map(c):
    e, st = c.e, c.st
    v = c.a[0]
    if not isinstance(v, Seq):
        return None
    n = st.facts.norm(v.len)
    if not n.is_const() or n.c > 16:
        return None
    el = e.C.elem_of(c.dt)
    sts = [(st, ())]
    for i in range(n.c):
        nx = []
        for s, acc in sts:
            for s2, y in call_fn(c, s, c.a[1], [e.index(s, v, Lin(i))], i):
                nx.append((s2, acc + (y,)))
        sts = nx
    return [(s, SLit(el, acc)) for s, acc in sts]


@model("core::array::from_fn")
def array_from_fn(c):
    e, st = c.e, c.st
    n = e.T[c.dt].get("len")
    if not isinstance(n, int) or n > 16:
        return None
    el = e.C.elem_of(c.dt)
    sts = [(st, ())]
    for i in range(n):
        nx = []
        for s, acc in sts:
            for s2, y in call_fn(c, s, c.a[0], [Lin(i)], i):
                nx.append((s2, acc + (y,)))
        sts = nx
    return [(s, SLit(el, acc)) for s, acc in sts]


# ------------------------------------------------------------------ iterator sources
@model("core::iter::sources::once::once")
def it_once(c):
    return c.ret(Nat("into", SLit(None, (c.a[0],)), Lin(0), Lin(1)))


@model("core::iter::sources::empty::empty")
def it_empty(c):
    return c.ret(Nat("into", SLit(None, ()), Lin(0), Lin(0)))


@model("core::iter::sources::repeat::repeat")
def it_repeat(c):
    return c.ret(Nat("repeat", c.a[0]))


@model("core::iter::sources::repeat_n::repeat_n")
def it_repeat_n(c):
    n = c.e.toint(c.a[1])
    return c.ret(Nat("into", SConstRep(None, c.a[0], n), Lin(0), n))


@model("core::iter::sources::from_fn::from_fn")
def it_from_fn(c):
    return c.ret(Nat("fromfn", c.a[0]))


ITTAGS.add("fromfn")


# ------------------------------------------------------------------ iterator adaptors and consumers
@it_method("peekable")
def m_peekable(c):
    it = it_of(c)
    return None if it is None else c.ret(Nat("peek", it, None))


@it_method("fuse", "by_ref")
def m_fuse(c):
    if c.f["name"] == "by_ref":
        return c.ret(c.a[0])
    it = it_of(c)
    return None if it is None else c.ret(it)


@model("core::iter::adapters::peekable::Peekable::<I>::peek", "core::iter::adapters::peekable::Peekable::<I>::peek_mut")
def peek(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    it = e.deref(st, r)
    if not (isinstance(it, Nat) and it.tag == "peek"):
        return None
    if it.args[1] is not None:
        res = [(st, it.args[1], it.args[0])]
    else:
        res = iter_next(c, st, it.args[0])
    out = []
    for s, x, n in res:
        if x is SKIP:
            return None
        e.store(s, r, Nat("peek", n, x))
        if x is END:
            out.append((s, none(e, c.dt)))
            continue
        loc = ("t", c.site, "peeked")
        s.mem[loc] = x
        out.append((s, some(e, c.dt, Ref(loc, ()))))
    return out


for nm, tag in (("skip_while", "skip_while"), ("map_while", "map_while")):
    ITER[nm] = adaptor(tag, 1)


@it_method("flat_map", "flatten")
def m_flat(c):
    it = it_of(c)
    if it is None:
        return None
    return c.ret(Nat("flat", it, c.a[1] if c.f["name"] == "flat_map" else None, None))


@it_method("nth")
def m_nth(c):
    e, st = c.e, c.st
    it = it_of(c)
    if it is None:
        return None
    n = e.toint(c.a[1])
    r = sref(e, st, c.a[0]) if isinstance(c.a[0], Ref) else None
    out = []
    for s, q in it_skip(c, st, it.args[0] if False else (e.deref(st, r) if r is not None else it), n):
        if q is None:
            return None
        for s2, x, w in iter_next(c, s, q):
            if x is SKIP:
                return None
            if r is not None:
                e.store(s2, r, w)
            out.append((s2, none(e, c.dt) if x is END else some(e, c.dt, fix_item(e, c.dt, x))))
    return out


@it_method("last")
def m_last(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    if exact_len(it) is not None and isinstance(it, Nat) and it.tag in ("iter", "into", "cloned", "copied", "enum", "zip", "map"):
        out = []
        for s, x, n in iter_next(c, c.st, it_reverse(it)):
            if x is SKIP:
                return None
            out.append((s, none(e, c.dt) if x is END else some(e, c.dt, fix_item(e, c.dt, x))))
        return out
    LV = ("t", c.site, "last")
    c.st.mem[LV] = none(e, c.dt)

    def body(s, x):
        s.mem[LV] = some(e, c.dt, fix_item(e, c.dt, x))
        return [], [s]
    return [(s, s.mem.pop(LV)) for _, s in native_loop(c, c.st, it, body)]


@it_method("find_map")
def m_find_map(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    FV = ("t", c.site, "fm")

    def body(s, x):
        ex, ba = [], []
        for s2, o in call_fn(c, s, c.a[1], [x], 3):
            for s3, y, _ in split_option(e, s2, o, None):
                if y is END:
                    ba.append(s3)
                else:
                    s3.mem[FV] = y
                    ex.append(("brk", s3))
        return ex, ba
    out = []
    for t, s in native_loop(c, c.st, it, body):
        v = s.mem.pop(FV, None)
        out.append((s, none(e, c.dt) if t == "end" else some(e, c.dt, v)))
    return out


@it_method("unzip")
def m_unzip(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    ts = e.T[c.dt].get("of")
    if not ts or len(ts) != 2:
        return None
    ts = [t["ty"] if isinstance(t, dict) else t for t in ts]
    els = [e.C.elem_of(t) for t in ts]
    if None in els:
        return None
    AA = [("t", c.site, "uz", i) for i in (0, 1)]
    for i in (0, 1):
        c.st.mem[AA[i]] = SLit(els[i], ())

    def body(s, x):
        for i in (0, 1):
            s.mem[AA[i]] = mk_cat(els[i], [s.mem[AA[i]], SLit(els[i], [fixty(e, els[i], e.field(x, i))])])
        return [], [s]
    return [(s, Agg(c.dt, 0, (s.mem.pop(AA[0]), s.mem.pop(AA[1])))) for _, s in native_loop(c, c.st, it, body)]


@it_method("partition")
def m_partition(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    ts = e.T[c.dt].get("of")
    ts = [t["ty"] if isinstance(t, dict) else t for t in ts or []]
    if len(ts) != 2 or None in [e.C.elem_of(t) for t in ts]:
        return None
    el = e.C.elem_of(ts[0])
    AA = [("t", c.site, "pt", i) for i in (0, 1)]
    for i in (0, 1):
        c.st.mem[AA[i]] = SLit(el, ())

    def body(s, x):
        ba = []
        loc = ("t", c.site, "item", 7)
        s.mem[loc] = x
        for s2, b in call_fn(c, s, c.a[1], [Ref(loc, ())], 3):
            p, q = fork_on(s2, e.tobool(b))
            for i, z in enumerate((p, q)):
                if z is not None:
                    z.mem[AA[i]] = mk_cat(el, [z.mem[AA[i]], SLit(el, [fixty(e, el, x)])])
                    ba.append(z)
        return [], ba
    return [(s, Agg(c.dt, 0, (s.mem.pop(AA[0]), s.mem.pop(AA[1])))) for _, s in native_loop(c, c.st, it, body)]


@it_method("reduce")
def m_reduce(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    ACC = ("t", c.site, "reduce")
    out = []
    for s, x, n in iter_next(c, c.st, it):
        if x is SKIP:
            return None
        if x is END:
            out.append((s, none(e, c.dt)))
            continue
        s.mem[ACC] = x

        def body(s2, y):
            ba = []
            for s3, v in call_fn(c, s2, c.a[1], [s2.mem[ACC], y], 3):
                s3.mem[ACC] = v
                ba.append(s3)
            return [], ba
        out += [(s2, some(e, c.dt, s2.mem.pop(ACC))) for _, s2 in native_loop(c, s, n, body)]
    return out


@it_method("try_fold")
def m_try_fold(c):
    """over Option, Result or ControlFlow"""
    e = c.e
    it = it_of(c)
    p = e.T[c.dt].get("path")
    cont = {"core::option::Option": "Some", "core::result::Result": "Ok",
            "core::ops::control_flow::ControlFlow": "Continue"}.get(p)
    if it is None or cont is None:
        return None
    ACC = ("t", c.site, "tfold")
    RV = ("t", c.site, "tfr")
    c.st.mem[ACC] = c.a[1]

    def body(s, x):
        ex, ba = [], []
        for s2, v in call_fn(c, s, c.a[2], [s.mem[ACC], x], 3):
            if not isinstance(v, (Agg, Sym)) or v.ty is None:
                s2.mem[RV] = weakval(c, s2, c.dt, "tf")
                ex.append(("brk", s2))
                continue
            p_, q = fork_on(s2, e.variant_is(v, cont))
            if p_ is not None:
                p_.mem[ACC] = e.field(v, 0, e.vindex(v.ty, cont))
                ba.append(p_)
            if q is not None:
                q.mem[RV] = v
                ex.append(("brk", q))
        return ex, ba
    out = []
    for t, s in native_loop(c, c.st, it, body):
        a = s.mem.pop(ACC)
        v = s.mem.pop(RV, None)
        out.append((s, e.enum(c.dt, cont, a) if t == "end" else v))
    return out


@it_method("product")
def m_product(c):
    e = c.e
    it = it_of(c)
    if it is None or e.tk(c.dt) != "int":
        return None
    N = ("t", c.site, "prod")
    c.st.mem[N] = Lin(1)
    rg = e.C.int_range(c.dt)

    def body(s, x):
        r = e.mul(s, s.facts.norm(s.mem[N]), s.facts.norm(e.toint(dv(e, s, x))))
        e.oblige(s, c.fr, "assert:overflow:Mul", band(le(r, Lin(rg[1])), le(Lin(rg[0]), r)), c.line, "product")
        s.mem[N] = r
        return [], [s] if not s.facts.bad else []
    return [(s, s.mem.pop(N)) for _, s in native_loop(c, c.st, it, body)]


@it_method("max_by", "min_by", "max_by_key", "min_by_key")
def m_sel(c):
    """some element of the sequence: which one is not tracked"""
    e, st = c.e, c.st
    it = it_of(c)
    if it is None:
        return None
    if isinstance(it, Nat) and it.tag in ("iter", "into", "cloned", "copied"):
        inner = it.args[0] if it.tag in ("cloned", "copied") else it
        if isinstance(inner, Nat) and inner.tag in ("iter", "into"):
            pos, end = inner.args[1], inner.args[2]
            a, b = fork_on(st, lt(pos, end))
            out = []
            if b is not None:
                out.append((b, none(e, c.dt)))
            if a is not None:
                J = L(mk(("sel", c.f["name"], c.site, a.ctx), "i", 0, ISIZE_MAX_, None, True))
                a.facts.assume(le(pos, J))
                a.facts.assume(lt(J, end))
                one = Nat(inner.tag, inner.args[0], J, end, *inner.args[3:])
                for s, x, _ in iter_next(c, a, Nat(it.tag, one) if inner is not it else one):
                    if x is not END and x is not SKIP:
                        out.append((s, some(e, c.dt, fix_item(e, c.dt, x))))
            return out
    return c.ret(weakval(c, st, c.dt, c.f["name"]))


@it_method("rposition")
def m_rposition(c):
    return c.ret(weakval(c, c.st, c.dt, "rpos"))


@it_method("eq", "ne")
def m_iteq(c):
    e, st = c.e, c.st
    x, y = it_of(c, 0), it_of(c, 1)
    a = whole_seq(e, st, x) if x is not None else None
    b = whole_seq(e, st, y) if y is not None else None
    if a is None or b is None:
        return None
    r = seq_eq(e, st, a, b)
    return c.ret(bnot(r) if c.f["name"] == "ne" else r)


@it_method("is_sorted")
def m_is_sorted(c):
    return c.ret(weakval(c, c.st, c.dt, "sorted"))


def extend_option(c, old=MODELS["<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend"]):
    e = c.e
    v = c.a[1]
    if isinstance(v, Sym) and v.ty is not None and e.T[v.ty].get("path") == "core::option::Option":
        out = []
        for s, o in option_states(e, c.st, v):
            c2 = c.with_args(s, [c.a[0], o])
            r = old(c2)
            if r is None:
                return None
            out += r
        return out
    return old(c)


for k in ("<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend",
          "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend"):
    MODELS[k] = extend_option


# ------------------------------------------------------------------ integers
@int_method("div_ceil")
def div_ceil(c):
    e, st = c.e, c.st
    a, b = st.facts.norm(e.toint(c.a[0])), st.facts.norm(e.toint(c.a[1]))
    e.oblige(st, c.fr, "assert:div0", bnot(eq(b, Lin(0))), c.line)
    if st.facts.bad:
        return []
    rg = self_range(c)
    if rg[0] < 0:
        return None
    if b.is_const():
        # (a + b - 1) / b over the integers
        return c.ret(e.div(st, a + (b.c - 1), b, (0, rg[1] + b.c)))
    q = e.div(st, a, b, rg)
    x, y = fork_on(st, eq(mk_rem(a, b), Lin(0)))
    out = []
    if x is not None:
        out.append((x, q))
    if y is not None:
        out.append((y, q + 1))
    return out


def euclid(name):
    def f(c):
        e, st = c.e, c.st
        a, b = st.facts.norm(e.toint(c.a[0])), st.facts.norm(e.toint(c.a[1]))
        rg = self_range(c)
        if rg[0] < 0:
            return None
        e.oblige(st, c.fr, "assert:div0", bnot(eq(b, Lin(0))), c.line)
        if st.facts.bad:
            return []
        return c.ret(e.div(st, a, b, rg) if name == "div" else mk_rem(a, b))
    return f


int_method("div_euclid")(euclid("div"))
int_method("rem_euclid")(euclid("rem"))


def overflowing(op):
    def f(c):
        e, st = c.e, c.st
        a, b = e.toint(c.a[0]), e.toint(c.a[1])
        rg = self_range(c)
        r = a + b if op == "add" else (a - b if op == "sub" else e.mul(st, st.facts.norm(a), st.facts.norm(b)))
        y, n = fork_on(st, band(le(r, Lin(rg[1])), le(Lin(rg[0]), r)))
        out = []
        if y is not None:
            out.append((y, Agg(c.dt, 0, (r, FALSE))))
        if n is not None:
            out.append((n, Agg(c.dt, 0, (e.fit(n, r, rg), TRUE))))
        return out
    return f


for op_ in ("add", "sub", "mul"):
    int_method("overflowing_" + op_)(overflowing(op_))


@int_method("wrapping_shl")
def wr_shl(c):
    e, st = c.e, c.st
    rg = self_range(c)
    bits = (rg[1] - rg[0] + 1).bit_length() - 1
    b = st.facts.norm(e.toint(c.a[1]))
    a, n = fork_on(st, lt(b, Lin(bits)))
    out = []
    if a is not None:
        out.append((a, e.shl(a, e.toint(c.a[0]), b, rg)))
    if n is not None:
        out.append((n, weakval(c, n, c.at[0], "wshl")))
    return out


@int_method("wrapping_shr")
def wr_shr(c):
    e, st = c.e, c.st
    rg = self_range(c)
    bits = (rg[1] - rg[0] + 1).bit_length() - 1
    b = st.facts.norm(e.toint(c.a[1]))
    a, n = fork_on(st, lt(b, Lin(bits)))
    out = []
    if a is not None:
        out.append((a, e.shr(a, e.toint(c.a[0]), b, rg)))
    if n is not None:
        out.append((n, weakval(c, n, c.at[0], "wshr")))
    return out


@int_method("is_power_of_two")
def is_pow2(c):
    v = c.st.facts.norm(c.e.toint(c.a[0]))
    if v.is_const():
        return c.ret(TRUE if v.c > 0 and v.c & (v.c - 1) == 0 else FALSE)
    return c.ret(lit(mk(("ispow2", v), "b")))


for n_ in ("swap_bytes", "rotate_left", "rotate_right", "reverse_bits", "to_be", "to_le"):
    def f_(c, n_=n_):
        return c.ret(weakval(c, c.st, c.at[0], n_)) if n_ != "to_le" else c.ret(c.a[0])
    int_method(n_)(f_)


# ------------------------------------------------------------------ ordering
def three_way(c):
    """Ord::cmp of two integers"""
    e, st = c.e, c.st
    a, b = dv(e, st, c.a[0]), dv(e, st, c.a[1])
    if not isinstance(a, Lin) or not isinstance(b, Lin):
        return None
    opt = e.T[c.dt].get("path") == "core::option::Option"
    t = next(x["fields"][0]["ty"] for x in e.variants(c.dt) if x["name"] == "Some") if opt else c.dt
    out = []
    x, ge_ = fork_on(st, lt(a, b))
    w = (lambda v: some(e, c.dt, v)) if opt else (lambda v: v)
    if x is not None:
        out.append((x, w(e.enum(t, "Less"))))
    if ge_ is not None:
        y, z = fork_on(ge_, eq(a, b))
        if y is not None:
            out.append((y, w(e.enum(t, "Equal"))))
        if z is not None:
            out.append((z, w(e.enum(t, "Greater"))))
    return out


for t_ in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "char"):
    MODELS["core::cmp::impls::<impl core::cmp::Ord for %s>::cmp" % t_] = three_way
    MODELS["core::cmp::impls::<impl core::cmp::PartialOrd for %s>::partial_cmp" % t_] = three_way


# ------------------------------------------------------------------ characters and text
CHARS = {"is_whitespace": lambda x: x in WHITE, "is_ascii_whitespace": lambda x: x in (9, 10, 12, 13, 32),
         "is_ascii_digit": lambda x: 48 <= x < 58, "is_ascii": lambda x: True, "is_numeric": lambda x: 48 <= x < 58,
         "is_alphabetic": lambda x: chr(x).isalpha(), "is_ascii_alphabetic": lambda x: chr(x).isalpha(),
         "is_alphanumeric": lambda x: chr(x).isalnum(), "is_ascii_alphanumeric": lambda x: chr(x).isalnum(),
         "is_lowercase": lambda x: chr(x).islower(), "is_uppercase": lambda x: chr(x).isupper(),
         "is_control": lambda x: x < 32 or x == 127, "is_ascii_control": lambda x: x < 32 or x == 127}


def pure_bool(name):
    def f(c):
        v = dv(c.e, c.st, c.a[0])
        if isinstance(v, Lin) and v.is_const() and 0 <= v.c < 128 and name in CHARS:
            return c.ret(TRUE if CHARS[name](v.c) else FALSE)
        return c.ret(lit(mk((name, v), "b")))
    return f


for n_ in ("is_ascii", "is_alphanumeric", "is_alphabetic", "is_whitespace", "is_numeric", "is_ascii_digit",
           "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_whitespace", "is_control", "is_ascii_control",
           "is_ascii_graphic", "is_ascii_punctuation", "is_lowercase", "is_uppercase"):
    for o_ in ("core::char::methods::<impl char>::", "core::num::<impl u8>::"):
        MODELS[o_ + n_] = pure_bool(n_)
MODELS["core::str::<impl str>::is_ascii"] = pure_bool("str_is_ascii")
MODELS["core::slice::ascii::<impl [u8]>::is_ascii"] = pure_bool("str_is_ascii")


@model("core::str::<impl str>::contains", "core::str::<impl str>::is_char_boundary")
def str_contains(c):
    e, st = c.e, c.st
    s, p = seqval(e, st, c.a[0]), dv(e, st, c.a[1])
    if s is None or not isinstance(p, (Lin, Seq)):
        return c.ret(weakval(c, st, c.dt, "strc"))
    return c.ret(lit(mk(("str" + c.f["name"], s, p), "b")))


def text_option(c, cond, val):
    e, st = c.e, c.st
    a, b = fork_on(st, cond)
    out = []
    if a is not None:
        out.append((a, some(e, c.dt, val(a))))
    if b is not None:
        out.append((b, none(e, c.dt)))
    return out


@model("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix")
def str_strip(c):
    e, st = c.e, c.st
    s, p = seqval(e, st, c.a[0]), dv(e, st, c.a[1])
    if s is None:
        return None
    if not isinstance(p, (Lin, Seq)):
        p = Const("fn%s" % (c.site,))
    nm = c.f["name"]
    it, pre = text_items(s), text_items(p) if isinstance(p, Seq) else [p.c] if isinstance(p, Lin) and p.is_const() else None
    if it is not None and pre is not None and all(isinstance(x, int) for x in pre):
        k = len(pre)
        part = (it[:k] if nm == "strip_prefix" else it[len(it) - k:]) if len(it) >= k else it
        if all(isinstance(x, int) for x in part):
            if part == pre:
                return c.ret(some(e, c.dt, Ref(("k", text_seq(e, it[k:] if nm == "strip_prefix" else it[:len(it) - k])), ())))
            return c.ret(none(e, c.dt))

    def val(a):
        f = sub_str(e, (nm, s, p))
        a.facts.assume(le(f.len, s.len))
        return Ref(("k", f), ())
    return text_option(c, lit(mk((nm + "?", s, p), "b")), val)


@model("core::str::<impl str>::split_once", "core::str::<impl str>::rsplit_once")
def str_split_once(c):
    e, st = c.e, c.st
    s, p = seqval(e, st, c.a[0]), dv(e, st, c.a[1])
    if s is None:
        return None
    if not isinstance(p, (Lin, Seq)):
        p = Const("fn%s" % (c.site,))
    nm = c.f["name"]
    tt = next(x["fields"][0]["ty"] for x in e.variants(c.dt) if x["name"] == "Some")
    m = text_marks(c, st, s, c.a[1])
    if m is not None:
        it, on = m
        w = [i for i, b in enumerate(on) if b]
        if not w:
            return c.ret(none(e, c.dt))
        i = w[0] if nm == "split_once" else w[-1]
        return c.ret(some(e, c.dt, Agg(tt, 0, tuple(Ref(("k", text_seq(e, x)), ()) for x in (it[:i], it[i + 1:])))))

    def val(a):
        q = [sub_str(e, (nm, i, s, p)) for i in (0, 1)]
        for f in q:
            a.facts.assume(le(f.len, s.len))
        return Agg(tt, 0, tuple(Ref(("k", f), ()) for f in q))
    return text_option(c, lit(mk((nm + "?", s, p), "b")), val)


@model("core::str::<impl str>::find", "core::str::<impl str>::rfind")
def str_find(c):
    e, st = c.e, c.st
    s, p = seqval(e, st, c.a[0]), dv(e, st, c.a[1])
    if s is None:
        return None
    if not isinstance(p, (Lin, Seq)):
        p = Const("fn%s" % (c.site,))
    nm = c.f["name"]

    def val(a):
        n = L(mk((nm, s, p), "i", 0, ISIZE_MAX_))
        a.facts.assume(le(n, s.len))
        return n
    return text_option(c, lit(mk((nm + "?", s, p), "b")), val)


# ------------------------------------------------------------------ io
for k in ("alloc::io::read::Read::bytes", "alloc::io::read::Read::bytes|unresolved"):
    MODELS[k] = rd_bytes


@model("std::io::util::sink", "core::io::util::sink", "alloc::io::util::sink")
def io_sink(c):
    return c.ret(Agg(c.dt, 0, ()))


@model("alloc::io::buffered::bufwriter::BufWriter::<W>::into_inner")
def bufw_into_inner(c):
    """flushes; the inner writer, or the error"""
    e, st = c.e, c.st
    v = c.a[0]
    if not (isinstance(v, Nat) and v.tag == "bufw"):
        return None
    w = writer_of(e, st, v)
    if w is None:
        return None
    if w[0] == "vec" or isinstance(w[0], str) and "vec" in w[0]:
        return c.ret(ok(e, c.dt, v.args[0]))
    bad = st.fork()
    from .models import gset, G_IOERR
    gset(bad, G_IOERR)
    return [(st, ok(e, c.dt, v.args[0])), (bad, err(e, c.dt, Sym(err_ty(e, c.dt), mk(("ioerr", c.site, bad.ctx), "o"))))]


@model("alloc::vec::Vec::<T, A>::resize_with")
def vec_resize_with(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    n = e.toint(c.a[1])
    if not isinstance(v, Seq):
        return None
    e.event(st, c.fr, "alloc", c.line, n - v.len, v.elem)
    out = []
    a, b = fork_on(st, le(v.len, n))
    if a is not None:
        for s, x in call_fn(c, a, c.a[2], [], 3):
            if isinstance(x, (Lin, Atom)) and not getattr(x, "weak", False):
                e.store(s, r, mk_cat(v.elem, [v, SConstRep(v.elem, x, n - v.len)]))
            else:
                e.store(s, r, mk_cat(v.elem, [v, SSym(v.elem, mk(("rwith", c.site, s.ctx), "o", weak=True), n - v.len)]))
            out.append((s, UNIT))
    if b is not None:
        e.store(b, r, mk_slice2(b, v, Lin(0), n))
        out.append((b, UNIT))
    return out


@model("core::io::cursor::Cursor::<T>::new", "std::io::cursor::Cursor::<T>::new", "alloc::io::cursor::Cursor::<T>::new")
def cursor_new(c):
    if seqval(c.e, c.st, c.a[0]) is None:
        return None
    return c.ret(Nat("cursor", c.a[0], Lin(0)))


@model("core::io::cursor::Cursor::<T>::position")
def cursor_pos(c):
    v = dv(c.e, c.st, c.a[0])
    return c.ret(v.args[1]) if isinstance(v, Nat) and v.tag == "cursor" else None


@model("core::io::cursor::Cursor::<T>::into_inner", "core::io::cursor::Cursor::<T>::get_ref")
def cursor_inner(c):
    v = dv(c.e, c.st, c.a[0])
    return c.ret(v.args[0]) if isinstance(v, Nat) and v.tag == "cursor" and (
        c.f["name"] == "into_inner" or isinstance(v.args[0], Ref)) else None
