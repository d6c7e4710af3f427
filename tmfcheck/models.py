"""Abstract transformers of the library functions the crate calls (std, smallvec, futures, tokio).

Every transformer returns a list of (state, value); an empty list means the call diverges. They
describe the documented behaviour of the library, nothing of the crate under analysis.
"""
from .terms import *
from .values import *

MODELS = {}
PREFIX_MODELS = []
FUTURES = {}
ITER = {}          # iterator consumer / adaptor methods by name
SUFFIX = []        # (predicate, handler)

USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1
G_IOERR = ("g", "ioerr")
G_SHORT = ("g", "short")
G_OUT = ("g", "out")
G_IN = ("g", "in")
G_DIRTY = ("g", "dirty")


def model(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f
    return d


def it_method(*names):
    def d(f):
        for n in names:
            ITER[n] = f
        return f
    return d


# ------------------------------------------------------------------ helpers
def sref(e, st, v):
    """follow references until one that points at a sequence (or anything that is no reference)"""
    while isinstance(v, Ref):
        w = e.deref(st, v)
        if isinstance(w, Ref):
            v = w
            continue
        return v
    return v


def dv(e, st, v):
    while isinstance(v, Ref):
        v = e.deref(st, v)
    return v


def seqval(e, st, v):
    v = dv(e, st, v)
    return v if isinstance(v, Seq) else None


def some(e, dt, v):
    return e.enum(dt, "Some", v)


def none(e, dt):
    return e.enum(dt, "None")


def ok(e, dt, v=UNIT):
    return e.enum(dt, "Ok", v)


def err(e, dt, v):
    return e.enum(dt, "Err", v)


def err_ty(e, dt):
    return e.variants(dt)[1]["fields"][0]["ty"]


def ok_ty(e, dt):
    return e.variants(dt)[0]["fields"][0]["ty"]


def fresh_err(c, dt=None):
    t = err_ty(c.e, dt if dt is not None else c.dt)
    return Sym(t, mk(("ioerr", c.site, c.st.ctx), "o"))


def slen(s):
    return s.len


def has_bits(s):
    return term_has_bits(s)


_hb = {}


def term_has_bits(s):
    if isinstance(s, SBits):
        return False
    r = _hb.get(s)
    if r is not None:
        return r
    r = False
    if isinstance(s, SLit):
        r = any(isinstance(x, Nat) and x.tag == "bit" for x in s.items)
    elif isinstance(s, SCat):
        r = any(term_has_bits(p) for p in s.parts)
    elif isinstance(s, SRep):
        r = any(term_has_bits(p) for _, p in s.alts)
    elif isinstance(s, (SSlice, SUpd)):
        r = term_has_bits(s.seq)
    _hb[s] = r
    return r


def fork_on(st, cond):
    """-> (state assuming cond or None, state assuming not cond or None)"""
    d = st.facts.decide(cond)
    if d is True:
        return st, None
    if d is False:
        return None, st
    a = st.fork()
    a.facts.assume(cond)
    b = st
    b.facts.assume(bnot(cond))
    return (None if a.facts.bad else a), (None if b.facts.bad else b)


def ident(c):
    return c.ret(c.a[0])


def text(e, s):
    return SLit(e._u8, [Lin(x) for x in s.encode()])


# ------------------------------------------------------------------ identity-like
for k in (
    "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref",
    "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
    "<alloc::string::String as core::ops::deref::Deref>::deref",
    "<smallvec::SmallVec<A> as core::ops::deref::Deref>::deref",
    "<smallvec::SmallVec<A> as core::ops::deref::DerefMut>::deref_mut",
    "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
    "alloc::string::String::as_str", "alloc::string::String::as_bytes",
    "core::str::<impl str>::as_bytes", "core::str::<impl str>::as_ref",
    "core::hint::must_use",
    "core::hint::black_box",
    "<F as core::future::into_future::IntoFuture>::into_future",
    "<I as core::iter::traits::collect::IntoIterator>::into_iter",
    "smallvec::SmallVec::<A>::as_slice",
    "core::array::<impl [T; N]>::as_slice",
    "core::iter::traits::iterator::Iterator::by_ref",
    "alloc::slice::<impl [T]>::into_vec",
    "alloc::string::String::into_bytes",
    "alloc::vec::Vec::<T, A>::into_boxed_slice",
):
    MODELS[k] = ident


@model("core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::new")
def pin_new(c):
    return c.ret(Nat("pin", c.a[0]))


@model("core::future::get_context")
def get_context(c):
    return c.ret(UNIT)


@model("core::mem::maybe_uninit::MaybeUninit::<T>::new")
def mu_new(c):
    return c.ret(c.a[0])


@model("core::mem::maybe_uninit::MaybeUninit::<T>::write")
def mu_write(c):
    c.e.store(c.st, c.a[0], c.a[1])
    return c.ret(c.a[0])


@model("core::mem::maybe_uninit::MaybeUninit::<T>::uninit")
def mu_uninit(c):
    return c.ret(UNINIT)


@model("core::mem::maybe_uninit::MaybeUninit::<T>::assume_init")
def mu_assume(c):
    c.e.event(c.st, c.fr, "assume_init", c.line, c.a[0])
    return c.ret(c.a[0])


@model("core::convert::Into::into|unresolved", "core::convert::Into::into", "core::convert::From::from|unresolved",
       "core::convert::AsRef::as_ref|unresolved", "core::borrow::Borrow::borrow|unresolved",
       "core::convert::From::from")
def into_unres(c):
    e = c.e
    v = c.a[0]
    t = c.dt
    isref = e.tk(t) == "ref"
    inner = e.T[t]["to"] if isref else t
    w = dv(e, c.st, v)
    if e.C.elem_of(inner) is not None:
        if isinstance(w, Seq):
            return c.ret(v if isref and isinstance(v, Ref) else w)
        base = w.base if isinstance(w, Sym) else mk(("into?", c.site, c.st.ctx), "o", weak=True)
        s = e.symval(inner, ("into", base))
        return c.ret(Ref(("k", s), ()) if isref else s)
    if isinstance(w, Sym):
        return c.ret(e.symval(t, ("into", w.base)))
    return None


# ------------------------------------------------------------------ Vec / String / SmallVec / Box<[T]>
@model("alloc::vec::Vec::<T>::new", "alloc::string::String::new", "smallvec::SmallVec::<A>::new",
       "<alloc::vec::Vec<T> as core::default::Default>::default",
       "<alloc::string::String as core::default::Default>::default",
       "<alloc::boxed::Box<[T]> as core::default::Default>::default")
def vec_new(c):
    return c.ret(SLit(c.e.C.elem_of(c.dt), ()))


@model("alloc::vec::Vec::<T>::with_capacity", "alloc::string::String::with_capacity",
       "smallvec::SmallVec::<A>::with_capacity")
def vec_cap(c):
    c.e.event(c.st, c.fr, "alloc", c.line, c.e.toint(c.a[0]), c.e.C.elem_of(c.dt))
    return c.ret(SLit(c.e.C.elem_of(c.dt), ()))


@model("alloc::vec::from_elem")
def from_elem(c):
    n = c.e.toint(c.a[1])
    c.e.event(c.st, c.fr, "alloc", c.line, n, c.e.C.elem_of(c.dt))
    n = c.st.facts.norm(n)
    v = c.a[0]
    if n.is_const() and n.c <= 64:
        return c.ret(SLit(c.e.C.elem_of(c.dt), [v] * n.c))
    return c.ret(SConstRep(c.e.C.elem_of(c.dt), v, n))


@model("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::reserve_exact",
       "alloc::string::String::reserve", "smallvec::SmallVec::<A>::reserve")
def vec_reserve(c):
    e = c.e
    n = e.toint(c.a[1])
    v = dv(e, c.st, c.a[0])
    e.event(c.st, c.fr, "alloc", c.line, n, v.elem if isinstance(v, Seq) else None)
    r = sref(e, c.st, c.a[0])
    if isinstance(v, Seq):
        c.st.mem[("cap", r.loc, r.path)] = v.len + n
    return c.ret(UNIT)


@model("alloc::vec::Vec::<T, A>::spare_capacity_mut")
def vec_spare(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    cap = st.mem.get(("cap", r.loc, r.path))
    n = L(mk(("spare", c.site, st.ctx), "i", 0, ISIZE_MAX))
    if isinstance(cap, Lin):
        st.facts.assume(le(cap - v.len, n))
    loc = ("sp", r.loc, r.path)
    st.mem[loc] = SConstRep(v.elem, UNINIT, n)
    return c.ret(Ref(loc, ()))


@model("alloc::vec::Vec::<T, A>::set_len")
def vec_set_len(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    n = st.facts.norm(e.toint(c.a[1]))
    if not isinstance(v, Seq):
        return None
    sp = st.mem.get(("sp", r.loc, r.path))
    # shrinking exposes nothing
    if st.facts.decide(le(n, v.len)) is True:
        e.event(st, c.fr, "set_len", c.line, "shrink", None, None)
        e.store(st, r, mk_slice(v, Lin(0), n))
        return c.ret(UNIT)
    new = None
    need = n - v.len
    if isinstance(sp, Seq):
        good, why, goal = initialised(e, st, sp, need)
        new = mk_cat(v.elem, [v, mk_slice2(st, sp, Lin(0), need)])
        e.event(st, c.fr, "set_len", c.line, "ok" if good else "bad", why, goal)
    else:
        e.event(st, c.fr, "set_len", c.line, "bad", "no written spare capacity", [le(need, Lin(0))])
        new = SSym(v.elem, mk(("setlen", c.site, st.ctx), "o"), n)
    e.store(st, r, new)
    st.mem.pop(("sp", r.loc, r.path), None)
    return c.ret(UNIT)


def initialised(e, st, s, n):
    """first n elements of s are written -> (bool, reason, goals whose truth would refute the reason)"""
    if st.facts.decide(le(n, Lin(0))) is True:
        return True, None, None
    parts = s.parts if isinstance(s, SCat) else (s,)
    left = n
    for p in parts:
        if st.facts.decide(le(left, Lin(0))) is True:
            return True, None, None
        if not written(p):
            if st.facts.decide(le(p.len, Lin(0))) is True:
                continue
            plain = isinstance(p, SConstRep) or isinstance(p, SLit)
            return False, f"elements from {n - left!r} of {n!r} are not written", [le(left, Lin(0)), le(p.len, Lin(0))] if plain else None
        left = left - p.len
    if st.facts.decide(le(left, Lin(0))) is True:
        return True, None, None
    return False, f"only {n - left!r} of {n!r} elements are written", [le(left, Lin(0))]


def written(p):
    if isinstance(p, SConstRep):
        return p.val is not UNINIT
    if isinstance(p, SLit):
        return all(x is not UNINIT for x in p.items)
    if isinstance(p, SRep):
        return all(written(x) for _, x in p.alts)
    if isinstance(p, SCat):
        return all(written(x) for x in p.parts)
    if isinstance(p, SSlice):
        return written(p.seq)
    if isinstance(p, SUpd):
        return written(p.seq)
    if isinstance(p, SSym):
        return not p.base.weak
    return True


def drop_empty(st, s):
    """remove parts known to be empty from a concatenation"""
    if not isinstance(s, SCat):
        return s
    ps = [p for p in s.parts if isinstance(p, SLit) or st.facts.decide(le(p.len, Lin(0))) is not True]
    return s if len(ps) == len(s.parts) else mk_cat(s.elem, ps)


def mk_slice2(st, s, off, n):
    """slice using the facts to decide part boundaries"""
    off, n = st.facts.norm(off), st.facts.norm(n)
    r = mk_slice(s, off, n)
    if isinstance(r, SSlice) and st.facts.decide(le(n, Lin(0))) is True:
        return SLit(s.elem, ())
    if isinstance(r, SSlice) and r.seq is s and off == Lin(0) and st.facts.decide(eq(n, s.len)) is True:
        r = s
    if isinstance(r, SCat):
        r = drop_empty(st, r)
    if isinstance(s, SCat) and isinstance(r, SSlice) and r.seq is s:
        o = off
        ps = list(s.parts)
        while ps and st.facts.decide(le(ps[0].len, o)) is True:
            o = o - ps[0].len
            ps.pop(0)
        acc = []
        left = n
        first = True
        for p in ps:
            if st.facts.decide(le(left, Lin(0))) is True:
                break
            po = o if first else Lin(0)
            avail = p.len - po
            if st.facts.decide(le(avail, left)) is True:
                acc.append(mk_slice(p, po, avail))
                left = left - avail
            elif st.facts.decide(le(left, avail)) is True:
                acc.append(mk_slice(p, po, left))
                left = Lin(0)
            else:
                return r
            first = False
        if st.facts.decide(le(left, Lin(0))) is True and (not first or st.facts.decide(le(n, Lin(0))) is True):
            return drop_empty(st, mk_cat(s.elem, acc))
    return r


@model("alloc::vec::Vec::<T, A>::push", "alloc::string::String::push", "smallvec::SmallVec::<A>::push")
def vec_push(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return c.ret(UNIT)
    e.store(st, r, mk_cat(v.elem, [v, SLit(v.elem, [c.a[1]])]))
    return c.ret(UNIT)


@model("alloc::string::String::push_str", "alloc::vec::Vec::<T, A>::extend_from_slice",
       "smallvec::SmallVec::<A>::extend_from_slice", "alloc::vec::Vec::<T, A>::append")
def vec_extend_slice(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    o = seqval(e, st, c.a[1])
    if not isinstance(v, Seq) or o is None:
        return None
    e.store(st, r, mk_cat(v.elem, [v, o]))
    if c.f["name"] == "append":
        e.store(st, sref(e, st, c.a[1]), SLit(o.elem, ()))
    return c.ret(UNIT)


@model("alloc::vec::Vec::<T, A>::pop", "smallvec::SmallVec::<A>::pop")
def vec_pop(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    n = st.facts.norm(v.len)
    out = []
    a, b = fork_on(st, lt(Lin(0), n))
    if a is not None:
        last = e.index(a, v, n - 1)
        e.store(a, r, mk_slice2(a, v, Lin(0), n - 1))
        out.append((a, some(e, c.dt, last)))
    if b is not None:
        out.append((b, none(e, c.dt)))
    return out


@model("alloc::vec::Vec::<T, A>::clear", "alloc::string::String::clear", "smallvec::SmallVec::<A>::clear")
def vec_clear(c):
    r = sref(c.e, c.st, c.a[0])
    v = c.e.deref(c.st, r)
    if isinstance(v, Seq):
        c.e.store(c.st, r, SLit(v.elem, ()))
    return c.ret(UNIT)


@model("alloc::vec::Vec::<T, A>::truncate")
def vec_truncate(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    n = e.toint(c.a[1])
    if not isinstance(v, Seq):
        return None
    out = []
    a, b = fork_on(st, lt(n, v.len))
    if a is not None:
        e.store(a, r, mk_slice2(a, v, Lin(0), n))
        out.append((a, UNIT))
    if b is not None:
        out.append((b, UNIT))
    return out


@model("alloc::vec::Vec::<T, A>::remove", "smallvec::SmallVec::<A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def vec_remove(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    i = st.facts.norm(e.toint(c.a[1]))
    if not isinstance(v, Seq):
        return None
    e.oblige(st, c.fr, "call:remove-index", lt(i, v.len), c.line)
    if st.facts.bad:
        return []
    x = e.index(st, v, i)
    e.store(st, r, mk_cat(v.elem, [mk_slice2(st, v, Lin(0), i), mk_slice2(st, v, i + 1, v.len - i - 1)]))
    return c.ret(x)


@model("alloc::vec::Vec::<T, A>::insert")
def vec_insert(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    i = st.facts.norm(e.toint(c.a[1]))
    if not isinstance(v, Seq):
        return None
    e.oblige(st, c.fr, "call:insert-index", le(i, v.len), c.line)
    if st.facts.bad:
        return []
    e.store(st, r, mk_cat(v.elem, [mk_slice2(st, v, Lin(0), i), SLit(v.elem, [c.a[2]]), mk_slice2(st, v, i, v.len - i)]))
    return c.ret(UNIT)


@model("alloc::vec::Vec::<T, A>::resize")
def vec_resize(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    n = e.toint(c.a[1])
    if not isinstance(v, Seq):
        return None
    e.event(st, c.fr, "alloc", c.line, n - v.len, v.elem)
    out = []
    a, b = fork_on(st, le(v.len, n))
    if a is not None:
        e.store(a, r, mk_cat(v.elem, [v, SConstRep(v.elem, c.a[2], n - v.len)]))
        out.append((a, UNIT))
    if b is not None:
        e.store(b, r, mk_slice2(b, v, Lin(0), n))
        out.append((b, UNIT))
    return out


@model("alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len",
       "alloc::string::String::len", "smallvec::SmallVec::<A>::len",
       "core::iter::traits::exact_size::ExactSizeIterator::len")
def vec_len(c):
    v = seqval(c.e, c.st, c.a[0])
    if v is None:
        it = dv(c.e, c.st, c.a[0])
        if isinstance(it, Nat) and it.tag in ("iter", "into"):
            return c.ret(it.args[2] - it.args[1])
        return None
    return c.ret(c.st.facts.norm(v.len))


@model("alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty",
       "alloc::string::String::is_empty", "smallvec::SmallVec::<A>::is_empty")
def vec_is_empty(c):
    v = seqval(c.e, c.st, c.a[0])
    if v is None:
        return None
    return c.ret(eq(c.st.facts.norm(v.len), Lin(0)))


@model("alloc::vec::Vec::<T, A>::capacity")
def vec_capacity(c):
    v = seqval(c.e, c.st, c.a[0])
    n = L(mk(("cap", c.site, c.st.ctx), "i", 0, ISIZE_MAX, None, True))
    if v is not None:
        c.st.facts.assume(le(v.len, n))
    return c.ret(n)


def to_owned_seq(c):
    v = seqval(c.e, c.st, c.a[0])
    if v is None:
        return None
    return c.ret(v)


for k in (
    "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone",
    "<alloc::string::String as core::clone::Clone>::clone",
    "<alloc::boxed::Box<[T], A> as core::clone::Clone>::clone",
    "<alloc::vec::Vec<T, A> as core::convert::From<alloc::boxed::Box<[T], A>>>::from",
    "<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from",
    "<alloc::vec::Vec<T> as core::convert::From<[T; N]>>::from",
    "<alloc::vec::Vec<T> as core::convert::From<&str>>::from",
    "alloc::boxed::convert::<impl core::convert::From<&[T]> for alloc::boxed::Box<[T]>>::from",
    "alloc::boxed::convert::<impl core::convert::From<[T; N]> for alloc::boxed::Box<[T]>>::from",
    "alloc::vec::<impl core::convert::From<alloc::vec::Vec<T, A>> for alloc::boxed::Box<[T], A>>::from",
    "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned",
    "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned",
    "<alloc::string::String as core::convert::From<&str>>::from",
    "alloc::slice::<impl [T]>::to_vec",
    "smallvec::SmallVec::<A>::from_slice",
    "smallvec::SmallVec::<A>::from_vec",
    "smallvec::SmallVec::<A>::into_vec",
    "<smallvec::SmallVec<A> as core::convert::From<&'a [A::Item]>>::from",
    "alloc::slice::<impl [T]>::concat",
):
    MODELS[k] = to_owned_seq


@model("<T as alloc::string::ToString>::to_string", "<str as alloc::string::SpecToString>::spec_to_string")
def to_string(c):
    v = dv(c.e, c.st, c.a[0])
    if isinstance(v, Seq):
        return c.ret(v)
    return c.ret(disp_text(c.e, v))


@model("<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref",
       "<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut",
       "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow",
       "<alloc::string::String as core::borrow::Borrow<str>>::borrow",
       "<alloc::string::String as core::convert::AsRef<str>>::as_ref",
       "alloc::str::<impl core::borrow::Borrow<str> for alloc::string::String>::borrow")
def as_ref(c):
    return c.ret(sref(c.e, c.st, c.a[0]))


@model("smallvec::SmallVec::<A>::inline_size")
def sv_inline(c):
    a = c.targ(0)
    if a is not None and c.e.tk(a) == "array" and isinstance(c.e.T[a]["len"], int):
        return c.ret(Lin(c.e.T[a]["len"]))
    return None


@model("alloc::boxed::Box::<T>::new_uninit")
def box_new_uninit(c):
    loc = ("box", c.site, c.st.ctx)
    c.st.mem[loc] = UNINIT
    return c.ret(Nat("box", Ref(loc, ())))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(c):
    v = c.a[0]
    if isinstance(v, Nat) and v.tag == "box":
        v = c.e.deref(c.st, v.args[0])
        if isinstance(v, Agg) and len(v.fields) == 1:
            v = v.fields[0]
    while isinstance(v, Agg) and not isinstance(v, Seq) and len(v.fields) >= 1:
        v = v.fields[-1]
    if isinstance(v, Seq):
        return c.ret(v)
    return None


@model("alloc::boxed::Box::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::rc::Rc::<T>::new")
def box_new(c):
    return c.ret(c.a[0])


# ---- extend
def extend_generic(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    it = make_iter(e, st, c.a[1], c.at[1])
    if it is None:
        o = seqval(e, st, c.a[1])
        if o is None:
            return None
        e.store(st, r, mk_cat(v.elem, [v, o]))
        return c.ret(UNIT)
    whole = whole_seq(e, st, it)
    if whole is not None:
        e.store(st, r, mk_cat(v.elem, [v, whole]))
        return c.ret(UNIT)
    out = []
    for s, acc in native_collect(c, st, it, v.elem, True):
        e.store(s, r, mk_cat(v.elem, [e.deref(s, r), acc]))
        out.append((s, UNIT))
    return out


for k in ("<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend",
          "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend",
          "<smallvec::SmallVec<A> as core::iter::traits::collect::Extend<<A as smallvec::Array>::Item>>::extend"):
    MODELS[k] = extend_generic


def whole_seq(e, st, it):
    """contents of an iterator that just walks a sequence (values or references to copies)"""
    if isinstance(it, Nat) and it.tag in ("cloned", "copied"):
        it = it.args[0]
    if isinstance(it, Nat) and it.tag == "iter":
        s = e.deref(st, it.args[0])
        if isinstance(s, Seq) and (len(it.args) < 4):
            return mk_slice2(st, s, it.args[1], it.args[2] - it.args[1])
    if isinstance(it, Nat) and it.tag == "into":
        return mk_slice2(st, it.args[0], it.args[1], it.args[2] - it.args[1])
    return None


@model("alloc::vec::Vec::<T, A>::drain")
def vec_drain(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    rg = range_of(c, c.a[1], c.at[1], v.len)
    if rg is None:
        return None
    lo, hi = rg
    check_range(c, lo, hi, v.len)
    if st.facts.bad:
        return []
    d = mk_slice2(st, v, lo, hi - lo)
    e.store(st, r, mk_cat(v.elem, [mk_slice2(st, v, Lin(0), lo), mk_slice2(st, v, hi, v.len - hi)]))
    return c.ret(Nat("into", d, Lin(0), hi - lo))


# ------------------------------------------------------------------ indexing
def range_of(c, v, t, n):
    """(lo, hi) of a range value"""
    e, st = c.e, c.st
    v = dv(e, st, v)
    x = e.T[t] if t is not None else None
    if x is not None and x["k"] == "ref":
        x = e.T[x["to"]]
    p = x["path"].rsplit("::", 1)[-1] if x is not None and x["k"] == "adt" else None
    f = lambda i: st.facts.norm(e.toint(e.field(v, i)))
    if p == "Range":
        return f(0), f(1)
    if p == "RangeTo":
        return Lin(0), f(0)
    if p == "RangeFrom":
        return f(0), n
    if p == "RangeFull":
        return Lin(0), n
    if p == "RangeInclusive":
        return f(0), f(1) + 1
    if p == "RangeToInclusive":
        return Lin(0), f(0) + 1
    return None


def check_range(c, lo, hi, n):
    c.e.oblige(c.st, c.fr, "call:slice-order", le(lo, hi), c.line)
    c.e.oblige(c.st, c.fr, "call:slice-end", le(hi, n), c.line)


def seq_index(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r) if isinstance(r, Ref) else r
    if not isinstance(v, Seq):
        return None
    it = c.at[1]
    off = r.rng[0] if r.rng else Lin(0)
    n = r.rng[1] if r.rng else v.len
    n = st.facts.norm(n)
    if e.tk(it) == "int":
        i = st.facts.norm(e.toint(c.a[1]))
        e.oblige(st, c.fr, "assert:bounds", lt(i, n), c.line, "index")
        if st.facts.bad:
            return []
        return c.ret(Ref(r.loc, r.path + (("i", off + i),)))
    rg = range_of(c, c.a[1], it, n)
    if rg is None:
        return None
    check_range(c, rg[0], rg[1], n)
    if st.facts.bad:
        return []
    return c.ret(Ref(r.loc, r.path, (off + rg[0], rg[1] - rg[0])))


for k in ("<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index",
          "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut",
          "<smallvec::SmallVec<A> as core::ops::index::Index<I>>::index",
          "<smallvec::SmallVec<A> as core::ops::index::IndexMut<I>>::index_mut",
          "core::array::<impl core::ops::index::Index<I> for [T; N]>::index",
          "core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut",
          "core::slice::index::<impl core::ops::index::Index<I> for [T]>::index",
          "core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut",
          "core::str::traits::<impl core::ops::index::Index<I> for str>::index"):
    MODELS[k] = seq_index


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::str::<impl str>::get")
def seq_get(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r) if isinstance(r, Ref) else r
    if not isinstance(v, Seq):
        return None
    off = r.rng[0] if r.rng else Lin(0)
    n = st.facts.norm(r.rng[1] if r.rng else v.len)
    if e.tk(c.at[1]) == "int":
        i = st.facts.norm(e.toint(c.a[1]))
        cond = lt(i, n)
        res = Ref(r.loc, r.path + (("i", off + i),))
    else:
        rg = range_of(c, c.a[1], c.at[1], n)
        if rg is None:
            return None
        cond = band(le(rg[0], rg[1]), le(rg[1], n))
        res = Ref(r.loc, r.path, (off + rg[0], rg[1] - rg[0]))
    a, b = fork_on(st, cond)
    out = []
    if a is not None:
        out.append((a, some(e, c.dt, res)))
    if b is not None:
        out.append((b, none(e, c.dt)))
    return out


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last",
       "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def seq_first(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    off = r.rng[0] if r.rng else Lin(0)
    n = st.facts.norm(v.len)
    i = Lin(0) if c.f["name"].startswith("first") else n - 1
    a, b = fork_on(st, lt(Lin(0), n))
    out = []
    if a is not None:
        out.append((a, some(e, c.dt, Ref(r.loc, r.path + (("i", off + i),)))))
    if b is not None:
        out.append((b, none(e, c.dt)))
    return out


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def split_at(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    off = r.rng[0] if r.rng else Lin(0)
    n = st.facts.norm(v.len)
    i = st.facts.norm(e.toint(c.a[1]))
    e.oblige(st, c.fr, "call:split_at", le(i, n), c.line)
    if st.facts.bad:
        return []
    return c.ret(Agg(c.dt, 0, (Ref(r.loc, r.path, (off, i)), Ref(r.loc, r.path, (off + i, n - i)))))


@model("core::slice::<impl [T]>::fill")
def seq_fill(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if isinstance(v, Seq):
        e.store(st, r, SConstRep(v.elem, c.a[1], v.len))
    return c.ret(UNIT)


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from_slice(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    s = seqval(e, st, c.a[1])
    if not isinstance(v, Seq) or s is None:
        return None
    e.oblige(st, c.fr, "call:copy_from_slice", eq(v.len, s.len), c.line)
    if st.facts.bad:
        return []
    e.store(st, r, s)
    return c.ret(UNIT)


@model("core::slice::<impl [T]>::swap")
def seq_swap(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    i, j = e.toint(c.a[1]), e.toint(c.a[2])
    e.oblige(st, c.fr, "assert:bounds", lt(i, v.len), c.line)
    e.oblige(st, c.fr, "assert:bounds", lt(j, v.len), c.line)
    if st.facts.bad:
        return []
    a, b = e.index(st, v, i), e.index(st, v, j)
    e.store(st, r, e.upd(st, e.upd(st, v, i, b), j, a))
    return c.ret(UNIT)


@model("core::slice::<impl [T]>::reverse")
def seq_reverse(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if not isinstance(v, Seq):
        return None
    e.store(st, r, reverse(v))
    return c.ret(UNIT)


def reverse(v):
    if isinstance(v, SLit):
        return SLit(v.elem, v.items[::-1])
    if isinstance(v, SCat):
        return mk_cat(v.elem, [reverse(p) for p in v.parts[::-1]])
    if isinstance(v, SFun) and v.name == "rev":
        return v.args[0]
    return SFun(v.elem, "rev", (v,), v.len)


@model("alloc::slice::<impl [T]>::sort_by", "alloc::slice::<impl [T]>::sort", "alloc::slice::<impl [T]>::sort_by_key",
       "core::slice::<impl [T]>::sort_unstable", "core::slice::<impl [T]>::sort_unstable_by",
       "core::slice::<impl [T]>::sort_unstable_by_key")
def seq_sort(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r)
    if isinstance(v, Seq):
        clo = c.a[1] if len(c.a) > 1 else None
        ck = e.T[clo.ty].get("inst") if isinstance(clo, Agg) and clo.ty is not None else None
        e.event(st, c.fr, "sort", c.line, r.loc, v, ck)
        if ck is None and c.f["name"] in ("sort", "sort_unstable") and isinstance(v, SLit) \
                and all(isinstance(x, Lin) for x in v.items) and (len(v.items) <= 4 or all(x.is_const() for x in v.items)):
            w = list(v.items)
            if len(w) > 4:
                w.sort(key=lambda x: x.c)
            else:
                for n in range(len(w) - 1, 0, -1):       # compare and exchange
                    for k in range(n):
                        a, b = w[k], w[k + 1]
                        w[k], w[k + 1] = mk_minmax("imin", a, b), mk_minmax("imax", a, b)
            e.store(st, r, SLit(v.elem, w))
            return c.ret(UNIT)
        e.store(st, r, SFun(v.elem, "sorted", (v, ck), v.len))
    return c.ret(UNIT)


def seq_eq(e, st, a, b):
    if a == b:
        return TRUE
    la, lb = st.facts.norm(a.len), st.facts.norm(b.len)
    if st.facts.decide(eq(la, lb)) is False:
        return FALSE
    if isinstance(a, SLit) and isinstance(b, SLit) and all(isinstance(x, Lin) for x in a.items + b.items):
        return band(*[eq(x, y) for x, y in zip(a.items, b.items)])
    if (isinstance(a, SLit) or isinstance(b, SLit)):
        l = a if isinstance(a, SLit) else b
        o = b if l is a else a
        n = len(l.items)
        if n <= 8 and all(isinstance(x, Lin) for x in l.items):
            if st.facts.decide(eq(la, lb)) is True:
                xs = [e.index(st, o, Lin(i)) for i in range(n)]
                if all(isinstance(x, Lin) for x in xs):
                    return band(*[eq(x, y) for x, y in zip(xs, l.items)])
    x, y = sorted((a, b), key=lambda q: (q._h, repr(q)))
    q = lit(mk(("seqeq", x, y), "b"))
    return band(eq(la, lb), q) if st.facts.decide(eq(la, lb)) is not True else q


def cmp_seq(c):
    e, st = c.e, c.st
    a, b = seqval(e, st, c.a[0]), seqval(e, st, c.a[1])
    if a is None or b is None:
        return None
    r = seq_eq(e, st, a, b)
    return c.ret(bnot(r) if c.f["name"] == "ne" else r)


for k in ("core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq",
          "core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::ne",
          "core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::ne",
          "core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq",
          "core::array::equality::<impl core::cmp::PartialEq<[U]> for [T; N]>::eq",
          "core::array::equality::<impl core::cmp::PartialEq<&[U]> for [T; N]>::eq",
          "core::str::traits::<impl core::cmp::PartialEq for str>::eq",
          "core::str::traits::<impl core::cmp::PartialEq for str>::ne",
          "<alloc::string::String as core::cmp::PartialEq>::eq",
          "<alloc::string::String as core::cmp::PartialEq<str>>::eq",
          "<alloc::string::String as core::cmp::PartialEq<&str>>::eq",
          "core::slice::<impl [T]>::eq"):
    MODELS[k] = cmp_seq


@model("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def starts_with(c):
    e, st = c.e, c.st
    a, b = seqval(e, st, c.a[0]), seqval(e, st, c.a[1])
    if a is None or b is None:
        return None
    la, lb = a.len, b.len
    fits, no = fork_on(st, le(lb, la))
    out = []
    if fits is not None:
        off = Lin(0) if c.f["name"] == "starts_with" else la - lb
        out.append((fits, seq_eq(e, fits, mk_slice2(fits, a, off, lb), b)))
    if no is not None:
        out.append((no, FALSE))
    return out


# ------------------------------------------------------------------ iterators
def make_iter(e, st, v, t=None):
    """iterator value for v (already an iterator, a reference to a sequence, or a sequence)"""
    if isinstance(v, Nat) and v.tag in ITTAGS:
        return v
    if isinstance(v, Seq):
        return Nat("into", v, Lin(0), st.facts.norm(v.len))
    if isinstance(v, Ref):
        r = sref(e, st, v)
        w = e.deref(st, r)
        if isinstance(w, Seq):
            return Nat("iter", r, Lin(0), st.facts.norm(w.len))
        if isinstance(w, Nat) and w.tag in ITTAGS:
            return Nat("byref", r)
        if isinstance(w, Agg) and w.ty is not None and is_range(e, w.ty):
            return Nat("byref", r)
        if isinstance(w, (Agg, Sym)) and w.ty is not None and find_next(e, w.ty) is not None:
            return Nat("byref", r)
        if isinstance(w, (Agg, Sym)):
            return None
    if isinstance(v, Agg) and v.ty is not None:
        if is_range(e, v.ty):
            return v
        if find_next(e, v.ty) is not None:
            return v
        x = e.T[v.ty]
        if x["k"] == "adt" and x["path"] == "core::option::Option":
            return Nat("into", SLit(None, v.fields if v.variant == 1 else ()), Lin(0), Lin(len(v.fields) if v.variant == 1 else 0))
        if x["k"] == "adt" and x["path"] == "core::result::Result":
            return Nat("into", SLit(None, v.fields if v.variant == 0 else ()), Lin(0), Lin(1 if v.variant == 0 else 0))
    if isinstance(v, Sym) and v.ty is not None and find_next(e, v.ty) is not None:
        return v
    return None


ITTAGS = {"iter", "into", "map", "enum", "filter", "filter_map", "zip", "rev", "take", "skip", "chain", "chunks",
          "windows", "cloned", "copied", "byref", "stepby", "peek", "split", "lines", "opaque", "take_while", "skip_while",
          "flat", "hashiter", "inspect", "once", "repeat", "chars", "denum", "rbytes", "skip_n", "stepn", "map_while"}

_next_cache = {}


def find_next(e, t):
    k = (id(e.C), t)
    if k in _next_cache:
        return _next_cache[k]
    r = None
    x = e.T[t]
    if x["k"] == "adt" and x.get("local"):
        nm = x["path"].split("::")[-1]
        for i, q in enumerate(e.C.insts):
            if q and q["path"].endswith("Iterator>::next") and q.get("body") and nm in q["path"]:
                b = e.C.body(i)
                lt_ = e.T[b.locals[1]]
                if lt_["k"] == "ref":
                    y = e.T[lt_["to"]]
                    if y["k"] == "adt" and y["path"] == x["path"]:
                        r = i
                        break
    _next_cache[k] = r
    return r


def is_range(e, t):
    x = e.T[t]
    return x["k"] == "adt" and x["path"] in ("core::ops::range::Range", "core::ops::range::RangeInclusive",
                                            "core::ops::range::RangeFrom")


END = Const("end")


def any_next(c, st, it):
    """an iterator nothing is known about: any element, or the end"""
    u = mk(("iterend", c.site, st.ctx), "b", weak=True)
    a, b = fork_on(st, lit(u))
    out = []
    if b is not None:
        out.append((b, Const("maybe"), it))
    if a is not None:
        out.append((a, END, it))
    return out


def it_reverse(it):
    """the iterator that yields the elements of it from the back"""
    if not isinstance(it, Nat):
        return Nat("rev", it)
    if it.tag == "rev":
        return it.args[0]
    if it.tag in ("map", "cloned", "copied", "inspect", "filter", "filter_map"):
        return Nat(it.tag, it_reverse(it.args[0]), *it.args[1:])
    if it.tag == "chain":
        return Nat("chain", it_reverse(it.args[1]), it_reverse(it.args[0]))
    if it.tag == "enum":
        n = exact_len(it.args[0])
        if n is not None:
            return Nat("denum", it_reverse(it.args[0]), it.args[1] + n - 1)
    if it.tag == "zip":
        # both sides end together only if they have the same length
        n, m = exact_len(it.args[0]), exact_len(it.args[1])
        if n is not None and n == m:
            return Nat("zip", it_reverse(it.args[0]), it_reverse(it.args[1]))
    return Nat("rev", it)


def exact_len(it):
    if isinstance(it, Nat):
        if it.tag in ("iter", "into"):
            return it.args[2] - it.args[1]
        if it.tag == "pieces":
            return it.args[2] - it.args[1]
        if it.tag in ("rev", "map", "cloned", "copied", "inspect", "enum", "denum"):
            return exact_len(it.args[0])
    return None


def iter_next(c, st, it, depth=0):
    """-> list of (state, item or END, new iterator)"""
    e = c.e
    if isinstance(it, Agg) and it.ty is not None and is_range(e, it.ty):
        p = e.T[it.ty]["path"].rsplit("::", 1)[-1]
        lo = st.facts.norm(e.toint(it.fields[0]))
        if p == "RangeFrom":
            return [(st, lo, it.with_field(0, lo + 1))]
        hi = st.facts.norm(e.toint(it.fields[1]))
        if p == "RangeInclusive":
            # exhausted flag in field 2; model as half open by moving the start past the end
            a, b = fork_on(st, le(lo, hi))
        else:
            a, b = fork_on(st, lt(lo, hi))
        out = []
        if a is not None:
            out.append((a, lo, it.with_field(0, lo + 1)))
        if b is not None:
            out.append((b, END, it))
        return out
    if not isinstance(it, Nat):
        if isinstance(it, (Agg, Sym)) and it.ty is not None:
            inst = find_next(e, it.ty)
            if inst is not None:
                tmp = ("t", c.site, "itself", depth)
                st.mem[tmp] = it
                out = []
                for s, v in e.call_inst(c.fr, inst, [Ref(tmp, ())], st, (c.site[-1], "nx", depth)):
                    nit = s.mem.pop(tmp, it)
                    out += split_option(e, s, v, nit)
                return out
        return any_next(c, st, it)
    tag = it.tag
    A = it.args
    if tag == "iter":
        pos, end = A[1], A[2]
        a, b = fork_on(st, lt(pos, end))
        out = []
        if a is not None:
            r = A[0]
            off = r.rng[0] if r.rng else Lin(0)
            x = Ref(r.loc, r.path + (("i", a.facts.norm(off + pos)),))
            if len(A) > 3:
                x = e.deref(a, x)
            out.append((a, x, Nat("iter", r, pos + 1, end, *A[3:])))
        if b is not None:
            out.append((b, END, it))
        return out
    if tag == "into":
        pos, end = A[1], A[2]
        a, b = fork_on(st, lt(pos, end))
        out = []
        if a is not None:
            out.append((a, e.index(a, A[0], pos), Nat("into", A[0], pos + 1, end)))
        if b is not None:
            out.append((b, END, it))
        return out
    if tag == "byref":
        inner = e.deref(st, A[0])
        out = []
        for s, x, n in iter_next(c, st, inner, depth + 1):
            e.store(s, A[0], n)
            out.append((s, x, it))
        return out
    if tag in ("cloned", "copied"):
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            if x is not END:
                x = e.deref(s, x) if isinstance(x, Ref) else x
            out.append((s, x, Nat(tag, n)))
        return out
    if tag == "enum":
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            if x is END:
                out.append((s, END, it))
            else:
                out.append((s, Agg(None, 0, (A[1], x)), Nat("enum", n, A[1] + 1)))
        return out
    if tag == "denum":
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            out.append((s, END, it) if x is END else (s, Agg(None, 0, (A[1], x)), Nat("denum", n, A[1] - 1)))
        return out
    if tag == "map":
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            if x is END:
                out.append((s, END, it))
            else:
                for s2, y in call_fn(c, s, A[1], [x], depth):
                    out.append((s2, y, Nat("map", n, A[1])))
        return out
    if tag == "inspect":
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            if x is END:
                out.append((s, END, it))
            else:
                for s2, y in call_fn(c, s, A[1], [tmpref(c, s, x, depth)], depth):
                    out.append((s2, x, Nat("inspect", n, A[1])))
        return out
    if tag == "zip":
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            if x is END:
                out.append((s, END, it))
                continue
            for s2, y, m in iter_next(c, s, A[1], depth + 2):
                if y is END:
                    out.append((s2, END, it))
                else:
                    out.append((s2, Agg(None, 0, (x, y)), Nat("zip", n, m)))
        return out
    if tag == "chain":
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            if x is END:
                for s2, y, m in iter_next(c, s, A[1], depth + 1):
                    out.append((s2, y, Nat("chain", n, m)))
            else:
                out.append((s, x, Nat("chain", n, A[1])))
        return out
    if tag == "take":
        a, b = fork_on(st, lt(Lin(0), A[1]))
        out = []
        if a is not None:
            for s, x, n in iter_next(c, a, A[0], depth + 1):
                out.append((s, x, Nat("take", n, A[1] - 1)))
        if b is not None:
            out.append((b, END, it))
        return out
    if tag == "rev":
        inner = A[0]
        if isinstance(inner, Nat) and inner.tag in ("iter", "into"):
            pos, end = inner.args[1], inner.args[2]
            a, b = fork_on(st, lt(pos, end))
            out = []
            if a is not None:
                if inner.tag == "iter":
                    r = inner.args[0]
                    off = r.rng[0] if r.rng else Lin(0)
                    x = Ref(r.loc, r.path + (("i", off + end - 1),))
                else:
                    x = e.index(a, inner.args[0], end - 1)
                out.append((a, x, Nat("rev", Nat(inner.tag, inner.args[0], pos, end - 1, *inner.args[3:]))))
            if b is not None:
                out.append((b, END, it))
            return out
        if isinstance(inner, Agg) and inner.ty is not None and is_range(e, inner.ty) \
                and not e.T[inner.ty]["path"].endswith("RangeFrom"):
            lo, hi = e.toint(inner.fields[0]), e.toint(inner.fields[1])
            inc = e.T[inner.ty]["path"].endswith("RangeInclusive")
            a, b = fork_on(st, le(lo, hi) if inc else lt(lo, hi))
            out = []
            if a is not None:
                out.append((a, hi if inc else hi - 1, Nat("rev", inner.with_field(1, hi - 1))))
            if b is not None:
                out.append((b, END, it))
            return out
    if tag in ("chunks", "windows"):
        r, pos, end, size = A[:4]
        exact = len(A) > 4
        off = r.rng[0] if r.rng else Lin(0)
        if tag == "chunks":
            out = []
            a, b = fork_on(st, le(pos + size, end))
            if a is not None:
                out.append((a, Ref(r.loc, r.path, (off + pos, size)), Nat("chunks", r, pos + size, end, *A[3:])))
            if b is not None:
                if not exact:
                    p, q = fork_on(b, lt(pos, end))
                    if p is not None:
                        out.append((p, Ref(r.loc, r.path, (off + pos, end - pos)), Nat("chunks", r, pos + size, end, *A[3:])))
                    if q is not None:
                        out.append((q, END, it))
                else:
                    out.append((b, END, it))
            return out
        out = []
        a, b = fork_on(st, le(pos + size, end))
        if a is not None:
            out.append((a, Ref(r.loc, r.path, (off + pos, size)), Nat("windows", r, pos + 1, end, *A[3:])))
        if b is not None:
            out.append((b, END, it))
        return out
    if tag == "stepby":
        # (inner range, step, first)
        inner, step = A
        if isinstance(inner, Agg):
            lo, hi = e.toint(inner.fields[0]), e.toint(inner.fields[1])
            a, b = fork_on(st, lt(lo, hi))
            out = []
            if a is not None:
                out.append((a, lo, Nat("stepby", inner.with_field(0, lo + step), step)))
            if b is not None:
                out.append((b, END, it))
            return out
    if tag == "chars":
        n = char_count(st, A[0])
        a, b = fork_on(st, lt(A[1], n))
        out = []
        if a is not None:
            out.append((a, L(mk(("chr", A[0], A[1]), "i", 0, 0x10FFFF)), Nat("chars", A[0], A[1] + 1)))
        if b is not None:
            out.append((b, END, it))
        return out
    if tag == "repeat":
        return [(st, A[0], it)]
    if tag == "skip_n":
        # skip n elements before the first one
        out = []
        for s, n in it_skip(c, st, A[0], A[1], depth):
            if n is None:
                return any_next(c, st, it)
            out += iter_next(c, s, n, depth + 1)
        return out
    if tag == "stepn":
        # (inner, step): one element, then step - 1 are dropped
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            out.append((s, END, it) if x is END else (s, x, Nat("stepn", Nat("skip_n", n, A[1] - 1), A[1])))
        return out
    if tag == "map_while":
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            if x is END or x is SKIP:
                out.append((s, x, Nat(tag, n, A[1])))
                continue
            for s2, o in call_fn(c, s, A[1], [x], depth):
                for s3, y, _ in split_option(e, s2, o, it):
                    out.append((s3, y, Nat(tag, n, A[1])))
        return out
    if tag == "skip_while":
        if len(A) > 2:
            return [(s, x, n if x is END else Nat(tag, n, A[1], UNIT)) for s, x, n in iter_next(c, st, A[0], depth + 1)]
        out = []
        for s, x, n in iter_next(c, st, A[0], depth + 1):
            if x is END or x is SKIP:
                out.append((s, x, Nat(tag, n, A[1])))
                continue
            for s2, b in call_fn(c, s, A[1], [tmpref(c, s, x, depth)], depth):
                p, q = fork_on(s2, e.tobool(b))
                if p is not None:
                    out.append((p, SKIP, Nat(tag, n, A[1])))
                if q is not None:
                    out.append((q, x, Nat(tag, n, A[1], UNIT)))
        return out
    if tag == "flat":
        # (outer, function or None, inner iterator or None)
        outer, fn, inner = A[0], A[1], A[2]
        if inner is not None and not (isinstance(inner, Nat) and inner.tag in ITTAGS):
            return any_next(c, st, it)
        if inner is not None:
            out = []
            for s, x, n in iter_next(c, st, inner, depth + 1):
                if x is END:
                    out.append((s, SKIP, Nat("flat", outer, fn, None)))
                else:
                    out.append((s, x, Nat("flat", outer, fn, n)))
            return out
        out = []
        for s, x, n in iter_next(c, st, outer, depth + 1):
            if x is END or x is SKIP:
                out.append((s, x, Nat("flat", n, fn, None)))
                continue
            for s2, v in (call_fn(c, s, fn, [x], depth) if fn is not None else [(s, x)]):
                for s3, w in option_states(e, s2, v):
                    q = make_iter(e, s3, w)
                    if q is None:
                        return any_next(c, st, it)
                    k = exact_len(q)
                    if k is not None and k.is_const() and k.c == 0:
                        out.append((s3, SKIP, Nat("flat", n, fn, None)))
                        continue
                    out.append((s3, SKIP, Nat("flat", n, fn, q)))
        return out
    if tag == "peek":
        if A[1] is not None:
            return [(st, A[1], Nat("peek", A[0], None))]
        return [(s, x, Nat("peek", n, None)) for s, x, n in iter_next(c, st, A[0], depth + 1)]
    if tag in ("filter", "filter_map", "split", "lines", "rbytes", "opaque", "hashiter", "take_while", "skip_while", "flat", "pieces", "rlines"):
        if tag == "split":
            return split_next(c, st, it)
        if tag == "pieces":
            return pieces_next(c, st, it)
        if tag == "lines":
            return lines_next(c, st, it)
        if tag == "rlines":
            return rlines_next(c, st, it)
        if tag == "rbytes":
            return rbytes_next(c, st, it)
        if tag == "hashiter":
            return hash_next(c, st, it)
        # the next element that passes, or the end: over-approximated by one arbitrary element
        inner = A[0]
        out = []
        for s, x, n in iter_next(c, st, inner, depth + 1):
            if x is END:
                out.append((s, END, it))
                continue
            if tag == "filter":
                for s2, b in call_fn(c, s, A[1], [tmpref(c, s, x, depth)], depth):
                    p, q = fork_on(s2, e.tobool(b))
                    if p is not None:
                        out.append((p, x, Nat(tag, n, A[1])))
                    if q is not None:
                        out.append((q, SKIP, Nat(tag, n, A[1])))
            elif tag == "filter_map":
                for s2, o in call_fn(c, s, A[1], [x], depth):
                    for s3, y, _ in split_option(e, s2, o, it):
                        out.append((s3, SKIP if y is END else y, Nat(tag, n, A[1])))
            elif tag == "take_while":
                for s2, b in call_fn(c, s, A[1], [tmpref(c, s, x, depth)], depth):
                    p, q = fork_on(s2, e.tobool(b))
                    if p is not None:
                        out.append((p, x, Nat(tag, n, A[1])))
                    if q is not None:
                        out.append((q, END, Nat(tag, n, A[1])))
            else:
                out.append((s, Const("maybe"), it))
        return out
    return any_next(c, st, it)


SKIP = Const("skip")


def option_states(e, st, v):
    """case split of an Option value (other values are left alone)"""
    r = v
    if isinstance(v, Ref):
        v = e.deref(st, v)
    if isinstance(v, Sym) and v.ty is not None and e.T[v.ty].get("path") == "core::option::Option":
        out = []
        for s, x, _ in split_option(e, st, v, None):
            if x is END:
                out.append((s, none(e, v.ty)))
            elif isinstance(r, Ref):
                out.append((s, Agg(v.ty, e.vindex(v.ty, "Some"), (Ref(r.loc, r.path + (("v", e.vindex(v.ty, "Some")), ("f", 0))),))) if False else (s, some(e, v.ty, x)))
            else:
                out.append((s, some(e, v.ty, x)))
        return out
    if isinstance(v, Agg) and v.ty is not None and e.T[v.ty].get("path") == "core::option::Option":
        return [(st, v)]
    if isinstance(v, Sym) and v.ty is not None and e.T[v.ty].get("path") == "core::result::Result":
        a, b = fork_on(st, e.variant_is(v, "Ok"))
        out = []
        if a is not None:
            out.append((a, Agg(v.ty, 0, [e.field(v, 0, 0)])))
        if b is not None:
            out.append((b, Agg(v.ty, 1, [e.field(v, 0, 1)])))
        return out
    if isinstance(v, Agg) and v.ty is not None and e.T[v.ty].get("path") == "core::result::Result":
        return [(st, v)]
    return [(st, r)]


def it_skip(c, st, it, n, depth=0):
    """drop the first n elements: [(state, iterator or None)]"""
    e = c.e
    n = st.facts.norm(n)
    if n.is_const() and n.c == 0:
        return [(st, it)]
    if isinstance(it, Agg) and it.ty is not None and is_range(e, it.ty) and not e.T[it.ty]["path"].endswith("RangeInclusive"):
        lo = e.toint(it.fields[0])
        if e.T[it.ty]["path"].endswith("RangeFrom"):
            return [(st, it.with_field(0, lo + n))]
        hi = e.toint(it.fields[1])
        a, b = fork_on(st, le(lo + n, hi))
        out = []
        if a is not None:
            out.append((a, it.with_field(0, lo + n)))
        if b is not None:
            out.append((b, it.with_field(0, hi)))
        return out
    if isinstance(it, Nat) and it.tag in ("iter", "into"):
        pos, end = it.args[1], it.args[2]
        out = []
        a, b = fork_on(st, le(pos + n, end))
        if a is not None:
            out.append((a, Nat(it.tag, it.args[0], pos + n, end, *it.args[3:])))
        if b is not None:
            out.append((b, Nat(it.tag, it.args[0], end, end, *it.args[3:])))
        return out
    if isinstance(it, Nat) and it.tag in ("cloned", "copied"):
        return [(s, None if q is None else Nat(it.tag, q)) for s, q in it_skip(c, st, it.args[0], n, depth)]
    if isinstance(it, Nat) and it.tag == "enum":
        # the counter of an exhausted iterator does not matter
        return [(s, None if q is None else Nat("enum", q, it.args[1] + n)) for s, q in it_skip(c, st, it.args[0], n, depth)]
    if isinstance(it, Nat) and it.tag == "zip":
        out = []
        for s, q in it_skip(c, st, it.args[0], n, depth):
            for s2, w in it_skip(c, s, it.args[1], n, depth):
                out.append((s2, None if q is None or w is None else Nat("zip", q, w)))
        return out
    if isinstance(it, Nat) and it.tag == "rev":
        i = it.args[0]
        if isinstance(i, Nat) and i.tag in ("iter", "into"):
            pos, end = i.args[1], i.args[2]
            out = []
            a, b = fork_on(st, le(pos + n, end))
            if a is not None:
                out.append((a, Nat("rev", Nat(i.tag, i.args[0], pos, end - n, *i.args[3:]))))
            if b is not None:
                out.append((b, Nat("rev", Nat(i.tag, i.args[0], pos, pos, *i.args[3:]))))
            return out
    if isinstance(it, Nat) and it.tag == "skip_n":
        return [(st, Nat("skip_n", it.args[0], it.args[1] + n))]
    if isinstance(it, Nat) and it.tag in ("chunks",) and not it.args[3].is_const() or not n.is_const() or n.c > 16:
        return [(st, None)]
    # a few elements: drop them one by one
    cur = [(st, it)]
    for i in range(n.c):
        nxt = []
        for s, q in cur:
            for s2, x, w in iter_next(c, s, q, depth + 1):
                if x is SKIP:
                    return [(st, None)]
                nxt.append((s2, w))
        cur = nxt
    return cur


def tmpref(c, st, v, depth=0):
    loc = ("t", c.site, "item", depth)
    st.mem[loc] = v
    return Ref(loc, ())


def split_option(e, st, v, nit):
    """Option value -> [(state, item or END, nit)]"""
    if isinstance(v, Agg):
        nm = e.variants(v.ty)[v.variant]["name"]
        return [(st, v.fields[0] if nm == "Some" else END, nit)]
    if isinstance(v, Sym):
        a, b = fork_on(st, e.variant_is(v, "Some"))
        out = []
        if a is not None:
            out.append((a, e.field(v, 0, e.vindex(v.ty, "Some")), nit))
        if b is not None:
            out.append((b, END, nit))
        return out
    return [(st, Const("maybe"), nit)]


def call_fn(c, st, f, args, depth=0, dt=None):
    res = c.e.call_value(st, c.fr, f, args, dt, c.site + ("m", depth) if not isinstance(c.site[-1], tuple) else c.site, c.line)
    return [(s, v) for s, v in res if not s.facts.bad]


def iter_model(c):
    """next() on a library iterator"""
    e, st = c.e, c.st
    r = c.a[0]
    it = e.deref(st, r)
    while isinstance(it, Ref):
        r = it
        it = e.deref(st, r)
    out = []
    todo = [(st, it, 0)]
    while todo:
        s0, i0, d = todo.pop()
        for s, x, n in iter_next(c, s0, i0):
            e.store(s, r, n)
            if x is END:
                out.append((s, none(e, c.dt)))
            elif x is SKIP:
                # the skipped prefix: havoc the position and take an arbitrary later element
                for s2, y in skip_ahead(c, s, r, n):
                    out.append((s2, y))
            else:
                out.append((s, some(e, c.dt, fix_item(e, c.dt, x))))
    return out


def fix_item(e, dt, x):
    """give tuple aggregates built by adaptors their type"""
    t = e.variants(dt)
    if t:
        for v in t:
            if v["name"] == "Some":
                ft = v["fields"][0]["ty"]
                if isinstance(x, Agg) and x.ty is None and x.fields and e.tk(ft) == "tuple":
                    return Agg(ft, 0, x.fields)
    if x == Const("maybe"):
        for v in t or []:
            if v["name"] == "Some":
                return e.symval(v["fields"][0]["ty"], ("maybeitem", v["fields"][0]["ty"]), weak=True)
    return x


def skip_ahead(c, st, r, it):
    """after skipping at least one element of a filtering iterator"""
    e = c.e
    IT = ("t", c.site, "skit")
    st.mem[IT] = it
    exits = []

    def runner(s):
        ex, ba = [], []
        for s2, x, n in iter_next(c, s, s.mem[IT]):
            s2.mem[IT] = n
            if x is END:
                ex.append(("end", s2))
            elif x is SKIP:
                ba.append(s2)
            else:
                s2.mem[("t", c.site, "skv")] = x
                ex.append(("val", s2))
        return ex, ba
    for t, s in e.fixpoint(("skip", c.site), runner, st, lambda s: None, c.fr, c.line):
        e.store(s, r, s.mem.pop(IT))
        if t == "end":
            exits.append((s, none(e, c.dt)))
        else:
            exits.append((s, some(e, c.dt, fix_item(e, c.dt, s.mem.pop(("t", c.site, "skv"))))))
    return exits


def native_loop(c, st, it, body, tag="it"):
    """drive iterator `it`; body(state, item) -> (exits [(tgt, st)], backs [st]).
    returns exits; exhaustion gives target 'end'"""
    e = c.e
    IT = ("t", c.site, tag)
    if isinstance(it, Nat) and it.tag == "flat" and it.args[2] is None and len(tag) < 12:
        # a loop over the outer iterator around a loop over each inner one
        fn = it.args[1]

        def outer(s, x):
            ex, ba = [], []
            for s2, v in (call_fn(c, s, fn, [x], 6) if fn is not None else [(s, x)]):
                for s3, w in option_states(e, s2, v):
                    q = make_iter(e, s3, w)
                    if q is None:
                        q = Nat("opaque", mk(("flatinner", c.site, s3.ctx), "o", weak=True))
                    for t, s4 in native_loop(c, s3, q, body, tag + "i"):
                        if t == "end":
                            ba.append(s4)
                        else:
                            ex.append((t, s4))
            return ex, ba
        return native_loop(c, st, it.args[0], outer, tag + "o")
    q = it
    while isinstance(q, Nat) and q.tag in ("map", "cloned", "copied", "inspect"):
        q = q.args[0]
    if q is not it and isinstance(q, Nat) and q.tag == "flat" and q.args[2] is None:
        # the element-wise adaptor moves into the body
        def inner(s, x):
            ex, ba = [], []
            if it.tag == "map":
                xs = call_fn(c, s, it.args[1], [x], 7)
            elif it.tag == "inspect":
                xs = [(s2, x) for s2, _ in call_fn(c, s, it.args[1], [tmpref(c, s, x, 8)], 7)]
            else:
                xs = [(s, e.deref(s, x) if isinstance(x, Ref) else x)]
            for s2, y in xs:
                a, b = body(s2, y)
                ex += a
                ba += b
            return ex, ba
        return native_loop(c, st, it.args[0], inner, tag)
    st.mem[IT] = it

    def runner(s):
        ex, ba = [], []
        for s2, x, n in iter_next(c, s, s.mem[IT]):
            if s2.facts.bad:
                continue
            s2.mem[IT] = n
            if x is END:
                ex.append(("end", s2))
            elif x is SKIP:
                ba.append(s2)
            else:
                a, b = body(s2, x)
                ex += a
                ba += b
        ba = e.merge_states([b for b in ba if not b.facts.bad], (c.site, tag, "nb"), e.cap)
        return ex, ba

    def pr(s):
        for l in [l for l in s.mem if l[0] == "t" and len(l) > 3 and l[1] == c.site and l[2] == "item"]:
            s.mem.pop(l)
    res = e.fixpoint(("nat", c.site, tag), runner, st, pr, c.fr, c.line, "end")
    for _, s in res:
        s.mem.pop(IT, None)
    return res


def native_collect(c, st, it, elem, derefs=False):
    """collect all items into a sequence -> [(state, Seq)]"""
    e = c.e
    ACC = ("t", c.site, "acc")
    st.mem[ACC] = SLit(elem, ())

    def body(s, x):
        if derefs and isinstance(x, Ref):
            x = e.deref(s, x)
        s.mem[ACC] = mk_cat(elem, [s.mem[ACC], SLit(elem, [fixty(e, elem, x)])])
        return [], [s]
    out = []
    for t, s in native_loop(c, st, it, body):
        out.append((s, s.mem.pop(ACC)))
    return out


def fixty(e, t, x):
    if t is not None and isinstance(x, Agg) and x.ty is None and x.fields and e.tk(t) == "tuple":
        return Agg(t, 0, x.fields)
    return x


def it_of(c, i=0):
    return make_iter(c.e, c.st, c.a[i], c.at[i] if c.at else None)


@it_method("iter", "iter_mut")
def m_iter(c):
    e, st = c.e, c.st
    r = sref(e, st, c.a[0])
    v = e.deref(st, r) if isinstance(r, Ref) else r
    if isinstance(v, Seq):
        if not isinstance(r, Ref):
            return None
        return c.ret(Nat("iter", r, Lin(0), st.facts.norm(v.len)))
    return None


for k in ("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut"):
    MODELS[k] = m_iter


def into_iter(c):
    it = it_of(c)
    if it is None:
        return None
    if isinstance(it, Nat) and it.tag == "byref":
        return c.ret(c.a[0])
    return c.ret(it)


for k in ("<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
          "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
          "<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
          "<smallvec::SmallVec<A> as core::iter::traits::collect::IntoIterator>::into_iter",
          "<&'a smallvec::SmallVec<A> as core::iter::traits::collect::IntoIterator>::into_iter",
          "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
          "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
          "core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter",
          "core::array::<impl core::iter::traits::collect::IntoIterator for &'a mut [T; N]>::into_iter",
          "core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter",
          "alloc::boxed::iter::<impl core::iter::traits::collect::IntoIterator for alloc::boxed::Box<[I], A>>::into_iter",
          "alloc::boxed::iter::<impl core::iter::traits::collect::IntoIterator for &'a alloc::boxed::Box<[I], A>>::into_iter",
          "alloc::boxed::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut alloc::boxed::Box<[I], A>>::into_iter",
          "core::iter::traits::collect::IntoIterator::into_iter|unresolved"):
    MODELS[k] = into_iter


def adaptor(tag, n=1):
    def f(c):
        it = it_of(c)
        if it is None:
            return None
        return c.ret(Nat(tag, it, *c.a[1:1 + n]))
    return f


for nm, tag, n in (("map", "map", 1), ("filter", "filter", 1), ("filter_map", "filter_map", 1),
                   ("cloned", "cloned", 0), ("copied", "copied", 0), ("inspect", "inspect", 1),
                   ("take_while", "take_while", 1)):
    ITER[nm] = adaptor(tag, n)


@it_method("rev")
def m_rev(c):
    it = it_of(c)
    return None if it is None else c.ret(it_reverse(it))


@it_method("enumerate")
def m_enumerate(c):
    it = it_of(c)
    return None if it is None else c.ret(Nat("enum", it, Lin(0)))


@it_method("take")
def m_take(c):
    it = it_of(c)
    return None if it is None else c.ret(Nat("take", it, c.e.toint(c.a[1])))


@it_method("skip")
def m_skip(c):
    it = it_of(c)
    if isinstance(it, Nat) and it.tag in ("iter", "into"):
        n = c.e.toint(c.a[1])
        pos, end = it.args[1], it.args[2]
        out = []
        a, b = fork_on(c.st, le(pos + n, end))
        if a is not None:
            out.append((a, Nat(it.tag, it.args[0], pos + n, end, *it.args[3:])))
        if b is not None:
            out.append((b, Nat(it.tag, it.args[0], end, end, *it.args[3:])))
        return out
    return None if it is None else c.ret(Nat("skip_n", it, c.e.toint(c.a[1])))


@it_method("zip", "chain")
def m_zip(c):
    it = it_of(c)
    o = make_iter(c.e, c.st, c.a[1], c.at[1])
    if it is None or o is None:
        return None
    return c.ret(Nat(c.f["name"], it, o))


@it_method("step_by")
def m_step(c):
    it = it_of(c)
    if it is None:
        return None
    step = c.e.toint(c.a[1])
    if isinstance(it, Agg) and c.e.T[it.ty]["path"].endswith("::Range"):
        return c.ret(Nat("stepby", it, step))
    return c.ret(Nat("stepn", it, step))


def chunk_model(tag, exact):
    def f(c):
        e, st = c.e, c.st
        r = sref(e, st, c.a[0])
        v = e.deref(st, r)
        if not isinstance(v, Seq):
            return None
        n = st.facts.norm(e.toint(c.a[1]))
        e.oblige(st, c.fr, "call:chunk-size", lt(Lin(0), n), c.line)
        if st.facts.bad:
            return []
        a = (r, Lin(0), st.facts.norm(v.len), n) + ((UNIT,) if exact else ())
        return c.ret(Nat(tag, *a))
    return f


MODELS["core::slice::<impl [T]>::chunks"] = chunk_model("chunks", False)
MODELS["core::slice::<impl [T]>::chunks_exact"] = chunk_model("chunks", True)
MODELS["core::slice::<impl [T]>::chunks_mut"] = chunk_model("chunks", False)
MODELS["core::slice::<impl [T]>::chunks_exact_mut"] = chunk_model("chunks", True)
MODELS["core::slice::<impl [T]>::windows"] = chunk_model("windows", False)


@it_method("next")
def m_next(c):
    return iter_model(c)


@it_method("collect")
def m_collect(c):
    e, st = c.e, c.st
    it = it_of(c)
    if it is None:
        return None
    t = c.dt
    el = e.C.elem_of(t)
    if el is not None:
        w = whole_seq(e, st, it) if not (isinstance(it, Nat) and it.tag == "iter" and e.tk(el) == "ref") else None
        if w is not None:
            return c.ret(w)
        return native_collect(c, st, it, el)
    x = e.T[t]
    if x["k"] == "adt" and x["path"] == "core::result::Result":
        vt = ok_ty(e, t)
        el = e.C.elem_of(vt)
        if el is None:
            return None
        ACC = ("t", c.site, "acc")
        EV = ("t", c.site, "err")
        st.mem[ACC] = SLit(el, ())

        def body(s, y):
            ex, ba = [], []
            if isinstance(y, (Agg, Sym)) and y.ty is not None and e.T[y.ty].get("path") == "core::result::Result":
                a, b = fork_on(s, e.variant_is(y, "Ok"))
                if a is not None:
                    v = e.field(y, 0, e.vindex(y.ty, "Ok"))
                    a.mem[ACC] = mk_cat(el, [a.mem[ACC], SLit(el, [v])])
                    ba.append(a)
                if b is not None:
                    b.mem[EV] = e.field(y, 0, e.vindex(y.ty, "Err"))
                    ex.append(("err", b))
            else:
                a = s.fork()
                a.mem[ACC] = mk_cat(el, [a.mem[ACC], SLit(el, [e.unknown(s, el, c.site, "cl")])])
                ba.append(a)
                s.mem[EV] = e.unknown(s, err_ty(e, t), c.site, "ce")
                ex.append(("err", s))
            return ex, ba
        out = []
        for tg, s in native_loop(c, st, it, body):
            a = s.mem.pop(ACC)
            v = s.mem.pop(EV, None)
            out.append((s, ok(e, t, a) if tg == "end" else err(e, t, v)))
        return out
    if x["k"] == "adt" and x["path"] == "core::option::Option":
        vt = e.variants(t)[e.vindex(t, "Some")]["fields"][0]["ty"]
        el = e.C.elem_of(vt)
        if el is None:
            return None
        ACC = ("t", c.site, "acc")
        st.mem[ACC] = SLit(el, ())

        def body(s, y):
            ex, ba = [], []
            for s2, v, _ in split_option(e, s, y, None):
                if v is END:
                    ex.append(("none", s2))
                else:
                    s2.mem[ACC] = mk_cat(el, [s2.mem[ACC], SLit(el, [v])])
                    ba.append(s2)
            return ex, ba
        out = []
        for tg, s in native_loop(c, st, it, body):
            a = s.mem.pop(ACC)
            out.append((s, some(e, t, a) if tg == "end" else none(e, t)))
        return out
    return None


@it_method("for_each")
def m_for_each(c):
    it = it_of(c)
    if it is None:
        return None

    def body(s, x):
        return [], [s2 for s2, _ in call_fn(c, s, c.a[1], [x], 3)]
    return [(s, UNIT) for _, s in native_loop(c, c.st, it, body)]


@it_method("try_for_each")
def m_try_for_each(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    RV = ("t", c.site, "tfe")

    def body(s, x):
        ex, ba = [], []
        for s2, v in call_fn(c, s, c.a[1], [x], 3):
            if isinstance(v, (Agg, Sym)) and v.ty is not None:
                a, b = fork_on(s2, e.variant_is(v, "Ok"))
                if a is not None:
                    ba.append(a)
                if b is not None:
                    b.mem[RV] = v
                    ex.append(("err", b))
        return ex, ba
    out = []
    for t, s in native_loop(c, c.st, it, body):
        v = s.mem.pop(RV, None)
        out.append((s, ok(e, c.dt) if t == "end" else (v if v is not None else e.unknown(s, c.dt, c.site))))
    return out


@it_method("fold")
def m_fold(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    ACC = ("t", c.site, "fold")
    c.st.mem[ACC] = c.a[1]

    def body(s, x):
        out = []
        for s2, v in call_fn(c, s, c.a[2], [s.mem[ACC], x], 3):
            s2.mem[ACC] = v
            out.append(s2)
        return [], out
    return [(s, s.mem.pop(ACC)) for _, s in native_loop(c, c.st, it, body)]


@it_method("all", "any")
def m_all(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    isall = c.f["name"] == "all"
    if isinstance(c.a[0], Ref):
        # the iterator is taken by mutable reference; it is not used again in practice
        pass

    def body(s, x):
        ex, ba = [], []
        for s2, b in call_fn(c, s, c.a[1], [x], 3):
            p, q = fork_on(s2, e.tobool(b))
            if p is not None:
                (ba if isall else ex).append(p if isall else ("brk", p))
            if q is not None:
                (ex if isall else ba).append(("brk", q) if isall else q)
        return ex, ba
    out = []
    for t, s in native_loop(c, c.st, it, body):
        full = t == "end"
        out.append((s, TRUE if full == isall else FALSE))
    return out


@it_method("position", "find")
def m_position(c):
    e = c.e
    it = it_of(c)
    if it is None:
        return None
    IX = ("t", c.site, "posi")
    FV = ("t", c.site, "posv")
    c.st.mem[IX] = Lin(0)
    isfind = c.f["name"] == "find"

    def body(s, x):
        ex, ba = [], []
        for s2, b in call_fn(c, s, c.a[1], [tmpref(c, s, x, 5) if isfind else x], 3):
            p, q = fork_on(s2, e.tobool(b))
            if p is not None:
                p.mem[FV] = x
                ex.append(("brk", p))
            if q is not None:
                q.mem[IX] = q.mem[IX] + 1
                ba.append(q)
        return ex, ba
    out = []
    for t, s in native_loop(c, c.st, it, body):
        ix = s.mem.pop(IX)
        fv = s.mem.pop(FV, None)
        if t == "end":
            out.append((s, none(e, c.dt)))
        else:
            out.append((s, some(e, c.dt, fv if isfind else ix)))
    return out


@it_method("count")
def m_count(c):
    it = it_of(c)
    if isinstance(it, Nat) and it.tag in ("iter", "into"):
        return c.ret(it.args[2] - it.args[1])
    if isinstance(it, Nat) and it.tag == "chars":
        return c.ret(char_count(c.st, it.args[0]) - it.args[1])
    if it is None:
        return None
    N = ("t", c.site, "cnt")
    c.st.mem[N] = Lin(0)

    def body(s, x):
        s.mem[N] = s.mem[N] + 1
        return [], [s]
    return [(s, s.mem.pop(N)) for _, s in native_loop(c, c.st, it, body)]


@it_method("sum")
def m_sum(c):
    e = c.e
    it = it_of(c)
    if it is None or e.tk(c.dt) != "int":
        return None
    N = ("t", c.site, "sum")
    c.st.mem[N] = Lin(0)
    rg = e.C.int_range(c.dt)

    def body(s, x):
        v = e.toint(dv(e, s, x))
        r = s.mem[N] + v
        e.oblige(s, c.fr, "assert:overflow:Add", band(le(r, Lin(rg[1])), le(Lin(rg[0]), r)), c.line, "sum")
        s.mem[N] = r
        return [], [s] if not s.facts.bad else []
    return [(s, s.mem.pop(N)) for _, s in native_loop(c, c.st, it, body)]


@it_method("max", "min")
def m_max(c):
    """Option of the extreme element of an integer sequence"""
    e, st = c.e, c.st
    if len(c.a) != 1:
        return None
    it = it_of(c)
    if not (isinstance(it, Nat) and it.tag in ("iter", "into", "copied", "cloned")):
        return None
    deref = False
    if it.tag in ("copied", "cloned"):
        deref = True
        it = it.args[0]
    if not (isinstance(it, Nat) and it.tag in ("iter", "into")):
        return None
    pos, end = it.args[1], it.args[2]
    out = []
    a, b = fork_on(st, lt(pos, end))
    nm = c.f["name"]
    if b is not None:
        out.append((b, none(e, c.dt)))
    if a is not None:
        s = e.deref(a, it.args[0]) if it.tag == "iter" else it.args[0]
        j = mk(("arg" + nm, mk_slice2(a, s, pos, end - pos)), "i", 0, ISIZE_MAX)
        J = L(j)
        a.facts.assume(le(pos, J))
        a.facts.assume(lt(J, end))
        v = e.index(a, s, J)
        if isinstance(v, Lin):
            extreme_fact(e, a, s, pos, end, v, nm)
        if it.tag == "iter":
            r = it.args[0]
            off = r.rng[0] if r.rng else Lin(0)
            res = Ref(r.loc, r.path + (("i", off + J),))
            if deref:
                res = v
        else:
            res = v
        out.append((a, some(e, c.dt, res)))
    return out


def base_of(s):
    """(symbolic base sequence, offset) behind slices"""
    off = Lin(0)
    while isinstance(s, SSlice):
        off = off + s.off
        s = s.seq
    if isinstance(s, SSym):
        return s, off
    return None, None


def extreme_fact(e, st, s, lo, hi, v, nm):
    b, off = base_of(s)
    lo, hi = st.facts.norm(lo), st.facts.norm(hi)
    if lo.is_const() and hi.is_const() and hi.c - lo.c <= 64:
        for i in range(lo.c, hi.c):
            x = e.index(st, s, Lin(i))
            if isinstance(x, Lin):
                st.facts.assume(le(x, v) if nm == "max" else le(v, x))
        return
    if b is None:
        return
    bv = mk(("bvx", b.base, lo, hi, nm), "i", 0, 1 << 64)
    el = e.symval(b.elem, ("el", b.base, off + L(bv)))
    if not isinstance(el, Lin):
        return
    f = le(el, v) if nm == "max" else le(v, el)
    st.facts.foralls = st.facts.foralls + (e.Forall(bv, lo, hi, ((f,),), {b.base: off}),)


@it_method("size_hint", "partial_cmp", "cmp", "cycle", "dedup")
def m_unmodelled(c):
    return None


# ------------------------------------------------------------------ hash maps
def hash_next(c, st, it):
    e = c.e
    m, n = it.args
    a, b = fork_on(st, lt(n, m.args[0]))
    out = []
    if a is not None:
        x = Agg(None, 0, (Ref(("m", mk(("hkey", m, n, c.site), "o", weak=True), it_kty(m)), ()),
                          Ref(("m", mk(("hval", m, n, c.site), "o", weak=True), m.args[2].args[0] if False else it_vty(m)), ())))
        out.append((a, x, Nat("hashiter", m, n + 1)))
    if b is not None:
        out.append((b, END, it))
    return out


def it_kty(m):
    return m.args[1]


def it_vty(m):
    return m.args[2]


@model("std::collections::hash::map::HashMap::<K, V>::with_capacity", "std::collections::hash::map::HashMap::<K, V>::new",
       "<std::collections::hash::map::HashMap<K, V, S> as core::default::Default>::default")
def hm_new(c):
    ar = c.e.C.args(c.e.T[c.dt])
    if c.a:
        c.e.event(c.st, c.fr, "alloc", c.line, c.e.toint(c.a[0]), None)
    return c.ret(Nat("hmap", Lin(0), ar[0], ar[1]))


@model("std::collections::hash::map::HashMap::<K, V, S, A>::entry")
def hm_entry(c):
    return c.ret(Nat("hentry", sref2(c.e, c.st, c.a[0]), c.a[1]))


def sref2(e, st, v):
    while isinstance(v, Ref):
        w = e.deref(st, v)
        if isinstance(w, Ref):
            v = w
        else:
            return v
    return v


@model("std::collections::hash::map::Entry::<'a, K, V, A>::or_insert_with",
       "std::collections::hash::map::Entry::<'a, K, V, A>::or_insert")
def hm_or_insert(c):
    e, st = c.e, c.st
    en = c.a[0]
    if not (isinstance(en, Nat) and en.tag == "hentry"):
        return None
    mr = en.args[0]
    m = e.deref(st, mr)
    out = []
    old = st.fork()
    x = e.symval(e.T[c.dt]["to"], ("hmv", c.site, st.ctx), weak=True)
    loc = ("t", c.site, "hmv", len(st.ctx))
    # existing entry
    n = m.args[0]
    a, b = fork_on(old, lt(Lin(0), n))
    if a is not None:
        a.mem[loc] = x
        out.append((a, Ref(loc, ())))
    # new entry
    if c.f["name"] == "or_insert_with":
        for s, v in call_fn(c, st, c.a[1], [], 2):
            s.mem[loc] = v
            e.store(s, mr, Nat("hmap", n + 1, m.args[1], m.args[2]))
            out.append((s, Ref(loc, ())))
    else:
        st.mem[loc] = c.a[1]
        e.store(st, mr, Nat("hmap", n + 1, m.args[1], m.args[2]))
        out.append((st, Ref(loc, ())))
    return out


@model("std::collections::hash::map::HashMap::<K, V, S, A>::iter", "std::collections::hash::map::HashMap::<K, V, S>::iter")
def hm_iter(c):
    m = dv(c.e, c.st, c.a[0])
    c.e.event(c.st, c.fr, "hash-iter", c.line)
    if isinstance(m, Nat) and m.tag == "hmap":
        return c.ret(Nat("hashiter", m, Lin(0)))
    return None


@model("std::collections::hash::map::HashMap::<K, V, S, A>::len")
def hm_len(c):
    m = dv(c.e, c.st, c.a[0])
    if isinstance(m, Nat) and m.tag == "hmap":
        return c.ret(m.args[0])
    return None


# ------------------------------------------------------------------ strings
def sub_str(e, key, n=None):
    """fresh string contents"""
    return SSym(e._u8, mk(key, "o"), n if n is not None else L(mk(("len", mk(key, "o")), "i", 0, ISIZE_MAX)))


def char_count(st, s):
    if isinstance(s, SLit) and all(isinstance(x, Lin) and x.is_const() and x.c < 128 for x in s.items):
        return Lin(len(s.items))
    n = L(mk(("chars", s), "i", 0, ISIZE_MAX))
    st.facts.assume(le(n, s.len))
    st.facts.assume(le(s.len, n.scale(4)))
    return n


# text made of known characters and opaque words ("word", name, kind): a word is a non-empty run of
# characters that are neither white space nor '/' nor '#'; kind "int" is a decimal number from 1 to
# 2^31, kind "float" a decimal number with a fraction
def text_items(s):
    if isinstance(s, SLit):
        if all(isinstance(x, Lin) and x.is_const() and 0 < x.c < 128 for x in s.items):
            return [x.c for x in s.items]
        return None
    if isinstance(s, SSym) and s.base.key[0] == "word":
        return [s]
    if isinstance(s, SCat):
        out = []
        for p in s.parts:
            q = text_items(p)
            if q is None:
                return None
            out += q
        return out
    return None


def text_seq(e, items):
    return mk_cat(e._u8, [SLit(e._u8, (Lin(x),)) if isinstance(x, int) else x for x in items])


def word_kind(s):
    return s.base.key[2] if isinstance(s, SSym) and s.base.key[0] == "word" else None


def text_pred(c, st, pat, name=""):
    """what a text pattern says about one character: a function of a character code, None when the
    pattern is not understood"""
    e = c.e
    if name == "split_whitespace":
        return lambda x: x in WHITE
    if name == "split_ascii_whitespace":
        return lambda x: x in (9, 10, 12, 13, 32)
    if name == "lines":
        return lambda x: x == 10
    v = dv(e, st, pat)
    if isinstance(v, Lin):
        return (lambda x: x == v.c) if v.is_const() else None
    if isinstance(v, Seq):
        q = text_items(v)
        if q is None or any(not isinstance(x, int) for x in q):
            return None
        if v.elem is not None and e.tk(v.elem) == "char":
            return lambda x: x in q
        return (lambda x: x == q[0]) if len(q) == 1 else None

    def f(x):
        try:
            r = call_fn(c, st.fork(), pat, [Lin(x)], "pat")
        except Exception:
            return None
        bs = {y for _, y in r}
        if len(bs) == 1:
            b = next(iter(bs))
            return True if b is TRUE else False if b is FALSE else None
        return None
    return f


WHITE = (9, 10, 11, 12, 13, 32)
WORD_CHARS = [ord(x) for x in "0123456789+-.eEaZ_"]


def text_marks(c, st, s, pat, name=""):
    """(items of the text, which of them the pattern matches) or None"""
    it = text_items(s)
    if it is None:
        return None
    p = text_pred(c, st, pat, name)
    if p is None:
        return None
    m = {x: p(x) for x in set(y for y in it if isinstance(y, int))}
    if any(not isinstance(x, int) for x in it):
        m.update({x: p(x) for x in WORD_CHARS})
        if any(m[x] is not False for x in WORD_CHARS):
            return None
    if any(v is None for v in m.values()):
        return None
    return it, [isinstance(x, int) and m[x] for x in it]


def text_pieces(c, st, s, pat, name):
    """the fields of a known text, None when it or the pattern is not known"""
    q = text_marks(c, st, s, pat, name)
    if q is None:
        return None
    it, on = q
    out, cur = [], []
    for x, b in zip(it, on):
        if b:
            if name == "split_inclusive":
                cur.append(x)
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur or name in ("split",):
        out.append(cur)
    if name == "lines":
        out = [x[:-1] if x and x[-1] == 13 else x for x in out]
    if name in ("split_whitespace", "split_ascii_whitespace"):
        out = [x for x in out if x]
    return tuple(text_seq(c.e, x) for x in out)


class Pieces(V):
    """the parts a known text was split into"""
    __slots__ = ("of",)

    def __init__(self, of):
        self.of = of
        self._init(of)

    def map(self, f):
        return Pieces(tuple(f(x) for x in self.of))

    def __repr__(self):
        return f"pieces{self.of!r}"


def pieces_next(c, st, it):
    ps, n, m = it.args
    if not n.is_const():
        return any_next(c, st, it)
    if n.c >= m.c:
        return [(st, END, it)]
    return [(st, Ref(("k", ps.of[n.c]), ()), Nat("pieces", ps, n + 1, m))]


@model("core::str::<impl str>::chars", "core::str::<impl str>::char_indices")
def str_chars(c):
    s = seqval(c.e, c.st, c.a[0])
    if s is None or c.f["name"] != "chars":
        return None
    return c.ret(Nat("chars", s, Lin(0)))


@model("core::str::<impl str>::split", "core::str::<impl str>::split_whitespace",
       "core::str::<impl str>::lines", "core::str::<impl str>::split_ascii_whitespace", "core::str::<impl str>::split_inclusive")
def str_split(c):
    s = seqval(c.e, c.st, c.a[0])
    if s is None:
        return None
    ps = text_pieces(c, c.st, s, c.a[1] if len(c.a) > 1 else None, c.f["name"])
    if ps is not None:
        return c.ret(Nat("pieces", Pieces(ps), Lin(0), Lin(len(ps))))
    pat = dv(c.e, c.st, c.a[1]) if len(c.a) > 1 else None
    if isinstance(pat, (Lin, Seq)):
        pass
    else:
        pat = Const(c.f["name"])
    return c.ret(Nat("split", s, pat, Lin(0)))


def split_next(c, st, it):
    """field number n of the text; the number of fields is unknown but at least one for split"""
    e = c.e
    s, pat, n = it.args
    nf = L(mk(("nfields", s, pat), "i", 1 if not isinstance(pat, Const) else 0, ISIZE_MAX))
    a, b = fork_on(st, lt(n, nf))
    out = []
    if a is not None:
        f = sub_str(e, ("field", s, pat, n))
        a.facts.assume(le(f.len, s.len))
        out.append((a, Ref(("k", f), ()), Nat("split", s, pat, n + 1)))
    if b is not None:
        out.append((b, END, it))
    return out


@model("core::str::<impl str>::parse")
def str_parse(c):
    e, st = c.e, c.st
    s = seqval(e, st, c.a[0])
    if s is None:
        return None
    vt = ok_ty(e, c.dt)
    if word_kind(s) == "int" and e.tk(vt) == "int" and e.C.int_range(vt)[1] >= 1 << 31:
        return c.ret(ok(e, c.dt, L(mk(("number", s), "i", 1, 1 << 31))))
    if word_kind(s) == "float" and e.tk(vt) == "float":
        return c.ret(ok(e, c.dt, e.symval(vt, ("parse", s, e.tt(vt)))))
    if (word_kind(s) == "float" and e.tk(vt) == "int" or isinstance(s, SLit) and not s.items) and e.tk(vt) in ("int", "float"):
        return c.ret(err(e, c.dt, Sym(err_ty(e, c.dt), mk(("perr", s), "o"))))
    it = text_items(s) if isinstance(s, SLit) else None
    if it and e.tk(vt) == "int" and all(48 <= x < 58 for x in it):
        n = int(bytes(it))
        if n <= e.C.int_range(vt)[1]:
            return c.ret(ok(e, c.dt, Lin(n)))
    good = mk(("parses", s, e.tt(vt)), "b")
    a, b = fork_on(st, lit(good))
    out = []
    if a is not None:
        out.append((a, ok(e, c.dt, e.symval(vt, ("parse", s, e.tt(vt))))))
    if b is not None:
        out.append((b, err(e, c.dt, Sym(err_ty(e, c.dt), mk(("perr", s), "o")))))
    return out


@model("core::str::converts::from_utf8", "alloc::string::String::from_utf8")
def from_utf8(c):
    e, st = c.e, c.st
    s = seqval(e, st, c.a[0])
    if s is None:
        return None
    good = lit(mk(("utf8", s), "b"))
    if isinstance(s, SLit) and all(isinstance(i, Lin) and i.is_const() for i in s.items):
        try:
            bytes(i.c for i in s.items).decode()
            good = TRUE
        except ValueError:
            good = FALSE
    if text_items(s) is not None or isinstance(s, SSym) and s.base.key[0] == "in" and str(s.base.key[1]).startswith("text:"):
        good = TRUE         # the bytes of a `str`
    x, y = fork_on(st, good)
    out = []
    if x is not None:
        v = c.a[0] if e.tk(ok_ty(e, c.dt)) == "ref" else s
        out.append((x, ok(e, c.dt, v)))
    if y is not None:
        out.append((y, err(e, c.dt, Sym(err_ty(e, c.dt), mk(("u8err", s), "o")))))
    return out


@model("core::str::<impl str>::trim", "core::str::<impl str>::trim_end", "core::str::<impl str>::trim_start")
def str_trim(c):
    s = seqval(c.e, c.st, c.a[0])
    if s is None:
        return None
    q = text_marks(c, c.st, s, None, "split_whitespace")
    if q is not None:
        it, on = q
        nm = c.f["name"]
        a, b = 0, len(it)
        while nm != "trim_end" and a < b and on[a]:
            a += 1
        while nm != "trim_start" and a < b and on[b - 1]:
            b -= 1
        return c.ret(Ref(("k", text_seq(c.e, it[a:b])), ()))
    f = sub_str(c.e, (c.f["name"], s))
    c.st.facts.assume(le(f.len, s.len))
    return c.ret(Ref(("k", f), ()))


# ------------------------------------------------------------------ integers
def le_bytes(order):
    def f(c):
        v = c.a[0]
        e = c.e
        n = c.e.T[c.dt]["len"]
        if isinstance(v, Lin):
            v = c.st.facts.norm(v)
            if v.is_const():
                bs = (v.c % (1 << (8 * n))).to_bytes(n, "little" if order != "be" else "big")
                return c.ret(SLit(e._u8, [Lin(x) for x in bs]))
            if n == 1:
                return c.ret(SLit(e._u8, [v]))
        return c.ret(SLe(e._u8, v, n, order))
    return f


def from_bytes(order):
    def f(c):
        e, st = c.e, c.st
        s = seqval(e, st, c.a[0])
        if s is None:
            return None
        return c.ret(join_bytes(e, st, s, c.dt, order))
    return f


def join_bytes(e, st, s, t, order):
    x = e.T[t]
    n = x["bits"] // 8
    if isinstance(s, SLe) and s.n == n and s.order == order:
        if x["k"] == "int" and isinstance(s.val, Lin):
            return s.val
        if x["k"] == "float" and isinstance(s.val, Atom) and s.val.ty == x["bits"]:
            return s.val
    if x["k"] == "int" and not x["signed"] and isinstance(s, SLit) and len(s.items) == n and all(isinstance(q, Lin) for q in s.items):
        r = Lin(0)
        items = s.items if order != "be" else s.items[::-1]
        for i, q in enumerate(items):
            r = r + q.scale(1 << (8 * i))
        return r
    if x["k"] == "int":
        lo, hi = e.C.int_range(t)
        return L(mk(("bytes" + order, s, n), "i", lo, hi))
    return mk(("fbytes" + order, s, n), "f", ty=x["bits"])


for ty in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
    p = f"core::num::<impl {ty}>::"
    for o in ("le", "be", "ne"):
        MODELS[p + f"to_{o}_bytes"] = le_bytes("le" if o == "ne" else o)
        MODELS[p + f"from_{o}_bytes"] = from_bytes("le" if o == "ne" else o)
for ty in ("f32", "f64"):
    for q in ("core", "std"):
        p = f"{q}::{ty}::<impl {ty}>::"
        for o in ("le", "be", "ne"):
            MODELS[p + f"to_{o}_bytes"] = le_bytes("le" if o == "ne" else o)
            MODELS[p + f"from_{o}_bytes"] = from_bytes("le" if o == "ne" else o)


def int_method(name):
    def d(f):
        for ty in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
            MODELS[f"core::num::<impl {ty}>::{name}"] = f
        return f
    return d


def self_range(c):
    return c.e.C.int_range(c.at[0])


@int_method("wrapping_add")
def wr_add(c):
    return c.ret(c.e.fit(c.st, c.e.toint(c.a[0]) + c.e.toint(c.a[1]), self_range(c)))


@int_method("wrapping_sub")
def wr_sub(c):
    return c.ret(c.e.fit(c.st, c.e.toint(c.a[0]) - c.e.toint(c.a[1]), self_range(c)))


@int_method("wrapping_mul")
def wr_mul(c):
    return c.ret(c.e.fit(c.st, c.e.mul(c.st, c.e.toint(c.a[0]), c.e.toint(c.a[1])), self_range(c)))


def checked(op):
    def f(c):
        e, st = c.e, c.st
        a, b = e.toint(c.a[0]), e.toint(c.a[1])
        rg = self_range(c)
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = e.mul(st, st.facts.norm(a), st.facts.norm(b))
        elif op in ("div", "rem"):
            nz, z = fork_on(st, bnot(eq(b, Lin(0))))
            out = []
            if nz is not None:
                v = e.div(nz, a, b, rg) if op == "div" else mk_rem(nz.facts.norm(a), nz.facts.norm(b))
                out.append((nz, some(e, c.dt, v)))
            if z is not None:
                out.append((z, none(e, c.dt)))
            return out
        elif op in ("shl", "shr"):
            bits = (rg[1] - rg[0] + 1).bit_length() - 1
            y, n = fork_on(st, lt(b, Lin(bits)))
            out = []
            if y is not None:
                out.append((y, some(e, c.dt, e.shl(y, a, b, rg) if op == "shl" else e.shr(y, a, b, rg))))
            if n is not None:
                out.append((n, none(e, c.dt)))
            return out
        y, n = fork_on(st, band(le(r, Lin(rg[1])), le(Lin(rg[0]), r)))
        out = []
        if y is not None:
            out.append((y, some(e, c.dt, r)))
        if n is not None:
            out.append((n, none(e, c.dt)))
        return out
    return f


for op in ("add", "sub", "mul", "div", "rem", "shl", "shr"):
    int_method("checked_" + op)(checked(op))


def saturating(op):
    def f(c):
        e, st = c.e, c.st
        a, b = e.toint(c.a[0]), e.toint(c.a[1])
        rg = self_range(c)
        r = a + b if op == "add" else (a - b if op == "sub" else e.mul(st, st.facts.norm(a), st.facts.norm(b)))
        out = []
        hi, rest = fork_on(st, lt(Lin(rg[1]), r))
        if hi is not None:
            out.append((hi, Lin(rg[1])))
        if rest is not None:
            lo, mid = fork_on(rest, lt(r, Lin(rg[0])))
            if lo is not None:
                out.append((lo, Lin(rg[0])))
            if mid is not None:
                out.append((mid, r))
        return out
    return f


for op in ("add", "sub", "mul"):
    int_method("saturating_" + op)(saturating(op))


@int_method("unsigned_abs")
def unsigned_abs(c):
    e, st = c.e, c.st
    a = e.toint(c.a[0])
    out = []
    x, y = fork_on(st, le(Lin(0), a))
    if x is not None:
        out.append((x, a))
    if y is not None:
        out.append((y, -a))
    return out


@int_method("abs_diff")
def abs_diff(c):
    e, st = c.e, c.st
    a, b = e.toint(c.a[0]), e.toint(c.a[1])
    out = []
    x, y = fork_on(st, le(b, a))
    if x is not None:
        out.append((x, a - b))
    if y is not None:
        out.append((y, b - a))
    return out


@int_method("count_ones")
def count_ones(c):
    v = c.st.facts.norm(c.e.toint(c.a[0]))
    if v.is_const() and v.c >= 0:
        return c.ret(Lin(bin(v.c).count("1")))
    rg = self_range(c)
    n = (rg[1] - rg[0] + 1).bit_length() - 1
    a = mk(("popcount", v), "i", 0, n)
    A = L(a)
    c.st.facts.assume(bor(bnot(eq(v, Lin(0))), eq(A, Lin(0))))
    c.st.facts.assume(bor(eq(v, Lin(0)), le(Lin(1), A)))
    clz_facts(c.e, c.st, v, n)
    return c.ret(A)


@int_method("leading_zeros")
def leading_zeros(c):
    v = c.st.facts.norm(c.e.toint(c.a[0]))
    rg = self_range(c)
    n = (rg[1] - rg[0] + 1).bit_length() - 1
    if v.is_const() and v.c >= 0:
        return c.ret(Lin(n - v.c.bit_length()))
    lo, hi = c.st.facts.bounds(v)
    l = 0 if hi == INF else max(0, n - int(hi).bit_length())
    h = n if lo == -INF else n - int(max(lo, 0)).bit_length()
    if l == h:
        return c.ret(Lin(l))
    a = mk(("clz", v, n), "i", 0, n)
    A = L(a)
    c.st.facts.assume(le(Lin(l), A))
    c.st.facts.assume(le(A, Lin(h)))
    clz_facts(c.e, c.st, v, n)
    return c.ret(A)


def clz_facts(e, st, v, n):
    """2^(n-1-clz) <= v < 2^(n-clz), and v is that power when it has a single bit set"""
    A = L(mk(("clz", v, n), "i", 0, n))
    if st.facts.bounds(v)[0] < 1:
        if st.facts.bounds(v)[0] == 0:
            p = e.pow2(st, Lin(n) - A)
            st.facts.assume(lt(v, p))
            st.facts.assume(bor(eq(v, Lin(0)), le(p, v.scale(2))))
        return
    st.facts.assume(le(A, Lin(n - 1)))
    p = e.pow2(st, Lin(n - 1) - A)
    st.facts.assume(le(p, v))
    st.facts.assume(lt(v, p.scale(2)))
    pc = mk(("popcount", v), "i", 0, n)
    st.facts.assume(bor(bnot(eq(L(pc), Lin(1))), eq(v, p)))


@int_method("trailing_zeros")
def trailing_zeros(c):
    v = c.st.facts.norm(c.e.toint(c.a[0]))
    return c.ret(L(mk(("ctz", v), "i", 0, 64)))


@int_method("pow")
def int_pow(c):
    e, st = c.e, c.st
    b, x = st.facts.norm(e.toint(c.a[0])), st.facts.norm(e.toint(c.a[1]))
    rg = self_range(c)
    if b.is_const() and b.c == 2 and st.facts.bounds(x)[0] >= 0:
        r = e.pow2(st, x)
    elif b.is_const() and x.is_const() and x.c < 200:
        r = Lin(b.c ** x.c)
    else:
        r = L(mk(("ipow", b, x), "i", rg[0], rg[1]))
    e.oblige(st, c.fr, "assert:overflow:pow", le(r, Lin(rg[1])), c.line)
    return c.ret(r) if not st.facts.bad else []


@model("core::cmp::Ord::min|unresolved", "core::cmp::Ord::max|unresolved", "core::cmp::Ord::min", "core::cmp::Ord::max",
       "core::cmp::min", "core::cmp::max",
       "core::cmp::impls::<impl core::cmp::Ord for usize>::min", "core::cmp::impls::<impl core::cmp::Ord for usize>::max")
def ord_minmax(c):
    e, st = c.e, c.st
    if e.tk(c.dt) != "int":
        return None
    return minmax(e, st, e.toint(c.a[0]), e.toint(c.a[1]), "max" if c.f["name"] == "max" else "min")


def minmax(e, st, a, b, nm):
    a, b = st.facts.norm(a), st.facts.norm(b)
    d = st.facts.decide(le(a, b))
    if d is not None:
        return [(st, (a if d else b) if nm == "min" else (b if d else a))]
    # relational atom instead of a fork
    r = mk_minmax("i" + nm, a, b)
    st.facts.assume(bor(eq(r, a), eq(r, b)))
    return [(st, r)]


@model("core::cmp::Ord::clamp", "core::cmp::Ord::clamp|unresolved", *["core::cmp::impls::<impl core::cmp::Ord for %s>::clamp" % t for t in
       ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")])
def ord_clamp(c):
    e, st = c.e, c.st
    if e.tk(c.dt) != "int":
        return None
    x, lo, hi = (st.facts.norm(e.toint(v)) for v in c.a)
    e.oblige(st, c.fr, "call:clamp", le(lo, hi), c.line)
    (st, y), = minmax(e, st, x, lo, "max")
    return minmax(e, st, y, hi, "min")


for nm in ("integer_max", "integer_min"):
    def _mk(nm):
        def f(c):
            return minmax(c.e, c.st, c.e.toint(c.a[0]), c.e.toint(c.a[1]), nm[-3:])
        return f
    MODELS[f"core::intrinsics::{nm}|intrinsic"] = _mk(nm)
    MODELS[f"core::intrinsics::{nm}"] = _mk(nm)


@model("core::intrinsics::discriminant_value", "core::intrinsics::discriminant_value|intrinsic")
def discriminant_value(c):
    v = dv(c.e, c.st, c.a[0])
    if isinstance(v, (Agg, Sym)):
        return c.ret(c.e.discr(v))
    if isinstance(v, FnV):
        return None
    if c.e.opt.get("debug"):
        print("discriminant_value?", c.a[0], v, c.fr.chain)
    return None


@model("core::intrinsics::assert_inhabited", "core::intrinsics::assert_inhabited|intrinsic")
def nop(c):
    return c.ret(UNIT)


@model("core::intrinsics::typed_swap_nonoverlapping", "core::intrinsics::typed_swap_nonoverlapping|intrinsic")
def typed_swap(c):
    e, st = c.e, c.st
    a, b = e.deref(st, c.a[0]), e.deref(st, c.a[1])
    e.store(st, c.a[0], b)
    e.store(st, c.a[1], a)
    return c.ret(UNIT)


@model("core::mem::swap")
def mem_swap(c):
    return typed_swap(c)


@model("core::mem::replace")
def mem_replace(c):
    e, st = c.e, c.st
    old = e.deref(st, c.a[0])
    e.store(st, c.a[0], c.a[1])
    return c.ret(old)


@model("core::mem::size_of")
def size_of(c):
    t = c.targ(0)
    n = c.e.C.size(t) if t is not None else None
    return c.ret(Lin(n)) if n is not None else None


@model("core::clone::Clone::clone|shim", "core::clone::Clone::clone|unresolved")
def clone_shim(c):
    v = c.e.deref(c.st, c.a[0]) if isinstance(c.a[0], Ref) else c.a[0]
    return c.ret(v)


# ------------------------------------------------------------------ floats
def fm(name):
    def d(f):
        for ty in ("f32", "f64"):
            for q in ("core", "std"):
                MODELS[f"{q}::{ty}::<impl {ty}>::{name}"] = f
        return f
    return d


def fbits(c):
    return c.e.T[c.at[0]]["bits"]


def fun1(name):
    def f(c):
        from .interp import fval, fconst_
        a = c.e.tofloat(c.a[0], fbits(c))
        v = fval(a)
        if v is not None:
            import math
            try:
                r = {"abs": abs, "ceil": math.ceil, "floor": math.floor, "sqrt": math.sqrt}[name](v)
                if name in ("abs", "ceil", "floor"):
                    return c.ret(fconst_(float(r), a.ty))
            except (KeyError, ValueError, OverflowError):
                pass
        return c.ret(mk(("f" + name, a), "f", ty=a.ty))
    return f


for nm in ("abs", "ceil", "floor", "sqrt", "log2", "acos", "asin", "sin", "cos", "tan", "round", "trunc", "ln", "log10", "exp",
           "fract", "signum", "recip", "to_radians", "to_degrees", "exp2", "cbrt"):
    fm(nm)(fun1(nm))


def fun2(name):
    def f(c):
        from .interp import fval, fconst_
        b = fbits(c)
        x, y = c.e.tofloat(dv(c.e, c.st, c.a[0]), b), c.e.tofloat(dv(c.e, c.st, c.a[1]), b)
        vx, vy = fval(x), fval(y)
        if vx is not None and vy is not None and name in ("min", "max") and vx == vx and vy == vy:
            return c.ret(fconst_((min if name == "min" else max)(vx, vy), b))
        return c.ret(mk(("f" + name, x, y), "f", ty=b))
    return f


for nm in ("min", "max", "powf", "atan2", "copysign", "hypot", "rem_euclid"):
    fm(nm)(fun2(nm))


@fm("powi")
def f_powi(c):
    return c.ret(mk(("fpowi", c.e.tofloat(c.a[0], fbits(c)), c.e.toint(c.a[1])), "f", ty=fbits(c)))


@fm("mul_add")
def f_mul_add(c):
    from .interp import farith
    b = fbits(c)
    x, y, z = (c.e.tofloat(q, b) for q in c.a)
    return c.ret(farith("Add", farith("Mul", x, y, b), z, b))


@fm("clamp")
def f_clamp(c):
    b = fbits(c)
    x, y, z = (c.e.tofloat(q, b) for q in c.a)
    c.e.oblige(c.st, c.fr, "call:clamp", lit(mk(("fle", y, z), "b")) if not (y.key[0] == "fconst" and z.key[0] == "fconst" and y.key[1] <= z.key[1]) else TRUE, c.line)
    if c.st.facts.bad:
        return []
    return c.ret(mk(("fmin", mk(("fmax", x, y), "f", ty=b), z), "f", ty=b))


def fpred(name):
    def f(c):
        from .interp import fval
        a = c.e.tofloat(c.a[0], fbits(c))
        v = fval(a)
        if v is not None:
            r = {"is_nan": v != v, "is_finite": v == v and v not in (INF, -INF), "is_infinite": v in (INF, -INF),
                 "is_sign_negative": str(v).startswith("-"), "is_sign_positive": not str(v).startswith("-")}.get(name)
            if r is not None:
                return c.ret(TRUE if r else FALSE)
        return c.ret(lit(mk((name, a), "b")))
    return f


for nm in ("is_nan", "is_finite", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal"):
    fm(nm)(fpred(nm))


@fm("to_bits")
def f_to_bits(c):
    a = c.e.tofloat(c.a[0], fbits(c))
    return c.ret(L(mk(("fbits", a), "i", 0, (1 << fbits(c)) - 1)))


@fm("from_bits")
def f_from_bits(c):
    from .interp import float_bits
    l = c.st.facts.norm(c.e.toint(c.a[0]))
    b = c.e.T[c.dt]["bits"]
    if l.is_const():
        return c.ret(float_bits(l.c, b))
    at = l.single()
    if at is not None and at.key[0] == "fbits":
        return c.ret(at.key[1])
    return c.ret(mk(("frombits", l), "f", ty=b))


@fm("sin_cos")
def f_sin_cos(c):
    a = c.e.tofloat(c.a[0], fbits(c))
    return c.ret(Agg(c.dt, 0, (mk(("fsin", a), "f", ty=a.ty), mk(("fcos", a), "f", ty=a.ty))))


def arith_refs(op):
    def f(c):
        e, st = c.e, c.st
        a, b = dv(e, st, c.a[0]), dv(e, st, c.a[1])
        t = c.dt
        if e.tk(t) == "float":
            return c.ret(e.fbin(op, e.tofloat(a, e.T[t]["bits"]), e.tofloat(b, e.T[t]["bits"]), e.T[t]["bits"]))
        if e.tk(t) == "int":
            rg = e.C.int_range(t)
            x, y = st.facts.norm(e.toint(a)), st.facts.norm(e.toint(b))
            if op in ("Div", "Rem") and rg[0] == 0:
                e.oblige(st, c.fr, "assert:div0", bnot(eq(y, Lin(0))), c.line)
                return [] if st.facts.bad else c.ret(e.div(st, x, y, rg) if op == "Div" else mk_rem(x, y))
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: e.mul(st, x, y)}.get(op)
            if r is None:
                return None
            r = r()
            e.oblige(st, c.fr, "assert:overflow:" + op, band(le(r, Lin(rg[1])), le(Lin(rg[0]), r)), c.line)
            return c.ret(r) if not st.facts.bad else []
        return None
    return f


for ty in ("f32", "f64", "u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize"):
    for tr, op in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
        for k in (f"<&{ty} as core::ops::arith::{tr}<{ty}>>::{op}", f"<{ty} as core::ops::arith::{tr}<&{ty}>>::{op}",
                  f"<&{ty} as core::ops::arith::{tr}<&{ty}>>::{op}", f"<&'a {ty} as core::ops::arith::{tr}<{ty}>>::{op}",
                  f"<{ty} as core::ops::arith::{tr}<&'a {ty}>>::{op}"):
            MODELS[k] = arith_refs(tr)


# ------------------------------------------------------------------ panics
def panic_model(c):
    msg = c.f["name"]
    if c.a:
        v = c.a[0]
        w = dv(c.e, c.st, v)
        if isinstance(w, SLit) and all(isinstance(x, Lin) and x.is_const() for x in w.items):
            msg = bytes(x.c for x in w.items).decode("utf8", "replace")
        elif isinstance(w, Nat) and w.tag == "fmt":
            msg = "".join(bytes(x.c for x in p.items).decode("utf8", "replace") if isinstance(p, SLit) and all(isinstance(x, Lin) and x.is_const() for x in p.items) else "{}" for p in w.args)
    if c.f["name"] in ("assert_failed",):
        msg = "assert_eq/ne"
    if c.f["name"].startswith("unwrap_failed"):
        msg = "unwrap"
    c.e.panic(c.st, c.fr, "panic:" + msg[:60], c.line)
    return []


PREFIX_MODELS.append(("core::panicking::", panic_model))
PREFIX_MODELS.append(("std::panicking::", panic_model))
for k in ("core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
          "core::result::unwrap_failed::unwrap_failed_inner"):
    MODELS[k] = panic_model


@model("std::process::abort", "std::process::exit", "core::intrinsics::abort")
def proc_exit(c):
    c.e.panic(c.st, c.fr, "panic:process exit", c.line)
    return []


# ------------------------------------------------------------------ formatting
def disp_text(e, v):
    """text produced by Display for v"""
    if isinstance(v, Seq):
        return v
    k = ("disp", v)
    return SFun(e._u8, "disp", (v,), L(mk(("displen", v), "i", 0, ISIZE_MAX)))


for k in ("new_display", "new_debug", "new_lower_hex", "new_upper_hex", "new_lower_exp", "new_upper_exp", "new_binary"):
    def _mkarg(k):
        def f(c):
            return c.ret(Nat("fmtarg", Const(k), dv(c.e, c.st, c.a[0])))
        return f
    MODELS[f"core::fmt::rt::Argument::<'_>::{k}"] = _mkarg(k)


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new_const",
       "core::fmt::Arguments::<'a>::new_const")
def fmt_from_str(c):
    s = seqval(c.e, c.st, c.a[0])
    return c.ret(Nat("fmt", s if s is not None else text(c.e, "?")))


@model("core::fmt::Arguments::<'a>::new", "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new_v1")
def fmt_new(c):
    e, st = c.e, c.st
    tpl = seqval(e, st, c.a[0])
    args = seqval(e, st, c.a[1])
    pieces = []
    if not (isinstance(tpl, SLit) and isinstance(args, SLit)):
        return c.ret(Nat("fmt", SFun(e._u8, "fmt?", (c.site,), L(mk(("fmtlen", c.site), "i", 0, ISIZE_MAX, None, True)))))
    bs = bytes(x.c for x in tpl.items)
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            pieces.append(SLit(e._u8, [Lin(x) for x in bs[i:i + b]]))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            pieces.append(SLit(e._u8, [Lin(x) for x in bs[i:i + n]]))
            i += n
        else:
            opts = ()
            if b & 1:
                opts += (("flags", bs[i:i + 4]),)
                i += 4
            if b & 2:
                opts += (("width", bs[i:i + 2]),)
                i += 2
            if b & 4:
                opts += (("prec", bs[i:i + 2]),)
                i += 2
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            a = args.items[nxt] if nxt < len(args.items) else None
            nxt += 1
            if isinstance(a, Nat) and a.tag == "fmtarg":
                kind = a.args[0].what
                v = a.args[1]
                if kind == "new_display" and not opts:
                    pieces.append(disp_text(e, v))
                else:
                    pieces.append(SFun(e._u8, kind, (v, repr(opts)), L(mk(("fmtlen", kind, v, repr(opts)), "i", 0, ISIZE_MAX))))
            else:
                pieces.append(SFun(e._u8, "fmt?", (c.site, nxt), L(mk(("fmtlen", c.site, nxt), "i", 0, ISIZE_MAX, None, True))))
    return c.ret(Nat("fmt", *pieces))


@model("alloc::fmt::format", "alloc::fmt::format::format_inner")
def fmt_format(c):
    v = c.a[0]
    if isinstance(v, Nat) and v.tag == "fmt":
        return c.ret(mk_cat(c.e._u8, v.args))
    return None


def fmt_res(c):
    e = c.e
    x = mk(("fmtok", c.site, c.st.ctx), "b")
    a, b = fork_on(c.st, lit(x))
    out = []
    if a is not None:
        out.append((a, ok(e, c.dt)))
    if b is not None:
        out.append((b, err(e, c.dt, Sym(err_ty(e, c.dt), mk(("fmterr", c.site), "o")))))
    return out


PREFIX_MODELS.append(("core::fmt::Formatter::<'a>::", fmt_res))
PREFIX_MODELS.append(("core::fmt::num::", fmt_res))
PREFIX_MODELS.append(("core::fmt::", fmt_res))


@model("std::io::stdio::_print", "std::io::stdio::_eprint")
def print_(c):
    c.e.event(c.st, c.fr, "print", c.line)
    return c.ret(UNIT)


@model("<&T as thiserror::display::AsDisplay<'a>>::as_display", "<T as thiserror::aserror::AsDynError<'a>>::as_dyn_error")
def as_disp(c):
    return c.ret(c.a[0])


# ------------------------------------------------------------------ errors
@model("alloc::io::error::<impl core::io::error::Error>::new", "<core::io::error::Error as core::convert::From<core::io::error::ErrorKind>>::from",
       "alloc::io::error::<impl core::io::error::Error>::other")
def io_error_new(c):
    k = c.a[0] if c.f["name"] != "other" else UNIT
    return c.ret(Sym(c.dt, mk(("newerr", k, c.site), "o")))


PREFIX_MODELS.append(("core::io::error::Error::", lambda c: c.ret(c.fresh("ioerrq"))))
PREFIX_MODELS.append(("alloc::io::error::", lambda c: c.ret(c.fresh("ioerrq"))))


# ------------------------------------------------------------------ readers
def reader_of(e, st, v):
    """-> ('slice', ref to the slice reference) | ('ext', key) | ('nat', ref, value) | None"""
    r = v
    n = 0
    while True:
        if isinstance(r, Nat) and r.tag == "bufreader":
            r = r.args[0]
            continue
        if not isinstance(r, Ref):
            if isinstance(r, Sym):
                return ("ext", r.base)
            return None
        w = e.deref(st, r)
        if isinstance(w, Ref):
            x = e.deref(st, w)
            if isinstance(x, Seq):
                return ("slice", r)
            r = w
            n += 1
            if n > 12:
                return None
            continue
        if isinstance(w, Sym):
            return ("ext", w.base)
        if isinstance(w, Seq):
            return ("seq", r)
        if isinstance(w, Nat) and w.tag == "bufreader":
            r = w.args[0]
            continue
        if isinstance(w, Nat):
            return ("nat", r)
        if isinstance(w, Agg):
            # a user defined wrapper
            return None
        return None


def note_read(e, st, c, kind, *data):
    e.event(st, c.fr, "read", c.line, kind, *data)


def gset(st, g, v=TRUE):
    st.mem[g] = v


def rd_resolve(e, st, v):
    """-> ('slice', ref to the slice reference) | ('ext', key) | ('nat', ref, adapter) | None"""
    r, at = v, None
    for _ in range(16):
        if isinstance(r, Nat):
            if r.tag == "bufreader":
                r, at = r.args[0], None
                continue
            return ("nat", at, r) if r.tag in ("take", "cursor", "rchain", "rempty") else None
        if isinstance(r, Sym):
            return ("ext", r.base)
        if not isinstance(r, Ref):
            return None
        w = e.deref(st, r)
        if isinstance(w, Ref) and isinstance(e.deref(st, w), Seq):
            return ("slice", r)
        r, at = w, r
    return None


def rd_exact(c, st, v, n):
    """read exactly n bytes from v: list of (state, 'ok' | 'end' | 'err', bytes); at the end of the source
    nothing is taken"""
    e = c.e
    src = rd_resolve(e, st, v)
    if src is None:
        return None
    if src[0] == "slice":
        sr = src[1]
        s = e.deref(st, sr)
        data = e.deref(st, s)
        total = st.facts.norm(data.len)
        a, b = fork_on(st, le(n, total))
        out = []
        if a is not None:
            off = s.rng[0] if s.rng else Lin(0)
            part = mk_slice2(a, data, Lin(0), n)
            e.store(a, sr, Ref(s.loc, s.path, (off + n, total - n)))
            out.append((a, "ok", part))
        if b is not None:
            gset(b, G_SHORT)
            note_read(e, b, c, "short")
            out.append((b, "end", None))
        return out
    if src[0] == "ext":
        note_read(e, st, c, "exact", src[1], n)
        bad = st.fork()
        data = SSym(e._u8, mk(("rd", c.site, st.ctx), "o"), n)
        g = st.mem.get(G_IN)
        if isinstance(g, Seq):
            st.mem[G_IN] = mk_cat(e._u8, [g, data])
        out = [(st, "ok", data)]
        # a zero length read never fails
        if st.facts.decide(eq(n, Lin(0))) is not True:
            gset(bad, G_IOERR)
            out.append((bad, "err", None))
        return out
    at, nat = src[1], src[2]
    if nat.tag == "rempty":
        a, b = fork_on(st, eq(n, Lin(0)))
        out = []
        if a is not None:
            out.append((a, "ok", SLit(e._u8, ())))
        if b is not None:
            gset(b, G_SHORT)
            out.append((b, "end", None))
        return out
    if at is None:
        return None
    if nat.tag == "take":
        inner, lim = nat.args
        a, b = fork_on(st, le(n, lim))
        out = []
        if a is not None:
            r = rd_exact(c, a, inner, n)
            if r is None:
                return None
            for s, k, d in r:
                if k == "ok":
                    e.store(s, at, Nat("take", inner, lim - n))
                out.append((s, k, d))
        if b is not None:
            gset(b, G_SHORT)
            out.append((b, "end", None))
        return out
    if nat.tag == "cursor":
        data, pos = nat.args
        q = seqval(e, st, data)
        if q is None:
            return None
        a, b = fork_on(st, le(pos + n, q.len))
        out = []
        if a is not None:
            e.store(a, at, Nat("cursor", data, pos + n))
            out.append((a, "ok", mk_slice2(a, q, pos, n)))
        if b is not None:
            gset(b, G_SHORT)
            out.append((b, "end", None))
        return out
    return None


def rd_some(c, st, v, n, kind="partial", all_=False):
    """read at most n bytes (None: without a bound), everything there is when all_ is set:
    list of (state, 'ok' | 'err', bytes)"""
    e = c.e
    src = rd_resolve(e, st, v)
    if src is None:
        return None
    if src[0] == "slice" or src[0] == "nat" and src[2].tag == "cursor":
        if src[0] == "slice":
            sr = src[1]
            s = e.deref(st, sr)
            data = e.deref(st, s)
            off, total = (s.rng[0] if s.rng else Lin(0)), st.facts.norm(data.len)

            def adv(x, k):
                e.store(x, sr, Ref(s.loc, s.path, (off + k, total - k)))
                return mk_slice2(x, data, Lin(0), k)
        else:
            at, nat = src[1], src[2]
            data = seqval(e, st, nat.args[0])
            if data is None or at is None:
                return None
            pos = nat.args[1]
            total = st.facts.norm(data.len - pos)

            def adv(x, k):
                e.store(x, at, Nat("cursor", nat.args[0], pos + k))
                return mk_slice2(x, data, pos, k)
        if n is None:
            return [(st, "ok", adv(st, total))]
        out = []
        a, b = fork_on(st, le(n, total))
        if a is not None:
            out.append((a, "ok", adv(a, n)))
        if b is not None:
            gset(b, G_SHORT)
            out.append((b, "ok", adv(b, total)))
        return out
    if src[0] == "ext":
        note_read(e, st, c, "to_end" if n is None else kind, src[1], n)
        bad = st.fork()
        gset(bad, G_IOERR)
        out = []
        if n is not None:
            # all of it, or less because the source ends (or, for one call, because it wants to)
            full = st.fork()
            d = SSym(e._u8, mk(("rd", c.site, st.ctx), "o"), n)
            g = full.mem.get(G_IN)
            if isinstance(g, Seq):
                full.mem[G_IN] = mk_cat(e._u8, [g, d])
            out.append((full, "ok", d))
            if all_:
                gset(st, G_SHORT)
            else:
                # one call may deliver less than there is; nothing at all means the end
                zero = st.fork()
                gset(zero, G_SHORT)
                out.append((zero, "ok", SLit(e._u8, ())))
        k = L(mk(("rdn", c.site, st.ctx), "i", 0 if all_ or n is None else 1, ISIZE_MAX))
        if n is not None:
            st.facts.assume(lt(k, n))
        if not st.facts.bad:
            d = SSym(e._u8, mk(("rd", c.site, st.ctx, "part"), "o"), k)
            g = st.mem.get(G_IN)
            if isinstance(g, Seq):
                st.mem[G_IN] = mk_cat(e._u8, [g, d])
            out.append((st, "ok", d))
        out.append((bad, "err", None))
        return out
    at, nat = src[1], src[2]
    if nat.tag == "rempty":
        return [(st, "ok", SLit(e._u8, ()))]
    if nat.tag == "take" and at is not None:
        inner, lim = nat.args
        out = []
        if n is None:
            cases = [(st, lim)]
        else:
            a, b = fork_on(st, le(n, lim))
            cases = [(x, k) for x, k in ((a, n), (b, lim)) if x is not None]
        for x, k in cases:
            r = rd_some(c, x, inner, k, kind, all_)
            if r is None:
                return None
            for s, st_, d in r:
                if d is not None:
                    e.store(s, at, Nat("take", inner, lim - d.len))
                out.append((s, st_, d))
        return out
    return None


def read_exact(c):
    e, st = c.e, c.st
    br = sref(e, st, c.a[1])
    buf = e.deref(st, br) if isinstance(br, Ref) else None
    if not isinstance(buf, Seq):
        return None
    r = rd_exact(c, st, c.a[0], st.facts.norm(buf.len))
    if r is None:
        return None
    out = []
    for s, k, d in r:
        if k == "ok":
            e.store(s, br, d)
            out.append((s, ok(e, c.dt)))
        else:
            out.append((s, err(e, c.dt, fresh_err(c))))
    return out


def read_partial(c):
    e, st = c.e, c.st
    br = sref(e, st, c.a[1])
    buf = e.deref(st, br) if isinstance(br, Ref) else None
    if not isinstance(buf, Seq):
        return None
    r = rd_some(c, st, c.a[0], st.facts.norm(buf.len))
    if r is None:
        return None
    out = []
    for s, k, d in r:
        if k == "ok":
            e.store(s, br, mk_cat(e._u8, [d, mk_slice2(s, buf, d.len, buf.len - d.len)]))
            out.append((s, ok(e, c.dt, d.len)))
        else:
            out.append((s, err(e, c.dt, fresh_err(c))))
    return out


def read_to_end(c):
    e, st = c.e, c.st
    br = sref(e, st, c.a[1])
    buf = e.deref(st, br) if isinstance(br, Ref) else None
    if not isinstance(buf, Seq):
        return None
    r = rd_some(c, st, c.a[0], None, all_=True)
    if r is None:
        return None
    out = []
    for s, k, d in r:
        if k == "ok":
            e.store(s, br, mk_cat(e._u8, [e.deref(s, br), d]))
            out.append((s, ok(e, c.dt, d.len)))
        else:
            out.append((s, err(e, c.dt, fresh_err(c))))
    return out


def rd_take_new(c):
    return c.ret(Nat("take", c.a[0], c.e.toint(c.a[1])))


def rd_by_ref(c):
    return c.ret(c.a[0])


def rd_bytes(c):
    return c.ret(Nat("rbytes", c.a[0]))


def rbytes_next(c, st, it):
    e = c.e
    if c.dt is None or e.T[c.dt].get("path") != "core::option::Option":
        return any_next(c, st, it)
    t = e.variants(c.dt)[e.vindex(c.dt, "Some")]["fields"][0]["ty"]
    r = rd_exact(c, st, it.args[0], Lin(1))
    if r is None:
        return None
    out = []
    for s, k, d in r:
        if k == "ok":
            out.append((s, ok(e, t, e.index(s, d, Lin(0))), it))
        elif k == "end":
            out.append((s, END, it))
        else:
            out.append((s, err(e, t, Sym(err_ty(e, t), mk(("ioerr", c.site, s.ctx), "o"))), it))
    return out


READ_METHODS = {"read_exact": read_exact, "read": read_partial, "read_to_end": read_to_end, "read_to_string": read_to_end,
                "take": rd_take_new, "by_ref": rd_by_ref}
for k in ("alloc::io::impls::<impl alloc::io::read::Read for &[u8]>::", "alloc::io::impls::<impl alloc::io::read::Read for &mut R>::",
          "alloc::io::read::Read::", "<alloc::io::buffered::bufreader::BufReader<R> as alloc::io::read::Read>::",
          "<alloc::io::util::Take<T> as alloc::io::read::Read>::", "<alloc::io::read::Take<T> as alloc::io::read::Read>::",
          "<alloc::io::Take<T> as alloc::io::read::Read>::", "<alloc::io::cursor::Cursor<T> as alloc::io::read::Read>::",
          "alloc::io::cursor::<impl alloc::io::read::Read for core::io::cursor::Cursor<T>>::",
          "alloc::io::impls::<impl alloc::io::read::Read for alloc::boxed::Box<R>>::",
          "<core::io::util::Empty as alloc::io::read::Read>::"):
    for sfx in ("", "|unresolved"):
        for m, h in READ_METHODS.items():
            MODELS[k + m + sfx] = h


def io_copy(c):
    e, st = c.e, c.st
    w = writer_of(e, st, c.a[1])
    if w is None:
        return None
    r = rd_some(c, st, c.a[0], None, all_=True)
    if r is None:
        return None
    out = []
    for s, k, d in r:
        if k != "ok":
            out.append((s, err(e, c.dt, fresh_err(c))))
            continue
        q = emit(c, s, w, d)
        if q is None:
            return None
        for s2, o in q:
            out.append((s2, ok(e, c.dt, d.len) if o else err(e, c.dt, fresh_err(c))))
    return out


for k in ("std::io::copy::copy", "alloc::io::copy::copy"):
    MODELS[k] = io_copy


@model("alloc::io::buffered::bufreader::BufReader::<R>::new", "alloc::io::buffered::bufreader::BufReader::<R>::with_capacity")
def bufreader_new(c):
    src = reader_of(c.e, c.st, c.a[-1])
    c.e.event(c.st, c.fr, "bufreader", c.line, src is not None and src[0] == "ext")
    return c.ret(Nat("bufreader", c.a[-1]))


@model("alloc::io::buf_read::BufRead::lines")
def bufread_lines(c):
    e, st = c.e, c.st
    src = rd_resolve(e, st, c.a[0])
    if src is not None and src[0] == "slice":
        d = seqval(e, st, src[1])
        ps = text_pieces(c, st, d, None, "lines") if d is not None else None
        if ps is not None:
            note_read(e, st, c, "line")
            e.store(st, src[1], Ref(("k", SLit(d.elem, ())), (), (Lin(0), Lin(0))))
            return c.ret(Nat("rlines", Pieces(ps), Lin(0), Lin(len(ps))))
    return c.ret(Nat("lines", c.a[0], Lin(0)))


def rlines_next(c, st, it):
    e = c.e
    ps, n, m = it.args
    if not n.is_const():
        return any_next(c, st, it)
    if n.c >= m.c:
        return [(st, END, it)]
    if c.dt is None or e.T[c.dt].get("path") != "core::option::Option":
        return any_next(c, st, it)
    t = e.variants(c.dt)[e.vindex(c.dt, "Some")]["fields"][0]["ty"]
    return [(st, ok(e, t, ps.of[n.c]), Nat("rlines", ps, n + 1, m))]


def lines_next(c, st, it):
    e = c.e
    r, n = it.args
    note_read(e, st, c, "line")
    good, bad, end = st, st.fork(), st.fork()
    s = SSym(e._u8, mk(("line", c.site, st.ctx, n), "o"), L(mk(("len", mk(("line", c.site, st.ctx, n), "o")), "i", 0, ISIZE_MAX)))
    if c.dt is None or e.T[c.dt].get("path") != "core::option::Option":
        return any_next(c, st, it)
    t = e.variants(c.dt)[e.vindex(c.dt, "Some")]["fields"][0]["ty"]
    gset(bad, G_IOERR)
    nx = Nat("lines", r, n + 1)
    return [(good, ok(e, t, s), nx), (bad, err(e, t, Sym(err_ty(e, t), mk(("ioerr", c.site, st.ctx), "o"))), nx), (end, END, it)]


# ------------------------------------------------------------------ writers
def bit_widths(s):
    """smallest and largest width of the items of a bit sequence"""
    if isinstance(s, SLit):
        r = None
        for x in s.items:
            if not (isinstance(x, Nat) and x.tag == "bit"):
                return None
            lo, hi = interval(x.args[0])
            if hi == INF:
                return None
            lo = max(lo, 0)
            r = (lo, hi) if r is None else (min(lo, r[0]), max(hi, r[1]))
        return r
    ps = s.parts if isinstance(s, SCat) else [p for _, p in s.alts] if isinstance(s, SRep) else None
    if not ps:
        return None
    r = [bit_widths(p) for p in ps]
    if any(x is None for x in r):
        return None
    return min(x[0] for x in r), max(x[1] for x in r)


class SBits(Seq):
    """bytes produced by packing a sequence of bit items and padding to a whole byte"""
    __slots__ = ("items",)

    def __init__(self, elem, items):
        self.elem = elem
        self.items = items
        self._init(elem, items)

    @property
    def len(self):
        a = mk(("bitbytes", self.items), "i", 0, (1 << 60))
        if not a.axioms:
            w = bit_widths(self.items)
            if w is not None:
                n = self.items.len
                a.axioms = (L(a).scale(8) - n.scale(w[1]) - 7, n.scale(w[0]) - L(a).scale(8))
        return L(a)

    def __repr__(self):
        return f"bits({self.items!r})"


def writer_of(e, st, v):
    """-> ('vec', ref) | ('ext', base) | ('buf', ref, nat) | ('ubw', ref, nat) | None"""
    r = v
    n = 0
    while True:
        if isinstance(r, Nat) and r.tag in ("bufw", "ubw"):
            return (r.tag, None, r)
        if isinstance(r, Sym):
            return ("ext", r.base)
        if not isinstance(r, Ref):
            return None
        w = e.deref(st, r)
        if isinstance(w, Seq):
            return ("vec", r)
        if isinstance(w, Sym):
            return ("ext", w.base)
        if isinstance(w, Nat) and w.tag in ("bufw", "ubw"):
            return (w.tag, r, w)
        if isinstance(w, Ref):
            r = w
            n += 1
            if n > 12:
                return None
            continue
        return None


def emit(c, st, w, piece, what="write"):
    """append piece to the writer; -> list of (state, ok?)"""
    e = c.e
    if w[0] == "vec":
        v = e.deref(st, w[1])
        e.store(st, w[1], mk_cat(e._u8, [v, piece]))
        return [(st, True)]
    if w[0] == "ext":
        bad = st.fork()
        g = st.mem.get(G_OUT)
        if not isinstance(g, Seq):
            g = SLit(e._u8, ())
        st.mem[G_OUT] = mk_cat(e._u8, [g, piece])
        gset(bad, G_IOERR)
        e.event(st, c.fr, "emit", c.line, piece)
        return [(st, True), (bad, False)]
    if w[0] == "bufw":
        inner = writer_of(e, st, w[2].args[0])
        if inner is None:
            return None
        r = emit(c, st, inner, piece, what)
        if r is not None and inner[0] == "ext":
            for s, o in r:
                if o:
                    s.mem[G_DIRTY] = TRUE
        return r
    return None


def io_results(c, rs):
    e = c.e
    out = []
    for s, o in rs:
        out.append((s, ok(e, c.dt) if o else err(e, c.dt, Sym(err_ty(e, c.dt), mk(("ioerr", c.site, s.ctx), "o")))))
    return out


def write_all(c):
    e, st = c.e, c.st
    w = writer_of(e, st, c.a[0])
    s = seqval(e, st, c.a[1])
    if w is None or s is None:
        return None
    r = emit(c, st, w, s)
    if r is None:
        return None
    return io_results(c, r)


def write_partial(c):
    """Write::write: accepts some prefix"""
    e, st = c.e, c.st
    w = writer_of(e, st, c.a[0])
    s = seqval(e, st, c.a[1])
    if w is None or s is None:
        return None
    if w[0] == "vec":
        emit(c, st, w, s)
        return c.ret(ok(e, c.dt, s.len))
    n = L(mk(("wrn", c.site, st.ctx), "i", 0, ISIZE_MAX))
    st.facts.assume(le(n, s.len))
    e.event(st, c.fr, "partial-write", c.line, n, s)
    full, part = st, st.fork()
    full.facts.assume(eq(n, s.len))
    part.facts.assume(lt(n, s.len))
    gset(part, G_IOERR)
    out = []
    for x in (full, part):
        if x.facts.bad:
            continue
        for s2, o in emit(c, x, w, s if x is full else mk_slice(s, Lin(0), n)):
            out.append((s2, ok(e, c.dt, n) if o else err(e, c.dt, Sym(err_ty(e, c.dt), mk(("ioerr", c.site, s2.ctx), "o")))))
    return out


def write_fmt(c):
    e, st = c.e, c.st
    w = writer_of(e, st, c.a[0])
    f = c.a[1]
    if w is None or not (isinstance(f, Nat) and f.tag == "fmt"):
        return None
    r = emit(c, st, w, mk_cat(e._u8, f.args))
    return None if r is None else io_results(c, r)


def w_flush(c):
    e, st = c.e, c.st
    w = writer_of(e, st, c.a[0])
    if w is None:
        return None
    if w[0] == "bufw":
        inner = writer_of(e, st, w[2].args[0])
        if inner is not None and inner[0] == "vec":
            return c.ret(ok(e, c.dt))
        bad = st.fork()
        st.mem[G_DIRTY] = FALSE
        gset(bad, G_IOERR)
        bad.mem[G_DIRTY] = FALSE
        return io_results(c, [(st, True), (bad, False)])
    if w[0] == "ext":
        bad = st.fork()
        gset(bad, G_IOERR)
        return io_results(c, [(st, True), (bad, False)])
    return c.ret(ok(e, c.dt))


for k in ("alloc::io::impls::<impl core::io::write::Write for alloc::vec::Vec<u8, A>>::", "core::io::write::Write::",
          "<alloc::io::buffered::bufwriter::BufWriter<W> as core::io::write::Write>::",
          "alloc::io::impls::<impl core::io::write::Write for &mut W>::",
          "core::io::impls::<impl core::io::write::Write for &mut W>::",
          "<alloc::io::buffered::linewriter::LineWriter<W> as core::io::write::Write>::"):
    for sfx in ("", "|unresolved"):
        MODELS[k + "write_all" + sfx] = write_all
        MODELS[k + "write" + sfx] = write_partial
        MODELS[k + "write_fmt" + sfx] = write_fmt
        MODELS[k + "flush" + sfx] = w_flush


@model("alloc::io::buffered::bufwriter::BufWriter::<W>::new", "alloc::io::buffered::bufwriter::BufWriter::<W>::with_capacity")
def bufwriter_new(c):
    return c.ret(Nat("bufw", c.a[-1]))


# ------------------------------------------------------------------ futures
@model("futures_util::future::join_all::join_all")
def join_all(c):
    e, st = c.e, c.st
    it = it_of(c)
    s = whole_seq(e, st, it) if it is not None else None
    if s is not None:
        return c.ret(Nat("joinall", s))
    if it is None:
        return None
    return [(s2, Nat("joinall", q)) for s2, q in native_collect(c, st, it, None)]


@model("tokio::task::spawn::spawn", "tokio::runtime::runtime::Runtime::spawn")
def tokio_spawn(c):
    c.e.event(c.st, c.fr, "tokio-spawn", c.line)
    return c.ret(Nat("joinhandle", c.a[-1]))


def block_on(c):
    e = c.e
    return [(s, v) for s, v in e.run_future(c.st, c.fr, c.a[-1], c.dt, c.site, c.line)]


for k in ("futures_executor::local_pool::block_on", "tokio::runtime::runtime::Runtime::block_on",
          "tokio::runtime::handle::Handle::block_on", "futures_executor::block_on"):
    MODELS[k] = block_on


@model("tokio::runtime::runtime::Runtime::new")
def rt_new(c):
    return c.ret(ok(c.e, c.dt, Sym(ok_ty(c.e, c.dt), mk(("runtime",), "o"))))


@model("lazy_static::lazy::Lazy::<T>::get")
def lazy_get(c):
    return c.ret(c.fresh("lazy"))


def poll_model(c):
    """Future::poll driven to completion: Poll::Ready(output)"""
    e, st = c.e, c.st
    p = c.a[0]
    if isinstance(p, Nat) and p.tag == "pin":
        p = p.args[0]
    elif isinstance(p, Agg) and len(p.fields) == 1:
        p = p.fields[0]
    rt = e.variants(c.dt)[e.vindex(c.dt, "Ready")]["fields"][0]["ty"]
    out = []
    for s, v in e.run_future(st, c.fr, p, rt, c.site, c.line):
        if not s.facts.bad:
            out.append((s, e.enum(c.dt, "Ready", v)))
    return out


MODELS["core::future::future::Future::poll"] = poll_model
MODELS["core::future::future::Future::poll|unresolved"] = poll_model
MODELS["<futures_util::future::join_all::JoinAll<F> as core::future::future::Future>::poll"] = poll_model


def fut_joinall(e, st, fr, v, dt, site, line):
    c = mk_ctx(e, st, fr, dt, site, line)
    s = v.args[0]
    el = e.C.elem_of(dt) if dt is not None else None
    e.event(st, fr, "join_all", line, s)
    ACC = ("t", site, "jacc")
    st.mem[ACC] = SLit(el, ())

    def body(s2, x):
        out = []
        for s3, y in e.run_future(s2, fr, x, el, (site[0], ("ja", site[-1])), line):
            if s3.facts.bad:
                continue
            s3.mem[ACC] = mk_cat(el, [s3.mem[ACC], SLit(el, [y])])
            out.append(s3)
        return [], out
    it = Nat("into", s, Lin(0), st.facts.norm(s.len))
    return [(s2, s2.mem.pop(ACC)) for _, s2 in native_loop(c, st, it, body, "ja")]


FUTURES["joinall"] = fut_joinall


def fut_joinhandle(e, st, fr, v, dt, site, line):
    # the task is assumed neither cancelled nor panicked (panics inside are obligations of their own)
    vt = ok_ty(e, dt) if dt is not None else None
    return [(s, ok(e, dt, x)) for s, x in e.run_future(st, fr, v.args[0], vt, (site[0], ("jh", site[-1])), line) if not s.facts.bad]


FUTURES["joinhandle"] = fut_joinhandle


def mk_ctx(e, st, fr, dt, site, line):
    from .interp import CallCtx
    return CallCtx(e, st, fr, {"name": "?"}, [], [], dt, site, line)


# ------------------------------------------------------------------ lookup
_suffix_iter = ("core::iter::traits::iterator::Iterator::",)
_cache = {}


def lookup(key, f):
    h = None
    if f.get("unresolved"):
        h = MODELS.get(key + "|unresolved")
    if h is None and f.get("shim"):
        h = MODELS.get(key + "|shim")
    if h is None:
        h = MODELS.get(key)
    if h is not None:
        return h
    k = key.split("|")[0]
    if "iterator::Iterator" in k or "double_ended::DoubleEndedIterator" in k:
        m = k.rsplit("::", 1)[-1]
        return ITER.get(m)
    if f.get("name") == "poll" and f.get("trait") == "core::future::future::Future":
        return poll_model
    for p, hh in PREFIX_MODELS:
        if k.startswith(p):
            return hh
    if k.startswith("core::num::<impl") or k.startswith("core::f32") or k.startswith("std::f32"):
        return MODELS.get(k)
    return None


from . import stdmodels  # noqa: E402,F401  (registers further models)
