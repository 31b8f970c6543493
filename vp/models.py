"""Abstract transfer functions of library calls (std, heapless, thunderdome) and of the caller's
trait methods, which stay uninterpreted."""
import re
from .terms import *
from . import terms as TM

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def strip(I, st, v):
    """value behind any number of references"""
    n = 0
    while n < 6:
        if v.op == "ref":
            v = I.read(st, v.args[0], v.args[1])
        else:
            c = st.facts.canon(v)
            if c.op == "ref":
                v = c
                continue
            return v
        n += 1
    return v


def tgt(I, st, v):
    """place reached through any number of references"""
    r, p = I.target(st, v)
    for _ in range(4):
        x = I.read(st, r, p)
        if x.op != "ref":
            x = st.facts.canon(x)
        if x.op == "ref":
            r, p = x.args
        else:
            break
    return r, p


def rd(I, st, v):
    r, p = tgt(I, st, v)
    return I.read(st, r, p)


def wr(I, st, v, val):
    r, p = tgt(I, st, v)
    I.write(st, r, p, val)


# ------------------------------------------------------------------ panics
def diverge(I, args, st, site, t, fn):
    if I.panic_states is not None:
        I.panic_states.append((fn["path"].split("::")[-1] if isinstance(fn, dict) else str(fn), site, st))
    return []


for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed",
          "core::panicking::todo_default_msg", "core::panicking::unimplemented_default_msg",
          "core::panicking::unreachable_default_msg", "core::panicking::panic_explicit", "core::panicking::panic_nounwind",
          "core::panicking::assert_failed_inner", "core::option::unwrap_failed", "core::option::expect_failed",
          "core::result::unwrap_failed", "std::option::unwrap_failed", "std::option::expect_failed",
          "std::result::unwrap_failed", "core::panicking::panic_display", "std::rt::begin_panic", "std::rt::panic_fmt",
          "core::panicking::panic_const::panic_const_add_overflow", "core::panicking::unreachable_display",
          "std::process::abort", "core::hint::unreachable_unchecked", "std::hint::unreachable_unchecked",
          "core::panicking::panic_bounds_check", "core::panicking::unimplemented_msg", "core::panicking::todo_msg",
          "core::panicking::unreachable_msg", "std::panicking::begin_panic"):
    MODELS[n] = diverge


@model("core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_display", "std::fmt::Arguments::from_str",
       "std::fmt::Arguments::new", "std::io::_eprint", "std::io::_print", "std::fmt::Arguments::new_const",
       "std::fmt::Arguments::new_v1", "loro_thunderdome::Arena::reserve", "std::hint::black_box", "std::mem::drop",
       "std::vec::Vec::reserve", "std::mem::forget")
def m_fmt(I, args, st, site, t, fn):
    return [(mk("app", "fmt"), st)]


# ------------------------------------------------------------------ identities
@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
       "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow",
       "heapless::vec::VecInner::as_slice", "heapless::vec::VecInner::as_mut_slice", "core::str::as_bytes",
       "std::borrow::BorrowMut::borrow_mut", "core::slice::as_ref", "core::array::as_slice")
def m_ident(I, args, st, site, t, fn):
    a = args[0]
    if a.op == "ref":
        # &Box<T> / &&T
        x = I.read(st, a.args[0], a.args[1])
        if x.op == "ref":
            return [(x, st)]
    return [(a, st)]


@model("std::boxed::Box::new", "core::num::get", "std::convert::identity", "std::convert::From::from",
       "std::iter::Iterator::by_ref", "std::mem::ManuallyDrop::new", "std::num::NonZero::get")
def m_same(I, args, st, site, t, fn):
    if t.get("atys") and t["atys"][0].get("s") == "bool" and fn["path"].endswith("::from"):
        return [(num(1 if v else 0), s) for v, s in I.split_bool(st, args[0])]
    return [(args[0], st)]


@model("std::convert::Into::into")
def m_into(I, args, st, site, t, fn):
    dst = t["dty"].get("adt")
    src = t["atys"][0].get("adt")
    if t["atys"][0].get("s") == "bool" and t["dty"].get("s") != "bool":
        return [(num(1 if v else 0), s) for v, s in I.split_bool(st, args[0])]
    if dst == src or dst is None or src is None:
        return [(args[0], st)]
    for b in I.prog.bodies.values():
        s = b.d.get("impl_self")
        if b.d["name"] == "from" and s and s.get("adt") == dst and b.d.get("impl_trait", "") == "std::convert::From":
            if b.locals[1]["ty"].get("adt") == src:
                return I.run(b, args, st, site.fid, site.block)
    if dst == TM.OPT:
        return [(some(args[0]), st)]
    return [(args[0], st)]


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "core::slice::to_vec", "std::slice::to_vec", "core::array::clone")
def m_clone(I, args, st, site, t, fn):
    a = args[0]
    if a.op == "ref":
        v = I.read(st, a.args[0], a.args[1])
    else:
        v = I.deref(st, a)
    if t["dty"].get("adt") and v.op == "ref":
        v = strip(I, st, v)
    return [(v, st)]


def default_of(ty):
    a = ty.get("adt")
    s = ty.get("s", "")
    if a == TM.OPT:
        return NONE
    if a in ("std::vec::Vec", "heapless::vec::VecInner", "std::collections::VecDeque"):
        return EMPTY
    if a and a.endswith(("HashMap", "BTreeMap", "HashSet", "BTreeSet")):
        return mk("arena", mk("app", "emptymap"), ())
    if s in ("usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
        return num(0)
    if s == "bool":
        return FALSE
    if s == "()":
        return UNIT
    if a and a.endswith("PhantomData"):
        return mk("app", "default", "phantom")
    return mk("app", "default", s)


def is_summary(ty):
    """the associated types of BTreeTrait"""
    s = ty.get("s", "")
    return not ty.get("adt") and (s.endswith("::Cache") or s.endswith("::CacheDiff") or s in ("Cache", "CacheDiff"))


@model("std::default::Default::default")
def m_default(I, args, st, site, t, fn):
    a = t["dty"].get("adt")
    if I.theory and is_summary(t["dty"]):
        return [(I.theory.default(), st)]
    if a:
        for b in I.prog.bodies.values():
            s = b.d.get("impl_self")
            if b.d["name"] == "default" and s and s.get("adt") == a and b.d.get("impl_trait") == "std::default::Default":
                return I.run(b, args, st, site.fid, site.block)
    return [(default_of(t["dty"]), st)]


# ------------------------------------------------------------------ comparison
def unref(I, st, v):
    """a value with the references in it replaced by what they refer to, as comparisons see it"""
    v = st.facts.canon(v)
    if v.op == "ref":
        return unref(I, st, I.deref(st, v))
    if v.op == "rec" and (v.args[0] in (TM.OPT, "tuple") or v.args[1] in ("Some", "Ok", "Err")) and any(x.op in ("ref", "rec") for x in v.args[2]):
        return mk("rec", v.args[0], v.args[1], tuple(unref(I, st, x) for x in v.args[2]))
    return v


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(I, args, st, site, t, fn):
    # a local derived impl is inlined before this point
    a = unref(I, st, strip(I, st, args[0]))
    b = unref(I, st, strip(I, st, args[1]))
    r = eq(st.facts.canon(a), st.facts.canon(b))
    no = fn["path"].endswith("::ne")
    if r.op == "eq":
        from .engine import isvar as isv
        x, y = r.args
        if x.op == "rec" and y.op != "rec":
            x, y = y, x
        if y.op == "rec" and y.args[1] is not None and not y.args[2] and x.op != "rec":
            r = isv(x, y.args[1])       # a variant without fields
        elif getattr(I, "ordered", False) and re.match(r"^&*[A-Z]\w*$", (t["atys"][0].get("s") or "") if t else "") and not t["atys"][0].get("adt"):
            r = eqi(*r.args)            # keys in a total order
    if r.op == "eq" and r.args[0].op == "rec" and r.args[1].op == "rec":
        # one field after the other
        out, work = [], [(st, list(zip(r.args[0].args[2], r.args[1].args[2])))]
        while work:
            s, todo = work.pop()
            if not todo:
                out.append((neg(TRUE) if no else TRUE, s))
                continue
            (x, y), rest = todo[0], todo[1:]
            for v, s2 in I.split_bool(s, eq(s.facts.canon(x), s.facts.canon(y))):
                if v:
                    work.append((s2, rest))
                else:
                    out.append((TRUE if no else neg(TRUE), s2))
        return out
    if no:
        r = neg(r)
    return [(r, st)]


@model("std::cmp::Ord::cmp")
def m_cmp(I, args, st, site, t, fn):
    from .engine import cmp_int
    return [(cmp_int(strip(I, st, args[0]), strip(I, st, args[1])), st)]


@model("std::cmp::PartialOrd::partial_cmp")
def m_pcmp(I, args, st, site, t, fn):
    from .engine import cmp_int
    return [(some(cmp_int(strip(I, st, args[0]), strip(I, st, args[1]))), st)]


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_lt(I, args, st, site, t, fn):
    a = strip(I, st, args[0])
    b = strip(I, st, args[1])
    k = fn["path"][-2:]
    r = {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[k]()
    return [(r, st)]


def minmax(I, st, a, b, want_min):
    out = []
    for v, s in I.split_bool(st, le(a, b)):
        out.append(((a if v else b) if want_min else (b if v else a), s))
    return out


@model("std::cmp::Ord::min", "std::cmp::min")
def m_min(I, args, st, site, t, fn):
    return minmax(I, st, args[0], args[1], True)


@model("std::cmp::Ord::max", "std::cmp::max")
def m_max(I, args, st, site, t, fn):
    return minmax(I, st, args[0], args[1], False)


@model("core::num::saturating_sub")
def m_satsub(I, args, st, site, t, fn):
    a, b = args
    out = []
    for v, s in I.split_bool(st, le(b, a)):
        out.append((sub(a, b) if v else num(0), s))
    return out


@model("core::num::checked_sub")
def m_chksub(I, args, st, site, t, fn):
    a, b = args
    out = []
    for v, s in I.split_bool(st, le(b, a)):
        out.append((some(sub(a, b)) if v else NONE, s))
    return out


@model("core::num::wrapping_add", "core::num::saturating_add", "core::num::unchecked_add")
def m_wadd(I, args, st, site, t, fn):
    return [(add(*args), st)]


@model("core::num::wrapping_sub", "core::num::unchecked_sub")
def m_wsub(I, args, st, site, t, fn):
    return [(sub(*args), st)]


@model("core::num::checked_add")
def m_cadd(I, args, st, site, t, fn):
    return [(some(add(*args)), st)]


@model("core::num::abs_diff")
def m_absdiff(I, args, st, site, t, fn):
    a, b = args
    return [(sub(a, b) if v else sub(b, a), s) for v, s in I.split_bool(st, le(b, a))]


@model("core::num::div_ceil")
def m_divceil(I, args, st, site, t, fn):
    m = numval(args[1])
    if m:
        return [(mk("div", add(args[0], num(m - 1)), m), st)]
    return None


@model("std::ops::Add::add")
def m_add(I, args, st, site, t, fn):
    return [(add(strip(I, st, args[0]), strip(I, st, args[1])), st)]


@model("std::ops::Sub::sub")
def m_sub(I, args, st, site, t, fn):
    return [(sub(strip(I, st, args[0]), strip(I, st, args[1])), st)]


@model("std::ops::Neg::neg")
def m_neg(I, args, st, site, t, fn):
    return [(scale(strip(I, st, args[0]), -1), st)]


@model("std::ops::AddAssign::add_assign")
def m_addas(I, args, st, site, t, fn):
    wr(I, st, args[0], add(rd(I, st, args[0]), strip(I, st, args[1])))
    return [(UNIT, st)]


@model("std::ops::SubAssign::sub_assign")
def m_subas(I, args, st, site, t, fn):
    wr(I, st, args[0], sub(rd(I, st, args[0]), strip(I, st, args[1])))
    return [(UNIT, st)]


@model("std::ops::Not::not")
def m_not(I, args, st, site, t, fn):
    return [(neg(strip(I, st, args[0])), st)]


# ------------------------------------------------------------------ memory
@model("std::mem::replace")
def m_replace(I, args, st, site, t, fn):
    r, p = I.target(st, args[0])
    old = I.read(st, r, p)
    I.write(st, r, p, args[1])
    return [(old, st)]


@model("std::mem::take")
def m_take(I, args, st, site, t, fn):
    r, p = I.target(st, args[0])
    old = I.read(st, r, p)
    ty = t["dty"]
    v = None
    if ty.get("adt") or I.theory and is_summary(ty):
        o = MODELS["std::default::Default::default"](I, [], st, site, t, fn)
        if len(o) == 1:
            v = o[0][0]
    if v is None:
        v = default_of(ty)
    I.write(st, r, p, v)
    return [(old, st)]


@model("std::mem::swap", "core::ptr::swap")
def m_swap(I, args, st, site, t, fn):
    r, p = I.target(st, args[0])
    q, w = I.target(st, args[1])
    a = I.read(st, r, p)
    b = I.read(st, q, w)
    I.write(st, r, p, b)
    I.write(st, q, w, a)
    return [(UNIT, st)]


@model("std::option::Option::as_ref", "std::option::Option::as_mut")
def m_optref(I, args, st, site, t, fn):
    from .engine import mkref
    r, p = I.target(st, args[0])
    v = I.read(st, r, p)
    out = []
    for n, v2, s in I.split_variant(st, v, ("None", "Some")):
        out.append((NONE if n == "None" else some(mkref(r, p + (("f", "Some", 0, "0"),))), s))
    return out


@model("std::option::Option::take")
def m_opttake(I, args, st, site, t, fn):
    r, p = I.target(st, args[0])
    old = I.read(st, r, p)
    I.write(st, r, p, NONE)
    return [(old, st)]


@model("std::option::Option::replace", "std::option::Option::insert")
def m_optreplace(I, args, st, site, t, fn):
    r, p = I.target(st, args[0])
    old = I.read(st, r, p)
    I.write(st, r, p, some(args[1]))
    if fn["path"].endswith("insert"):
        from .engine import mkref
        return [(mkref(r, p + (("f", "Some", 0, "0"),)), st)]
    return [(old, st)]


@model("std::intrinsics::discriminant_value", "core::intrinsics::discriminant_value", "std::mem::discriminant")
def m_discr(I, args, st, site, t, fn):
    v = strip(I, st, args[0])
    targ = fn.get("targs") or []
    adt = targ[0].get("adt") if targ else None
    for a in I.prog.d["adts"]:
        if a["path"] == adt and a["enum"]:
            return [(I.discr(st, v, tuple((x["name"], i) for i, x in enumerate(a["variants"]))), st)]
    if v.op == "rec" and v.args[1]:
        return [(mk("app", "discr", v.args[1]), st)]
    return [(mk("app", "discrv", v), st)]


# ------------------------------------------------------------------ vectors
def place_seq(I, st, a):
    """place and value of a vector or slice behind a reference"""
    r, p = tgt(I, st, a)
    return r, p, I.read(st, r, p)


def ref_at(I, st, r, p, i):
    from .engine import mkref
    return mkref(r, tuple(I._flat(st, p + (("at", i),))))


@model("heapless::vec::VecInner::new", "std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::VecDeque::new",
       "std::collections::VecDeque::with_capacity", "std::string::String::new", "std::string::String::with_capacity")
def m_vnew(I, args, st, site, t, fn):
    return [(EMPTY, st)]


@model("heapless::vec::VecInner::from_slice", "core::slice::into_vec", "std::slice::into_vec")
def m_fromslice(I, args, st, site, t, fn):
    s = place_seq(I, st, args[0])[2]
    if "heapless" in fn["path"]:
        I.capacity(st, site, t, fn, EMPTY, length(s), t["dty"])
        return [(ok(s), st)]
    return [(s, st)]


@model("std::boxed::Box::new_uninit")
def m_boxuninit(I, args, st, site, t, fn):
    # vec![..]: the list is written behind the box
    from .engine import mkref
    root = ("T", "box", site.fid, site.block)
    st.store[root] = mk("uninit", "box", root)
    return [(rec("std::boxed::Box", None, mkref(root, ())), st)]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(I, args, st, site, t, fn):
    v = args[0]
    if v.op == "rec" and v.args[0] == "std::boxed::Box":
        v = rd(I, st, v.args[2][0])
        while v.op == "upd" and len(v.args[1]) == 1:
            v = v.args[1][0][1]
        return [(v, st)]
    return [(rd(I, st, v), st)]


def is_heapless(fn):
    return "heapless" in fn["path"]


def is_mut_elem_result(fn):
    return is_heapless(fn)


@model("heapless::vec::VecInner::push", "std::vec::Vec::push", "std::collections::VecDeque::push_back")
def m_push(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    I.write(st, r, p, concat(s, mkseq([unit(args[1])])))
    if is_heapless(fn):
        I.capacity(st, site, t, fn, s, num(1), t["atys"][0])
        return [(ok(UNIT), st)]
    return [(UNIT, st)]


@model("std::collections::VecDeque::push_front")
def m_pushf(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    I.write(st, r, p, concat(mkseq([unit(args[1])]), s))
    return [(UNIT, st)]


@model("heapless::vec::VecInner::insert", "std::vec::Vec::insert")
def m_insert(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    if not I.must(st, [le(args[1], length(s))], site, fn):
        return []
    out = []
    for st in I.located(st, s, (args[1],)):
        I.write(st, r, p, I.seq_insert(st, s, args[1], args[2]))
        if is_heapless(fn):
            I.capacity(st, site, t, fn, s, num(1), t["atys"][0])
        out.append((ok(UNIT) if is_heapless(fn) else UNIT, st))
    return out


@model("heapless::vec::VecInner::remove", "std::vec::Vec::remove")
def m_remove(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    if not I.must(st, [lt(args[1], length(s))], site, fn):
        return []
    out = []
    for st in I.located(st, s, (args[1],), True):
        v, n = I.seq_remove(st, s, args[1])
        I.write(st, r, p, n)
        out.append((v, st))
    return out


@model("heapless::vec::VecInner::swap_remove", "std::vec::Vec::swap_remove")
def m_swrem(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    st.ev("unordered", "swap_remove", mk("ref", r, p), site)
    v = I.seq_get(st, s, args[1])
    out = []
    last = sub(length(s), num(1))
    for b, x in I.split_bool(st, eqi(args[1], last)):
        l = I.seq_get(x, s, last)
        n = I.seq_slice(x, s, num(0), last)
        if not b:
            n = I.seq_set(x, n, args[1], l)
        I.write(x, r, p, n)
        out.append((v, x))
    return out


@model("heapless::vec::VecInner::pop", "std::vec::Vec::pop", "std::collections::VecDeque::pop_back")
def m_pop(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    out = []
    for b, x in I.split_bool(st, lt(num(0), length(s))):
        if b:
            last = sub(length(s), num(1))
            v = I.seq_get(x, s, last)
            I.write(x, r, p, I.seq_slice(x, s, num(0), last))
            out.append((some(v), x))
        else:
            out.append((NONE, x))
    return out


@model("std::collections::VecDeque::pop_front")
def m_popf(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    out = []
    for b, x in I.split_bool(st, lt(num(0), length(s))):
        if b:
            v = I.seq_get(x, s, num(0))
            I.write(x, r, p, I.seq_slice(x, s, num(1), length(s)))
            out.append((some(v), x))
        else:
            out.append((NONE, x))
    return out


@model("heapless::vec::VecInner::clear", "std::vec::Vec::clear", "std::collections::VecDeque::clear")
def m_clear(I, args, st, site, t, fn):
    wr(I, st, args[0], EMPTY)
    return [(UNIT, st)]


@model("heapless::vec::VecInner::truncate", "std::vec::Vec::truncate")
def m_trunc(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    out = []
    for b, x in I.split_bool(st, le(args[1], length(s))):
        if b:
            I.write(x, r, p, I.seq_slice(x, s, num(0), args[1]))
        out.append((UNIT, x))
    return out


@model("std::vec::Vec::split_off")
def m_splitoff(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    if not I.must(st, [le(args[1], length(s))], site, fn):
        return []
    I.write(st, r, p, I.seq_slice(st, s, num(0), args[1]))
    return [(I.seq_slice(st, s, args[1], length(s)), st)]


@model("std::vec::Vec::append")
def m_append(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    q, w, o = place_seq(I, st, args[1])
    I.write(st, r, p, concat(s, o))
    I.write(st, q, w, EMPTY)
    return [(UNIT, st)]


@model("heapless::vec::VecInner::extend_from_slice", "std::vec::Vec::extend_from_slice")
def m_extslice(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    o = place_seq(I, st, args[1])[2]
    I.write(st, r, p, concat(s, o))
    if is_heapless(fn):
        I.capacity(st, site, t, fn, s, length(o), t["atys"][0])
        return [(ok(UNIT), st)]
    return [(UNIT, st)]


@model("std::iter::Extend::extend", "heapless::vec::VecInner::extend", "std::vec::Vec::extend")
def m_extend(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    out = []
    for o, x in collect(I, st, args[1], site, t):
        I.write(x, r, p, concat(s, o))
        out.append((UNIT, x))
    return out


@model("heapless::vec::VecInner::retain", "std::vec::Vec::retain", "heapless::vec::VecInner::retain_mut")
def m_retain(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    st.ev("retain", mk("ref", r, p), args[1], site)
    outs = kept(I, st, s, args[1], site, t)
    if outs is not None:
        for x, s2 in outs:
            I.write(s2, r, p, x)
        return [(UNIT, s2) for _, s2 in outs]
    I.write(st, r, p, unk("retain"))
    return [(UNIT, st)]


def kept(I, st, s, f, site, t):
    """[(what a filter leaves of a list, state)] when it decides every stretch of the list alike, else None"""
    from .engine import mkref
    from .spec import feasible
    s = st.facts.canon(s)
    if I.stretches is None:
        return None
    if s.op != "seq":
        s = mkseq([sl(s, num(0), length(s))])
    todo = [([], st)]
    for g in segs(s):
        if g.op == "u":
            pieces = [g]
        elif g.op == "sl":
            pieces = I.stretches(st, g)
        else:
            return None
        for x in pieces:
            nxt = []
            for done, s0 in todo:
                s1 = s0.copy()
                if x.op == "u":
                    v = x.args[0]
                else:
                    b = mk("bv", "rt")
                    if not (I.assume(s1, le(x.args[1], b)) and I.assume(s1, lt(b, x.args[2]))) or not feasible(s1):
                        nxt.append((done, s0))
                        continue
                    v = el(x.args[0], b)
                root = ("T", "retain", site.fid, site.block)
                s1.store[root] = v
                fv, wb = callable_place(I, s1, f, site)
                got = []
                for w, s2 in I.call_value(fv, [mkref(root, ())], s1, site, t):
                    for val_, s3 in I.split_bool(s2, w):
                        if feasible(s3):
                            wb(s3)
                            s3.store.pop(root, None)
                            got.append((val_, s3))
                if x.op == "u":
                    nxt += [(done + [x] if val_ else done, s3) for val_, s3 in got]
                    continue
                vals = {val_ for val_, _ in got}
                if len(vals) != 1:
                    return None
                nxt.append((done + [x] if True in vals else done, s0))
            todo = nxt
    return [(mkseq(d), s0) for d, s0 in todo]


def reversed_seq(s):
    out = []
    for g in reversed(segs(s)):
        if g.op == "u":
            out.append(g)
        elif g.op in ("sl", "gen"):
            b = mk("bv", "rv%d" % depth(g))
            lo, hi = (g.args[1], g.args[2])
            i = sub(sub(hi, num(1)), b)
            out.append(mk("gen", b, num(0), sub(hi, lo), el(g.args[0], i) if g.op == "sl" else subst(g.args[3], {g.args[0]: add(lo, i)})))
        else:
            return mk("app", "reverse", s)
    return mkseq(out)


def ordkey(k):
    """an integer that stands for the place of a key in its order"""
    if k.op in ("lin", "num") or k.op == "rec" and len(k.args[2]) != 1:
        return k
    while k.op == "rec" and len(k.args[2]) == 1:
        k = k.args[2][0]
    return k


INTS = ("usize", "u8", "u16", "u32", "u64", "isize", "i32", "i64", "u128")


def keytype(fn, n):
    ts = fn.get("targs") or []
    return ts[n].get("s", "") if n < len(ts) else ""


def in_order(I, st, keyed, ints=False):
    """the ways a few keyed entries can be put in order (stably): [(entries, state)]"""
    work = [([], st)]
    for k, x in keyed:
        nxt = []
        for done, y in work:
            # from the back: behind the last one that is not greater
            here = [(len(done), y)]
            while here:
                i, z = here.pop()
                if i == 0:
                    nxt.append(([(k, x)] + done, z))
                    continue
                a, b = z.facts.canon(done[i - 1][0]), z.facts.canon(k)
                if a is b:
                    nxt.append((done[:i] + [(k, x)] + done[i:], z))
                    continue
                if ints:
                    for g, z2 in I.split_bool(z, lt(b, a)):
                        if g:
                            here.append((i - 1, z2))
                        else:
                            nxt.append((done[:i] + [(k, x)] + done[i:], z2))
                    continue
                # keys of a type whose order is not known: equal ones side by side, else either way
                for e, z2 in I.split_bool(z, eq(a, b)):
                    if e:
                        nxt.append((done[:i] + [(k, x)] + done[i:], z2))
                        continue
                    for g, z3 in I.split_bool(z2, lt(mk("app", "ord", b), mk("app", "ord", a))):
                        if g:
                            here.append((i - 1, z3))
                        elif I.assume(z3, lt(mk("app", "ord", a), mk("app", "ord", b))):
                            nxt.append((done[:i] + [(k, x)] + done[i:], z3))
        work = nxt
    return work


def unit_items(st, s, most=4):
    """the entries of a list all of whose entries are known"""
    gs = segs(st.facts.canon(s))
    if len(gs) > most or any(g.op != "u" for g in gs):
        return None
    return [g.args[0] for g in gs]


def keyed_by(I, st, xs, f, site, t):
    """[([(key, entry)], state)]"""
    from .engine import mkref, Limit
    work = [([], st)]
    for n, x in enumerate(xs):
        nxt = []
        for done, y in work:
            root = ("T", "key", site.fid, site.block, n)
            y.store[root] = x
            for k, z in I.call_value(f, [mkref(root, ())], y, site, t):
                z.store.pop(root, None)
                k = z.facts.canon(k)
                nxt.append((done + [(z.facts.canon(ordkey(k)), (k, x))], z))
        work = nxt
    return work


@model("core::slice::sort_by_key", "core::slice::sort_unstable_by_key", "std::slice::sort_by_key", "core::slice::sort_by_cached_key", "std::slice::sort_by_cached_key")
def m_sortkey(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    xs = unit_items(st, s)
    if xs is None:
        return m_reorder(I, args, st, site, t, fn)
    out = []
    f, wb = callable_place(I, st, args[1], site)
    for ks, y in keyed_by(I, st, xs, f, site, t):
        for done, z in in_order(I, y, ks, keytype(fn, 1) in INTS):
            I.write(z, r, p, mkseq([mk("u", x) for _, (_, x) in done]))
            out.append((UNIT, z))
    return out


@model("core::slice::reverse", "core::slice::sort", "core::slice::sort_by", "core::slice::swap",
       "core::slice::rotate_left", "core::slice::rotate_right", "core::slice::sort_unstable",
       "core::slice::sort_unstable_by", "std::slice::sort_by", "std::slice::sort")
def m_reorder(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    kind = fn["path"].split("::")[-1]
    st.ev("unordered", kind, mk("ref", r, p), site)
    if kind == "swap":
        a = I.seq_get(st, s, args[1])
        b = I.seq_get(st, s, args[2])
        I.write(st, r, p, I.seq_set(st, I.seq_set(st, s, args[1], b), args[2], a))
    else:
        I.write(st, r, p, reversed_seq(st.facts.canon(s)) if kind == "reverse" else unk(kind))
    return [(UNIT, st)]


@model("core::slice::len", "heapless::vec::VecInner::len", "std::vec::Vec::len", "core::str::len", "std::collections::VecDeque::len",
       "std::string::String::len")
def m_len(I, args, st, site, t, fn):
    return [(length(place_seq(I, st, args[0])[2]), st)]


@model("core::slice::is_empty", "heapless::vec::VecInner::is_empty", "std::vec::Vec::is_empty", "core::str::is_empty",
       "std::collections::VecDeque::is_empty")
def m_isempty(I, args, st, site, t, fn):
    return [(eqi(length(place_seq(I, st, args[0])[2]), num(0)), st)]


@model("heapless::vec::VecInner::is_full")
def m_isfull(I, args, st, site, t, fn):
    cap = I.vec_cap(t["atys"][0])
    if cap is None:
        return None
    return [(eqi(length(place_seq(I, st, args[0])[2]), num(cap)), st)]


@model("heapless::vec::VecInner::capacity")
def m_cap(I, args, st, site, t, fn):
    cap = I.vec_cap(t["atys"][0])
    return [(num(cap), st)] if cap is not None else None


def range_of(I, st, r, n):
    """(lo, hi) of a range value over a sequence of length n, or None"""
    r = strip(I, st, r)
    if r.op != "rec":
        return None
    k = str(r.args[0]).split("::")[-1]
    f = r.args[2]
    if k == "Range":
        return f[0], f[1]
    if k == "RangeFrom":
        return f[0], n
    if k == "RangeTo":
        return num(0), f[0]
    if k == "RangeFull":
        return num(0), n
    if k == "RangeToInclusive":
        return num(0), add(f[0], num(1))
    if k == "RangeInclusive":
        return f[0], add(f[1], num(1))
    return None


@model("std::ops::RangeInclusive::new")
def m_rinc(I, args, st, site, t, fn):
    return [(rec("std::ops::RangeInclusive", None, args[0], args[1], FALSE), st)]


def do_index(I, st, base, idx, ity, site):
    """[(place ref, state)] for base[idx], assuming in bounds"""
    from .engine import mkref
    r, p, s = place_seq(I, st, base)
    rg = range_of(I, st, idx, length(s)) if "Range" in (ity or "") or idx.op == "rec" else None
    if rg is not None:
        lo, hi = rg
        if not I.must(st, [le(lo, hi), le(hi, length(s))], site, "index"):
            return []
        return [(mkref(r, tuple(I._flat(x, p + (("sub", lo, hi),)))), x) for x in I.located(st, s, (lo, hi))]
    if "Range" in (ity or ""):
        return [(unk("range index"), st)]
    if not I.must(st, [lt(idx, length(s))], site, "index"):
        return []
    return [(ref_at(I, x, r, p, idx), x) for x in I.located(st, s, (idx,), True)]


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(I, args, st, site, t, fn):
    a0 = t["atys"][0].get("adt", "") or ""
    if "HashMap" in a0:
        return None
    if "Arena" in a0:
        o = arena_get_(I, st, args[0], args[1])
        return [(x.args[2][0], s) for x, s in o if x.op == "rec" and x.args[1] == "Some"]
    return do_index(I, st, args[0], args[1], t["atys"][1].get("s"), site)


@model("core::slice::get", "core::slice::get_mut", "std::vec::Vec::get", "heapless::vec::VecInner::get", "heapless::vec::VecInner::get_mut")
def m_get(I, args, st, site, t, fn):
    from .engine import mkref
    r, p, s = place_seq(I, st, args[0])
    rg = range_of(I, st, args[1], length(s))
    out = []
    if rg is not None:
        lo, hi = rg
        for b, x in I.split_bool(st, le(lo, hi)):
            if not b:
                out.append((NONE, x))
                continue
            for c, y in I.split_bool(x, le(hi, length(s))):
                out.append((some(mkref(r, tuple(I._flat(y, p + (("sub", lo, hi),))))) if c else NONE, y))
        return out
    for b, x in I.split_bool(st, lt(args[1], length(s))):
        out.append((some(ref_at(I, x, r, p, args[1])) if b else NONE, x))
    return out


@model("core::slice::get_unchecked", "core::slice::get_unchecked_mut")
def m_getu(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    return [(ref_at(I, st, r, p, args[1]), st)]


@model("core::slice::first", "core::slice::first_mut", "heapless::vec::VecInner::first", "heapless::vec::VecInner::first_mut",
       "core::slice::last", "core::slice::last_mut", "heapless::vec::VecInner::last", "heapless::vec::VecInner::last_mut",
       "std::collections::VecDeque::front", "std::collections::VecDeque::back", "std::collections::VecDeque::front_mut",
       "std::collections::VecDeque::back_mut")
def m_first(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    out = []
    k = fn["path"].split("::")[-1]
    first = k.startswith("first") or k.startswith("front")
    for b, x in I.split_bool(st, lt(num(0), length(s))):
        i = num(0) if first else sub(length(s), num(1))
        out.append((some(ref_at(I, x, r, p, i)) if b else NONE, x))
    return out


@model("core::slice::split_at", "core::slice::split_at_mut")
def m_splitat(I, args, st, site, t, fn):
    from .engine import mkref
    r, p, s = place_seq(I, st, args[0])
    if not I.must(st, [le(args[1], length(s))], site, fn):
        return []
    a = mkref(r, tuple(I._flat(st, p + (("sub", num(0), args[1]),))))
    b = mkref(r, tuple(I._flat(st, p + (("sub", args[1], length(s)),))))
    return [(tup(a, b), st)]


@model("core::slice::copy_within")
def m_copywithin(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    rg = range_of(I, st, args[1], length(s))
    if rg is None:
        wr(I, st, args[0], unk("copy_within"))
        return [(UNIT, st)]
    lo, hi = rg
    d = args[2]
    n = sub(hi, lo)
    # bounds the real code panics on
    if not I.must(st, [le(lo, hi), le(hi, length(s)), le(d, sub(length(s), n))], site, fn):
        return []
    src = I.seq_slice(st, s, lo, hi)
    a = I.seq_slice(st, s, num(0), d)
    b = I.seq_slice(st, s, add(d, n), length(s))
    I.write(st, r, p, mkseq(segs(a) + segs(src) + segs(b)))
    return [(UNIT, st)]


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def m_copyfrom(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    o = place_seq(I, st, args[1])[2]
    if not I.must(st, [eqi(length(s), length(o))], site, fn):
        return []
    I.write(st, r, p, o)
    return [(UNIT, st)]


@model("core::slice::fill")
def m_fill(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    I.write(st, r, p, mkseq([mk("gen", mk("bv", 0), num(0), length(s), args[1])]))
    return [(UNIT, st)]


@model("std::vec::Vec::drain")
def m_vdrain(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    rg = range_of(I, st, args[1], length(s))
    if rg is None:
        I.write(st, r, p, unk("drain"))
        return [(unk("drain"), st)]
    lo, hi = rg
    if not I.must(st, [le(lo, hi), le(hi, length(s))], site, fn):
        return []
    out = []
    for st in I.located(st, s, (lo, hi)):
        mid = I.seq_slice(st, s, lo, hi)
        a = I.seq_slice(st, s, num(0), lo)
        b = I.seq_slice(st, s, hi, length(s))
        I.write(st, r, p, concat(a, b))
        out.append((rec("I:seq", None, mk("mode", "val"), mid, num(0), length(mid)), st))
    return out


@model("core::slice::binary_search_by", "core::slice::binary_search_by_key", "core::slice::binary_search", "core::slice::partition_point")
def m_bsearch(I, args, st, site, t, fn):
    r, p, s = place_seq(I, st, args[0])
    kind = fn["path"].split("::")[-1]
    if kind != "binary_search_by":
        return [(unk(kind), st)]
    f = args[1]
    out = []
    # Ok(i): the comparator answers Equal at i
    i = mk("app", "bs_ok", s, f)
    x = st.copy()
    if I.assume(x, lt(i, length(s))):
        for v, y in I.call_value(f, [ref_at(I, x, r, p, i)], x, site, t):
            from .engine import isvar
            if I.assume(y, isvar(v, "Equal")):
                out.append((ok(i), y))
    # Err(i): Less before i, Greater from i on
    i = mk("app", "bs_err", s, f)
    x = st.copy()
    if I.assume(x, le(i, length(s))):
        outs = [x]
        for off, want in ((num(-1), "Less"), (num(0), "Greater")):
            nxt = []
            for y in outs:
                j = add(i, off)
                inb = lt(num(0), i) if want == "Less" else lt(i, length(s))
                for b, z in I.split_bool(y, inb):
                    if not b:
                        nxt.append(z)
                        continue
                    from .engine import isvar
                    for v, w in I.call_value(f, [ref_at(I, z, r, p, j)], z, site, t):
                        if I.assume(w, isvar(v, want)):
                            nxt.append(w)
            outs = nxt
        out += [(err(i), y) for y in outs]
    return out


# ------------------------------------------------------------------ arenas
def arena_place(I, st, a):
    r, p = tgt(I, st, a)
    return r, p, I.read(st, r, p)


def rawkey(I, st, k):
    return st.facts.canon(k)


def has_dead(v):
    from .engine import DEAD
    return v is DEAD or v.op == "nd" or v.op == "ite" and (has_dead(v.args[1]) or has_dead(v.args[2]))


def arena_get_(I, st, a, k):
    from .engine import mkref, DEAD
    r, p, s = arena_place(I, st, a)
    k = rawkey(I, st, k)
    v = I.arena_get(st, s, k)
    if v.op == "ite" and has_dead(v):
        out = []
        for b, x in I.split_bool(st, v.args[0]):
            out += arena_get_(I, x, a, k)
        return out
    ref = mkref(r, p + (("node", k),))
    if v is DEAD:
        return [(NONE, st)]
    if v.op == "nd":
        al = I.alive(st, v)
        out = []
        for b, x in I.split_bool(st, al):
            out.append((some(ref) if b else NONE, x))
        return out
    return [(some(ref), st)]


@model("loro_thunderdome::Arena::get", "loro_thunderdome::Arena::get_mut")
def m_aget(I, args, st, site, t, fn):
    return arena_get_(I, st, args[0], args[1])


@model("loro_thunderdome::Arena::contains")
def m_acontains(I, args, st, site, t, fn):
    return [(boolean(x.args[1] == "Some"), s) for x, s in arena_get_(I, st, args[0], args[1])]


@model("loro_thunderdome::Arena::get2_mut")
def m_aget2(I, args, st, site, t, fn):
    out = []
    for a, s in arena_get_(I, st, args[0], args[1]):
        for b, s2 in arena_get_(I, s, args[0], args[2]):
            out.append((tup(a, b), s2))
    return out


@model("loro_thunderdome::Arena::insert")
def m_ainsert(I, args, st, site, t, fn):
    r, p, s = arena_place(I, st, args[0])
    k = I.fresh(st, "i" if I.arena_kind(p) != "leaf" else "l")
    I.write(st, r, p, I.arena_set(st, s, k, args[1]))
    return [(k, st)]


@model("loro_thunderdome::Arena::remove")
def m_aremove(I, args, st, site, t, fn):
    from .engine import DEAD
    r, p, s = arena_place(I, st, args[0])
    k = rawkey(I, st, args[1])
    out = []
    for o, x in arena_get_(I, st, args[0], k):
        if o is NONE:
            out.append((NONE, x))
        else:
            s2 = I.read(x, r, p)
            v = I.arena_get(x, s2, k)
            x.ev("free", I.arena_kind(p), k, site)
            I.write(x, r, p, I.arena_set(x, s2, k, DEAD))
            out.append((some(v), x))
    return out


@model("loro_thunderdome::Index::slot", "loro_thunderdome::Index::generation")
def m_islot(I, args, st, site, t, fn):
    n = fn["path"].rsplit("::", 1)[1]
    return [(mk("app", n, strip(I, st, args[0])), st)]


def by_slot(I, st, a, slot):
    """[(key in the slot or None, reference, state)]; a slot may hold another entry than the one it was asked through"""
    slot = st.facts.canon(slot)
    if not (slot.op == "app" and slot.args[0] == "slot"):
        return None
    k = slot.args[1]
    out = []
    for x, s in arena_get_(I, st, a, k):
        if x is not NONE:
            out.append((k, fld(x, "Some", 0, "0"), s))
            continue
        o = mk("app", "otherof", k)
        s2 = s.copy()
        r, p, arena = arena_place(I, s2, a)
        v = I.arena_get(s2, arena, o)
        if v.op == "nd" and I.assume(s2, I.alive(s2, v)) and I.assume(s2, eqi(o, k), False):
            from .engine import mkref
            out.append((o, mkref(r, p + (("node", o),)), s2))
        out.append((None, None, s))
    return out


@model("loro_thunderdome::Arena::get_by_slot", "loro_thunderdome::Arena::get_by_slot_mut", "loro_thunderdome::Arena::contains_slot")
def m_abyslot(I, args, st, site, t, fn):
    outs = by_slot(I, st, args[0], args[1])
    if outs is None:
        return None
    return [(NONE if k is None else some(k if fn["path"].endswith("contains_slot") else tup(k, x)), s) for k, x, s in outs]


@model("loro_thunderdome::Arena::remove_by_slot")
def m_arembyslot(I, args, st, site, t, fn):
    outs = by_slot(I, st, args[0], args[1])
    if outs is None:
        return None
    out = []
    for k, x, s in outs:
        if k is None:
            out.append((NONE, s))
        else:
            out += [(some(tup(k, fld(v, "Some", 0, "0"))), y) for v, y in m_aremove(I, [args[0], k], s, site, t, fn) if v is not NONE]
    return out


@model("loro_thunderdome::Arena::new", "loro_thunderdome::Arena::with_capacity")
def m_anew(I, args, st, site, t, fn):
    return [(mk("arena", mk("app", "emptyarena"), ()), st)]


@model("loro_thunderdome::Arena::len")
def m_alen(I, args, st, site, t, fn):
    return [(mk("app", "arenalen", arena_place(I, st, args[0])[2]), st)]


@model("loro_thunderdome::Arena::is_empty")
def m_aempty(I, args, st, site, t, fn):
    return [(eqi(mk("app", "arenalen", arena_place(I, st, args[0])[2]), num(0)), st)]


@model("loro_thunderdome::Arena::clear")
def m_aclear(I, args, st, site, t, fn):
    wr(I, st, args[0], mk("arena", mk("app", "emptyarena"), ()))
    return [(UNIT, st)]


@model("loro_thunderdome::Arena::iter")
def m_aiter(I, args, st, site, t, fn):
    s = mk("app", "arenaseq", arena_place(I, st, args[0])[2])
    return [(rec("I:seq", None, mk("mode", "val"), s, num(0), length(s)), st)]


# ------------------------------------------------------------------ hash maps
def known_keys(I, st, s, k):
    """the states in which it is known which key of a map under construction k is, if any: [(k, state)]"""
    base, layers = I.arena_parts(s)
    ks = [l.args[0] for l in layers if l.op == "w"]
    if not (base.op == "app" and base.args[0] == "emptymap") or len(ks) > 8:
        return [(k, st)]
    work = [st]
    for x in ks:
        nxt = []
        for y in work:
            c = eq(y.facts.canon(x), y.facts.canon(k))
            if y.facts.canon(x) is y.facts.canon(k) or y.facts.value(c) is not None:
                nxt.append(y)
            else:
                nxt += [z for _, z in I.split_bool(y, c)]
        work = nxt
    return [(y.facts.canon(k), y) for y in work]


def by_key(f):
    """a map operation, once for every way its key can relate to the keys there"""
    def g(I, args, st, site, t, fn):
        s = arena_place(I, st, args[0])[2]
        k = st.facts.canon(strip(I, st, args[1]))
        outs = []
        for k2, x in known_keys(I, st, s, k):
            r = f(I, [args[0], k2] + list(args[2:]), x, site, t, fn)
            if r is None:
                return None
            outs += r
        return outs
    return g


def map_lookup(I, st, a, k):
    s = arena_place(I, st, a)[2]
    k = st.facts.canon(strip(I, st, k))
    return [o for k2, x in known_keys(I, st, s, k) for o in map_lookup1(I, x, a, k2)]


def map_lookup1(I, st, a, k):
    from .engine import mkref
    from .engine import DEAD
    r, p, s = arena_place(I, st, a)
    k = st.facts.canon(strip(I, st, k))
    v = I.arena_get(st, s, k)
    ref = mkref(r, p + (("mapv", k),))
    if v is DEAD:
        return [(NONE, st)]
    if v.op == "nd":
        if v.args[0].op == "app" and v.args[0].args[0] == "emptymap":
            return [(NONE, st)]
        return [(some(ref) if b else NONE, x) for b, x in I.split_bool(st, mk("app", "inmap", v))]
    if v.op == "ite":
        # a quantified layer that may or may not cover the key
        out = []
        for b, x in I.split_bool(st, v.args[0]):
            out += map_lookup1(I, x, a, k)
        return out
    return [(some(ref), st)]


@model("std::collections::BTreeSet::new")
def m_bsnew(I, args, st, site, t, fn):
    if keytype(fn, 0) in INTS:
        return [(rec("IntSet", None, EMPTY), st)]
    return m_mnew(I, args, st, site, t, fn)


def int_set(I, st, a):
    """(root, path, entries in order) of a sorted set of numbers, None when it is something else"""
    if a.op != "ref":
        return (None, None, [g.args[0] for g in segs(a.args[2][0])]) if a.op == "rec" and a.args[0] == "IntSet" else None
    r, p = I.target(st, a)
    v = I.read(st, r, p)
    return (r, p, [g.args[0] for g in segs(v.args[2][0])]) if v.op == "rec" and v.args[0] == "IntSet" else None


def place_of(I, st, xs, k):
    """[(index, there already, state)] of a number among sorted ones"""
    out, work = [], [(0, st)]
    while work:
        i, s = work.pop()
        if i == len(xs):
            out.append((i, False, s))
            continue
        for e, s2 in I.split_bool(s, eqi(xs[i], k)):
            if e:
                out.append((i, True, s2))
                continue
            for b, s3 in I.split_bool(s2, lt(k, xs[i])):
                if b:
                    out.append((i, False, s3))
                else:
                    work.append((i + 1, s3))
    return out


def put_set(I, st, r, p, xs):
    I.write(st, r, p, rec("IntSet", None, mkseq([mk("u", x) for x in xs])))


def set_op(f):
    """a set operation that knows sorted sets of numbers"""
    import functools

    def deco(other):
        @functools.wraps(other)
        def g(I, args, st, site, t, fn):
            q = int_set(I, st, args[0]) if args[0].op in ("ref", "rec") else None
            if q is None:
                return other(I, args, st, site, t, fn)
            if len(q[2]) > 8:
                return None
            return f(I, q, [st.facts.canon(strip(I, st, a)) for a in args[1:]], st, fn)
        return g
    return deco


def is_insert(I, q, args, st, fn):
    r, p, xs = q
    out = []
    for i, there, s in place_of(I, st, xs, args[0]):
        if not there:
            put_set(I, s, r, p, xs[:i] + [args[0]] + xs[i:])
        out.append((boolean(not there), s))
    return out


def is_remove(I, q, args, st, fn):
    r, p, xs = q
    out = []
    for i, there, s in place_of(I, st, xs, args[0]):
        if there:
            put_set(I, s, r, p, xs[:i] + xs[i + 1:])
        out.append((boolean(there), s))
    return out


def is_contains(I, q, args, st, fn):
    return [(boolean(there), s) for _, there, s in place_of(I, st, q[2], args[0])]


@model("std::collections::BTreeSet::first", "std::collections::BTreeSet::last")
def m_bsfirst(I, args, st, site, t, fn):
    from .engine import mkref
    q = int_set(I, st, args[0])
    if q is None:
        return None
    r, p, xs = q
    if not xs:
        return [(NONE, st)]
    n = 0 if fn["path"].endswith("first") else len(xs) - 1
    return [(some(mkref(r, p + (("f", None, 0, "0"), ("at", num(n))))), st)]


@model("std::collections::BTreeSet::pop_first", "std::collections::BTreeSet::pop_last")
def m_bspop(I, args, st, site, t, fn):
    q = int_set(I, st, args[0])
    if q is None:
        return None
    r, p, xs = q
    if not xs:
        return [(NONE, st)]
    first = fn["path"].endswith("first")
    put_set(I, st, r, p, xs[1:] if first else xs[:-1])
    return [(some(xs[0] if first else xs[-1]), st)]


@model("std::collections::BTreeSet::iter")
def m_bsiter(I, args, st, site, t, fn):
    from .engine import mkref
    q = int_set(I, st, args[0])
    if q is None:
        return m_mkeys(I, args, st, site, t, {"path": "HashMap::iter"}) if False else None
    r, p, xs = q
    return [(iter_seq(REF, mkref(r, p + (("f", None, 0, "0"),)), num(0), num(len(xs))), st)]


def is_count(I, q, args, st, fn):
    n = len(q[2])
    return [(num(n) if fn["path"].endswith("len") else boolean(n == 0), st)]


@model("std::collections::HashMap::new", "std::collections::HashSet::new", "std::collections::HashSet::with_capacity", "std::collections::HashMap::with_capacity", "std::collections::BTreeMap::new",
       "std::collections::HashMap::with_hasher", "std::collections::HashMap::with_capacity_and_hasher")
def m_mnew(I, args, st, site, t, fn):
    return [(mk("arena", mk("app", "emptymap"), ()), st)]


@model("std::collections::HashMap::get", "std::collections::HashMap::get_mut", "std::collections::BTreeMap::get",
       "std::collections::BTreeMap::get_mut")
def m_mget(I, args, st, site, t, fn):
    return map_lookup(I, st, args[0], args[1])


@model("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key")
def m_mcont(I, args, st, site, t, fn):
    return [(boolean(x is not NONE), s) for x, s in map_lookup(I, st, args[0], args[1])]


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
@set_op(is_insert)
@by_key
def m_sinsert(I, args, st, site, t, fn):
    r, p, s = arena_place(I, st, args[0])
    k = st.facts.canon(args[1])
    v = I.arena_get(st, s, k)
    if v is UNIT:
        return [(FALSE, st)]
    if v.op == "nd" and v.args[0].op == "app" and v.args[0].args[0] == "emptymap":
        I.write(st, r, p, I.arena_set(st, s, k, UNIT))
        return [(TRUE, st)]
    return None


@model("std::collections::HashSet::contains", "std::collections::BTreeSet::contains")
@set_op(is_contains)
def m_scont(I, args, st, site, t, fn):
    return [(boolean(x is not NONE), s) for x, s in map_lookup(I, st, args[0], args[1])]


@model("std::collections::HashSet::remove", "std::collections::BTreeSet::remove")
@set_op(is_remove)
@by_key
def m_sremove(I, args, st, site, t, fn):
    r, p, s = arena_place(I, st, args[0])
    k = st.facts.canon(args[1])
    base, layers = I.arena_parts(s)
    if not (base.op == "app" and base.args[0] == "emptymap") or any(l.op != "w" for l in layers):
        return None
    rest = tuple(l for l in layers if st.facts.canon(l.args[0]) is not k)
    I.write(st, r, p, mk("arena", base, rest))
    return [(boolean(len(rest) < len(layers)), st)]


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
@by_key
def m_minsert(I, args, st, site, t, fn):
    r, p, s = arena_place(I, st, args[0])
    k = st.facts.canon(strip(I, st, args[1]))
    old = mk("app", "mapold", s, k)
    I.write(st, r, p, I.arena_set(st, s, k, args[2]))
    return [(old, st)]


@model("std::collections::HashMap::remove", "std::collections::BTreeMap::remove")
def m_mremove(I, args, st, site, t, fn):
    from .engine import DEAD
    out = []
    for o, x in map_lookup(I, st, args[0], args[1]):
        if o is NONE:
            out.append((NONE, x))
        else:
            v = I.deref(x, o.args[2][0])
            r, p = o.args[2][0].args
            I.write(x, r, p, DEAD)
            out.append((some(v), x))
    return out


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def m_mentry(I, args, st, site, t, fn):
    return [(rec("I:entry", None, args[0], strip(I, st, args[1])), st)]


@model("std::collections::hash_map::Entry::or_default", "std::collections::hash_map::Entry::or_insert",
       "std::collections::hash_map::Entry::or_insert_with", "std::collections::btree_map::Entry::or_insert",
       "std::collections::btree_map::Entry::or_default")
def m_ordef(I, args, st, site, t, fn):
    from .engine import mkref
    e = args[0]
    if e.op != "rec":
        return None
    m, k = e.args[2]
    out = []
    for o, x in map_lookup(I, st, m, k):
        if o is NONE:
            r, p, s = arena_place(I, x, m)
            if len(args) > 1:
                v = args[1]
            else:
                d = t["dty"]
                v = mk("app", "default", d.get("s", ""))
                if "Vec" in d.get("s", ""):
                    v = EMPTY
            I.write(x, r, p, I.arena_set(x, s, k, v))
            out.append((mkref(r, p + (("mapv", st.facts.canon(k)),)), x))
        else:
            out.append((o.args[2][0], x))
    return out


def map_entries(I, st, s):
    from .engine import DEAD
    base, layers = I.arena_parts(s)
    gs = []
    if base.op == "app" and base.args[0] == "emptymap":
        for l in layers:
            if l.op == "w":
                if l.args[1] is DEAD:
                    continue
                gs.append(mk("u", l.args[0] if l.args[1] is UNIT else tup(l.args[0], l.args[1])))
            elif l.op == "fa" and not l.args[3]:
                bv, lo, hi, g, k, v = l.args
                gs.append(mk("gen", bv, lo, hi, tup(k, v)))
            else:
                gs = None
                break
        if gs is not None:
            return mkseq(gs)
    return mk("app", "entries", s)


@model("std::collections::HashMap::is_empty", "std::collections::BTreeMap::is_empty", "std::collections::HashSet::is_empty",
       "std::collections::BTreeSet::is_empty")
@set_op(is_count)
def m_mempty(I, args, st, site, t, fn):
    s = arena_place(I, st, args[0])[2]
    e = map_entries(I, st, s)
    return [(eqi(length(e), num(0)), st)]


@model("std::collections::HashMap::len", "std::collections::HashSet::len", "std::collections::BTreeSet::len")
@set_op(is_count)
def m_mlen(I, args, st, site, t, fn):
    s = arena_place(I, st, args[0])[2]
    return [(length(map_entries(I, st, s)), st)]


@model("std::collections::HashMap::keys", "std::collections::HashMap::values", "std::collections::HashMap::iter",
       "std::collections::HashMap::into_iter", "std::collections::HashMap::drain", "std::collections::HashMap::iter_mut",
       "std::collections::HashMap::into_keys", "std::collections::HashMap::values_mut", "std::collections::HashSet::iter",
       "std::collections::HashSet::into_iter")
def m_mkeys(I, args, st, site, t, fn):
    s = arena_place(I, st, args[0])[2] if args[0].op == "ref" else args[0]
    k = fn["path"].split("::")[-1]
    if k in ("iter_mut", "values_mut", "drain"):
        return None
    e = map_entries(I, st, s)
    it = rec("I:seq", None, mk("mode", "val"), e, num(0), length(e))
    if k in ("keys", "into_keys"):
        it = rec("I:proj", None, it, num(0))
    if k == "values":
        it = rec("I:proj", None, it, num(1))
    return [(it, st)]


# ------------------------------------------------------------------ iterators
VAL = mk("mode", "val")
REF = mk("mode", "ref")


def iter_seq(mode, src, lo, hi):
    return rec("I:seq", None, mode, src, lo, hi)


@model("core::slice::iter", "core::slice::iter_mut", "std::vec::Vec::iter", "heapless::vec::VecInner::iter",
       "heapless::vec::VecInner::iter_mut", "std::collections::VecDeque::iter")
def m_iter(I, args, st, site, t, fn):
    from .engine import mkref
    r, p, s = place_seq(I, st, args[0])
    if I.peel_sub(p):
        q, lo, hi = I.peel_sub(p)
        return [(iter_seq(REF, mkref(r, q), lo, hi), st)]
    return [(iter_seq(REF, mkref(r, p), num(0), length(s)), st)]


@model("std::option::Option::iter", "std::option::Option::into_iter")
def m_optiter(I, args, st, site, t, fn):
    return [(rec("I:opt", None, args[0]), st)]


@model("std::iter::IntoIterator::into_iter")
def m_intoiter(I, args, st, site, t, fn):
    a = args[0]
    if a.op == "rec" and (str(a.args[0]).startswith("I:") or str(a.args[0]).startswith("std::ops::Range")):
        return [(a, st)]
    ty = t["atys"][0]
    adt = ty.get("adt") or ""
    if adt == TM.OPT:
        return [(rec("I:opt", None, a), st)]
    if ty.get("refs") and a.op == "ref":
        b = I.deref(st, a)
        if (fn.get("rpath") or "").startswith("<I as") and b.op == "rec" and (str(b.args[0]).startswith("I:") or I.prog.method(b.args[0], "next", "Iterator")):
            return [(a, st)]        # an iterator by reference is an iterator
        if b.op == "rec" and b.args[0] == "IntSet":
            return m_bsiter(I, args, st, site, t, fn)
        if b.op == "rec" and str(b.args[0]).startswith("I:") and ("GroupBy" in ty["s"] or "ChunkBy" in ty["s"] or "IntoChunks" in ty["s"]):
            return [(b, st)]
    if ty.get("refs"):
        if "HashMap" in ty.get("s", "") or "HashSet" in ty.get("s", ""):
            return m_mkeys(I, args, st, site, t, {"path": "HashMap::iter"})
        if ("GroupBy" in ty["s"] or "IntoChunks" in ty["s"]) and not (a.op == "ref" and I.deref(st, a).op == "rec"):
            return [(rec("I:opaque", None, strip(I, st, a), num(0)), st)]
        if a.op == "ref":
            return m_iter(I, args, st, site, t, fn)
        if a.op in ("fld", "sym", "app") and ("[" in ty["s"] or "Vec" in ty["s"]):
            return m_iter(I, args, st, site, t, fn)
    if a.op == "rec" and a.args[0] == "IntSet":
        return [(iter_seq(VAL, a.args[2][0], num(0), length(a.args[2][0])), st)]
    if adt.endswith(("HashMap", "HashSet")):
        e = map_entries(I, st, a)
        return [(iter_seq(VAL, e, num(0), length(e)), st)]
    if adt in ("std::vec::Vec", "heapless::vec::VecInner", "std::collections::VecDeque") or ty.get("s", "").startswith("["):
        return [(iter_seq(VAL, a, num(0), length(a)), st)]
    if a.hard:
        return [(a, st)]
    if adt.endswith("BTreeSet"):
        e = mk("app", "entries", a)
        return [(iter_seq(VAL, e, num(0), length(e)), st)]
    # a caller-supplied iterator: an opaque finite sequence
    if not adt or adt.startswith("impl"):
        e = mk("app", "items", a)
        return [(iter_seq(VAL, e, num(0), length(e)), st)]
    return [(a, st)]


@model("std::iter::Iterator::enumerate")
def m_enum(I, args, st, site, t, fn):
    return [(rec("I:enum", None, args[0], num(0)), st)]


@model("std::iter::Iterator::map")
def m_map(I, args, st, site, t, fn):
    return [(rec("I:map", None, args[0], args[1]), st)]


@model("std::iter::Iterator::copied", "std::iter::Iterator::cloned")
def m_copied(I, args, st, site, t, fn):
    b = args[0]
    while b.op == "rec" and b.args[0] in ("I:proj", "I:enum", "I:rev"):
        b = b.args[2][0]
    if b.op == "rec" and b.args[0] == "I:seq" and b.args[2][0] is VAL and args[0].args[0] != "I:enum":
        return [(args[0], st)]
    return [(rec("I:copied", None, args[0]), st)]


@model("std::iter::Iterator::rev")
def m_rev(I, args, st, site, t, fn):
    return [(rec("I:rev", None, args[0]), st)]


@model("std::iter::Iterator::chain")
def m_chain(I, args, st, site, t, fn):
    b = args[1]
    ty = t["atys"][1]
    if not (b.op == "rec" and str(b.args[0]).startswith("I:")):
        t2 = dict(t)
        t2["atys"] = [ty]
        o = m_intoiter(I, [b], st, site, t2, fn)
        b = o[0][0]
    return [(rec("I:chain", None, args[0], b), st)]


@model("std::iter::Iterator::skip")
def m_skip(I, args, st, site, t, fn):
    a = args[0]
    if a.op == "rec" and a.args[0] == "I:seq":
        m, s, lo, hi = a.args[2]
        out = []
        for b, x in I.split_bool(st, le(add(lo, args[1]), hi)):
            out.append((iter_seq(m, s, add(lo, args[1]) if b else hi, hi), x))
        return out
    if a.op == "rec" and a.args[0] == "I:enum":
        o = m_skip(I, [a.args[2][0], args[1]], st, site, t, fn)
        return [(rec("I:enum", None, x, add(a.args[2][1], args[1])) if not x.hard else x, s) for x, s in o]
    return [(rec("I:opaque", None, mk("app", "skip", a, args[1]), num(0)), st)]


@model("std::iter::Iterator::take")
def m_itake(I, args, st, site, t, fn):
    a = args[0]
    if a.op == "rec" and a.args[0] == "I:seq":
        m, s, lo, hi = a.args[2]
        out = []
        for b, x in I.split_bool(st, le(add(lo, args[1]), hi)):
            out.append((iter_seq(m, s, lo, add(lo, args[1]) if b else hi), x))
        return out
    return [(rec("I:take", None, a, args[1]), st)]


@model("core::slice::windows")
def m_windows(I, args, st, site, t, fn):
    n = numval(st.facts.canon(args[1]))
    o = m_iter(I, args[:1], st, site, t, fn)
    if n is None or n < 1 or len(o) != 1 or o[0][0].args[2][0] is not REF:
        return m_opaqueiter(I, args, st, site, t, fn)
    _, src, lo, hi = o[0][0].args[2]
    return [(rec("I:windows", None, src, lo, hi, num(n)), o[0][1])]


@model("std::iter::Iterator::zip")
def m_zip(I, args, st, site, t, fn):
    b = args[1]
    if not (b.op == "rec" and str(b.args[0]).startswith(("I:", "std::ops::Range"))):
        t2 = dict(t)
        t2["atys"] = [t["atys"][1]]
        b = m_intoiter(I, [b], st, site, t2, fn)[0][0]
    return [(rec("I:zip", None, args[0], b), st)]


@model("std::iter::Iterator::filter")
def m_filter(I, args, st, site, t, fn):
    return [(rec("I:filter", None, args[0], args[1]), st)]


@model("std::iter::Iterator::filter_map")
def m_filtermap(I, args, st, site, t, fn):
    return [(rec("I:fmap", None, args[0], args[1]), st)]


@model("std::iter::Iterator::flat_map")
def m_flatmap(I, args, st, site, t, fn):
    return [(rec("I:flat", None, args[0], args[1], NONE), st)]


@model("std::iter::Iterator::flatten")
def m_flatten(I, args, st, site, t, fn):
    return [(rec("I:flat", None, args[0], NONE, NONE), st)]


@model("std::option::Option::zip")
def m_optzip(I, args, st, site, t, fn):
    out = []
    for n, v, s in I.split_variant(st, args[0], ("Some", "None")):
        if n == "None":
            out.append((NONE, s))
            continue
        for m, w, s2 in I.split_variant(s, args[1], ("Some", "None")):
            out.append((NONE if m == "None" else some(tup(fld(v, "Some", 0, "0"), fld(w, "Some", 0, "0"))), s2))
    return out


@model("std::iter::Iterator::take_while",
       "std::iter::Iterator::skip_while", "std::iter::Iterator::step_by", "std::iter::Iterator::peekable",
       "std::iter::Iterator::scan", "core::slice::chunks",
       "std::iter::Iterator::map_while", "itertools::Itertools::chunks", "core::slice::chunks_exact")
def m_opaqueiter(I, args, st, site, t, fn):
    return [(rec("I:opaque", None, mk("app", fn["path"].split("::")[-1], *args), num(0)), st)]


@model("itertools::Itertools::group_by", "itertools::Itertools::chunk_by")
def m_groupby(I, args, st, site, t, fn):
    a = args[0]
    if a.op != "rec" or a.args[0] != "I:seq" or a.args[2][0] is not VAL:
        return m_opaqueiter(I, args, st, site, t, fn)
    _, s, lo, hi = a.args[2]
    xs = unit_items(st, mkseq([sl(st.facts.canon(s), lo, hi)]))
    if xs is None:
        return m_opaqueiter(I, args, st, site, t, fn)
    out = []
    f, wb = callable_place(I, st, args[1], site)
    for ks, y in keyed_by(I, st, xs, f, site, t):
        work = [([], y)]
        for _, (k, x) in ks:
            nxt = []
            for gs, z in work:
                for e, z2 in (I.split_bool(z, eq(z.facts.canon(gs[-1][0]), z.facts.canon(k))) if gs else [(False, z)]):
                    nxt.append((gs[:-1] + [(gs[-1][0], gs[-1][1] + [x])] if e else gs + [(k, [x])], z2))
            work = nxt
        for gs, z in work:
            items = [mk("u", tup(k, iter_seq(VAL, mkseq([mk("u", x) for x in g]), num(0), num(len(g))))) for k, g in gs]
            out.append((iter_seq(VAL, mkseq(items), num(0), num(len(items))), z))
    return out


@model("itertools::Itertools::chunks")
def m_chunks(I, args, st, site, t, fn):
    a, n = args[0], numval(st.facts.canon(args[1]))
    xs = None
    if n and a.op == "rec" and a.args[0] == "I:seq" and a.args[2][0] is VAL:
        _, s, lo, hi = a.args[2]
        xs = unit_items(st, mkseq([sl(st.facts.canon(s), lo, hi)]), 400)
    if xs is None:
        return m_opaqueiter(I, args, st, site, t, fn)
    items = []
    for i in range(0, len(xs), n):
        g = xs[i:i + n]
        items.append(mk("u", iter_seq(VAL, mkseq([mk("u", x) for x in g]), num(0), num(len(g)))))
    return [(iter_seq(VAL, mkseq(items), num(0), num(len(items))), st)]


@model("std::iter::from_fn")
def m_fromfn(I, args, st, site, t, fn):
    return [(rec("I:fromfn", None, args[0]), st)]


@model("std::iter::once")
def m_once(I, args, st, site, t, fn):
    return [(iter_seq(VAL, mkseq([mk("u", args[0])]), num(0), num(1)), st)]


@model("std::iter::empty")
def m_emptyit(I, args, st, site, t, fn):
    return [(iter_seq(VAL, EMPTY, num(0), num(0)), st)]


def item_at(I, st, mode, src, i):
    if mode is REF:
        return ref_at(I, st, src.args[0], src.args[1], i)
    return I.seq_get(st, src, i)


def inext(I, st, it, site, t, back=False):
    """[(item or None, next iterator, state)]"""
    if it.op == "ref":
        r, p = it.args
        out = []
        for x, n, s in inext(I, st, I.read(st, r, p), site, t, back):
            I.write(s, r, p, n)
            out.append((x, it, s))
        return out
    if it.op == "ite":
        out = []
        for b, s in I.split_bool(st, it.args[0]):
            out += inext(I, s, it.args[1] if b else it.args[2], site, t, back)
        return out
    k = str(it.args[0]) if it.op == "rec" else ""
    if k == "I:seq":
        m, s, lo, hi = it.args[2][:4]
        out = []
        for b, x in I.split_bool(st, lt(lo, hi)):
            if not b:
                out.append((None, it, x))
            elif back:
                j = sub(hi, num(1))
                out.append((item_at(I, x, m, s, j), iter_seq(m, s, lo, j), x))
            else:
                out.append((item_at(I, x, m, s, lo), iter_seq(m, s, add(lo, num(1)), hi), x))
        return out
    if k == "std::ops::Range":
        lo, hi = it.args[2]
        out = []
        for b, x in I.split_bool(st, lt(lo, hi)):
            if not b:
                out.append((None, it, x))
            elif back:
                j = sub(hi, num(1))
                out.append((j, rec(k, None, lo, j), x))
            else:
                out.append((lo, rec(k, None, add(lo, num(1)), hi), x))
        return out
    if k == "std::ops::RangeInclusive":
        lo, hi, ex = it.args[2]
        out = []
        for b, x in I.split_bool(st, le(lo, hi)):
            if not b:
                out.append((None, it, x))
            elif back:
                out.append((hi, rec(k, None, lo, sub(hi, num(1)), ex), x))
            else:
                out.append((lo, rec(k, None, add(lo, num(1)), hi, ex), x))
        return out
    if k == "std::ops::RangeFrom":
        lo = it.args[2][0]
        return [(lo, rec(k, None, add(lo, num(1))), st)]
    if k == "I:enum" and not back:
        inner, c = it.args[2]
        return [(None if x is None else tup(c, x), rec(k, None, n, c if x is None else add(c, num(1))), s)
                for x, n, s in inext(I, st, inner, site, t)]
    if k == "I:enum" and back:
        inner, c = it.args[2]
        out = []
        for x, n, s in inext(I, st, inner, site, t, True):
            ln = remaining(n)
            out.append((None if x is None else tup(add(c, ln) if ln is not None else unk("enum"), x), rec(k, None, n, c), s))
        return out
    if k == "I:map":
        inner, f = it.args[2]
        out = []
        for x, n, s in inext(I, st, inner, site, t, back):
            if x is None:
                out.append((None, rec(k, None, n, f), s))
                continue
            fv, wb = callable_place(I, s, f, site)
            for v, s2 in I.call_value(fv, [x], s, site, t):
                out.append((v, rec(k, None, n, wb(s2)), s2))
        return out
    if k == "I:filter":
        inner, f = it.args[2]
        left = at_most(inner)
        left = None if left is None else numval(st.facts.canon(left))
        if left is None or left > 6:
            c = I.note("filter")
            out = []
            for some_, s in ((True, st), (False, st.copy())):
                if I.assume(s, mk("app", "found", c), some_):
                    out.append((c if some_ else None, it, s))
            return out
        out, work = [], [(inner, st)]
        while work:
            inn, s0 = work.pop()
            for x, n, s in inext(I, s0, inn, site, t, back):
                if x is None:
                    out.append((None, rec(k, None, n, f), s))
                    continue
                from .engine import mkref
                for v, s2 in I.call_value(f, [mkref(("K", x), ())], s, site, t):
                    for yes, s3 in I.split_bool(s2, v):
                        if yes:
                            out.append((x, rec(k, None, n, f), s3))
                        else:
                            work.append((n, s3))
        return out
    if k == "I:copied":
        return [(None if x is None else I.deref(s, x), rec(k, None, n), s) for x, n, s in inext(I, st, it.args[2][0], site, t, back)]
    if k == "I:proj":
        inner, j = it.args[2]
        return [(None if x is None else fld(x, None, numval(j), str(numval(j))), rec(k, None, n, j), s)
                for x, n, s in inext(I, st, inner, site, t, back)]
    if k == "I:rev":
        return [(x, rec(k, None, n), s) for x, n, s in inext(I, st, it.args[2][0], site, t, not back)]
    if k == "I:zip" and not back:
        a, b = it.args[2]
        out = []
        for x, n, s in inext(I, st, a, site, t):
            if x is None:
                out.append((None, rec(k, None, n, b), s))
                continue
            for y, m, s2 in inext(I, s, b, site, t):
                out.append((None if y is None else tup(x, y), rec(k, None, n, m), s2))
        return out
    if k == "I:chain":
        a, b = it.args[2]
        if back:
            a, b = b, a
        out = []
        for x, n, s in inext(I, st, a, site, t, back):
            mkc = (lambda p, q: rec(k, None, q, p)) if back else (lambda p, q: rec(k, None, p, q))
            if x is not None:
                out.append((x, mkc(n, b), s))
                continue
            for y, m, s2 in inext(I, s, b, site, t, back):
                out.append((y, mkc(n, m), s2))
        return out
    if k == "I:opt":
        o = it.args[2][0]
        out = []
        isref = o.op == "ref"
        ov = strip(I, st, o) if isref else o
        for n, v, s in I.split_variant(st, ov, ("Some", "None")):
            if n == "None":
                out.append((None, rec(k, None, NONE), s))
            else:
                from .engine import mkref
                x = mkref(o.args[0], o.args[1] + (("f", "Some", 0, "0"),)) if isref else fld(s.facts.canon(v) if v.op != "rec" else v, "Some", 0, "0")
                out.append((x, rec(k, None, NONE), s))
        return out
    if k == "I:fromfn":
        f = it.args[2][0]
        fv, wb = callable_place(I, st, f, site)
        out = []
        for v, s in I.call_value(fv, [], st, site, t):
            for n, v2, s2 in I.split_variant(s, v, ("Some", "None")):
                out.append((None if n == "None" else fld(v2, "Some", 0, "0"), rec(k, None, wb(s2)), s2))
        return out
    if k == "I:take" and not back:
        inner, n = it.args[2]
        out = []
        for v, s in I.split_bool(st, lt(num(0), n)):
            if not v:
                out.append((None, it, s))
                continue
            got = inext(I, s, inner, site, t)
            if got is None:
                return None
            out += [(x, rec(k, None, nx, sub(n, num(1)) if x is not None else n), s2) for x, nx, s2 in got]
        return out
    if k == "I:windows" and not back:
        from .engine import mkref
        src, lo, hi, n = it.args[2]
        out = []
        for v, s in I.split_bool(st, le(add(lo, n), hi)):
            x = mkref(src.args[0], src.args[1] + (("sub", lo, add(lo, n)),)) if v else None
            out.append((x, rec(k, None, src, add(lo, num(1)) if v else lo, hi, n), s))
        return out
    if k == "I:fmap" and not back:
        inner, f = it.args[2]
        out, work = [], [(inner, f, st, 0)]
        while work:
            inr, fc, s0, n = work.pop()
            if n > 4:
                from .engine import Limit
                raise Limit("filter_map")
            for x, nx, s in inext(I, s0, inr, site, t) or [(I.note("filter_map"), inr, s0)]:
                if x is None:
                    out.append((None, rec(k, None, nx, fc), s))
                    continue
                fv, wb = callable_place(I, s, fc, site)
                for v, s2 in I.call_value(fv, [x], s, site, t):
                    f2 = wb(s2)
                    for vn, v2, s3 in I.split_variant(s2, v, ("Some", "None")):
                        if vn == "Some":
                            out.append((fld(v2, "Some", 0, "0"), rec(k, None, nx, f2), s3))
                        else:
                            work.append((nx, f2, s3, n + 1))
        return out
    if k == "I:flat" and not back:
        inner, f, cur = it.args[2]
        out, work = [], [(inner, f, cur, st, 0)]
        while work:
            inr, fc, c, s0, n = work.pop()
            if n > 4:
                from .engine import Limit
                raise Limit("flat_map")
            if c is not NONE:
                got = inext(I, s0, c, site, t)
                if got is None:
                    return None
                for x, nc, s in got:
                    if x is not None:
                        out.append((x, rec(k, None, inr, fc, nc), s))
                    else:
                        work.append((inr, fc, NONE, s, n + 1))
                continue
            got = inext(I, s0, inr, site, t)
            if got is None:
                return None
            for x, nx, s in got:
                if x is None:
                    out.append((None, rec(k, None, nx, fc, NONE), s))
                    continue
                if fc is NONE:
                    fv, wb = None, lambda _: NONE
                else:
                    fv, wb = callable_place(I, s, fc, site)
                for v, s2 in [(x, s)] if fv is None else I.call_value(fv, [x], s, site, t):
                    v = s2.facts.canon(v)
                    if v.op == "seq":
                        v = iter_seq(VAL, v, num(0), length(v))
                    elif v.op == "rec" and str(v.args[0]).endswith("option::Option"):
                        v = rec("I:opt", None, v)
                    if not (v.op == "rec" and (str(v.args[0]).startswith("I:") or I.prog.method(v.args[0], "next", "Iterator"))):
                        return None
                    work.append((nx, wb(s2), v, s2, n + 1))
        return out
    if it.op == "rec" and not back and I.prog.method(it.args[0], "next", "Iterator") is not None:
        # an iterator of the crate
        from .engine import mkref
        b = I.prog.method(it.args[0], "next", "Iterator")
        I.tmpn = getattr(I, "tmpn", 0)
        root = ("T", "its", site.fid, site.block, I.tmpn)
        I.tmpn += 1
        st.store[root] = it
        c = I.contract(b)
        out = []
        for v, s in (c(I, [mkref(root, ())], st, site, t, b) if c else I.run(b, [mkref(root, ())], st, site.fid, (site.block, "next"))):
            n = s.store.pop(root, it)
            for vn, v2, s2 in I.split_variant(s, v, ("Some", "None")):
                out.append((None if vn == "None" else fld(v2, "Some", 0, "0"), n, s2))
        return out
    if k == "I:opaque":
        src, i = it.args[2]
        if drained(st, src):
            return [(None, it, st)]
        u = unk("iterator")
        b = mk("app", "more", src, i, u)
        out = []
        for v, s in I.split_bool(st, b):
            out.append((mk("app", "item", src, i, u) if v else None, rec(k, None, src, add(i, num(1)) if v else i), s))
        return out
    return None


def drained(st, src):
    """an adapter over an iterator that yields nothing"""
    while src.op == "app" and len(src.args) > 1:
        src = src.args[1]
    src = st.facts.canon(src)
    return src.op == "rec" and str(src.args[0]) == "I:opt" and st.facts.canon(src.args[2][0]) is NONE


def callable_place(I, st, f, site):
    """a by-value closure is called through a temporary so that its captured state persists"""
    if f.op == "rec" and str(f.args[0]).startswith("closure:"):
        from .engine import mkref
        I.tmpn = getattr(I, "tmpn", 0)
        root = ("T", "clo", site.fid, site.block, I.tmpn)
        I.tmpn += 1
        st.store[root] = f

        def wb(s):
            return s.store.pop(root, f)
        return mkref(root, ()), wb
    return f, lambda s: f


def remaining(it):
    if it.op != "rec":
        return None
    k = str(it.args[0])
    if k == "I:seq":
        return sub(it.args[2][3], it.args[2][2])
    if k == "std::ops::Range":
        return sub(it.args[2][1], it.args[2][0])
    if k in ("I:enum", "I:map", "I:copied", "I:proj", "I:rev"):
        return remaining(it.args[2][0])
    return None


def at_most(it):
    """a bound on the number of items left, when there is one"""
    while it.op == "rec" and str(it.args[0]) in ("I:filter", "I:fmap", "I:skip"):
        it = it.args[2][0]
    return remaining(it)


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(I, args, st, site, t, fn):
    back = fn["path"].endswith("next_back")
    a = args[0]
    r, p = I.target(st, a)
    it = I.read(st, r, p)
    outs = inext(I, st, it, site, t, back) if it.op in ("rec", "ref", "ite") else None
    if outs is None:
        if it.hard:
            I.write(st, r, p, unk("next"))
            return [(unk("next"), st)]
        # an iterator the analysis knows nothing about: opaque stream
        it2 = rec("I:opaque", None, it, num(0))
        outs = inext(I, st, it2, site, t)
    out = []
    for x, n, s in outs:
        I.write(s, r, p, n)
        out.append((NONE if x is None else some(x), s))
    return out


def consume(I, st, it, site, t, fn, body, acc):
    """run `body(state, acc, item)` -> [(acc', state)] over all items: [(acc, state, stopped value)]"""
    from .loops import model_loop
    return model_loop(I, st, it, site, t, body, acc)


def pure_item(I, st, it, site, t):
    """symbolic k-th item of an iterator without side effects: (lo, count, bv, item) or None"""
    n = remaining(it)
    if n is None:
        return None
    bv = mk("bv", ("it", site.path, site.block, it.id))
    it2 = shift_iter(it, bv)
    if it2 is None:
        return None
    s = st.copy()
    if not (I.assume(s, lt(bv, n)) if True else True):
        return None
    before = (frozenset(s.store.items()), s.log)
    outs = inext(I, s, it2, site, t)
    if outs is None:
        return None
    outs = [(x, m, y) for x, m, y in outs if x is not None]
    if not outs:
        return None
    for x, m, y in outs:
        if (frozenset(y.store.items()), y.log) != before:
            return None
    if len(outs) > 1:
        # join by the facts that separate them
        v = outs[0][0]
        if all(x is v for x, _, _ in outs):
            return n, bv, v
        return None
    return n, bv, outs[0][0]


def shift_iter(it, k):
    kk = str(it.args[0])
    if kk == "I:seq":
        m, s, lo, hi = it.args[2]
        return iter_seq(m, s, add(lo, k), hi)
    if kk == "std::ops::Range":
        return rec(kk, None, add(it.args[2][0], k), it.args[2][1])
    if kk == "I:enum":
        i = shift_iter(it.args[2][0], k)
        return i and rec(kk, None, i, add(it.args[2][1], k))
    if kk in ("I:map", "I:proj"):
        i = shift_iter(it.args[2][0], k)
        return i and rec(kk, None, i, it.args[2][1])
    if kk == "I:copied":
        i = shift_iter(it.args[2][0], k)
        return i and rec(kk, None, i)
    if kk == "I:rev":
        inner = it.args[2][0]
        if inner.op == "rec" and inner.args[0] == "I:seq":
            m, s, lo, hi = inner.args[2]
            return rec(kk, None, iter_seq(m, s, lo, sub(hi, k)))
        if inner.op == "rec" and inner.args[0] == "std::ops::Range":
            return rec(kk, None, rec("std::ops::Range", None, inner.args[2][0], sub(inner.args[2][1], k)))
    return None


def placeless(x):
    """made of an element at an undecided place of a concatenation"""
    if isinstance(x, tuple):
        return any(placeless(y) for y in x)
    if not isinstance(x, T) or not x.unk:
        return False
    return x.op == "el" and x.args[0].op == "seq" and len(x.args[0].args[0]) > 1 or any(placeless(y) for y in x.args)


def collect(I, st, it, site, t):
    """[(sequence, state)]"""
    if it.op == "rec" and not str(it.args[0]).startswith(("I:", "std::ops::Range")):
        it = it
    if it.op == "rec" and it.args[0] == "I:seq" and it.args[2][0] is VAL:
        m, s, lo, hi = it.args[2]
        return [(I.seq_slice(st, s, lo, hi), st)]
    if it.op == "seq" or (it.op in ("fld", "sym", "app", "slice", "deref") and not it.hard):
        return [(it, st)]
    if it.op == "rec":
        if it.args[0] == "I:copied" and it.args[2][0].op == "rec" and it.args[2][0].args[0] == "I:seq":
            m, s, lo, hi = it.args[2][0].args[2]
            if m is REF:
                v = I.deref(st, s)
                return [(I.seq_slice(st, v, lo, hi), st)]
        p = pure_item(I, st, it, site, t)
        if p is not None and not placeless(p[2]):
            n, bv, item = p
            return [(mkseq([mk("gen", bv, num(0), n, item)]), st)]

        def body(s, acc, x):
            return [(concat(acc, mkseq([unit(x)])), s, None)]
        r = consume(I, st, it, site, t, None, body, EMPTY)
        if r is not None:
            return [(a, s) for a, s, _ in r]
    return [(I.note("collect"), st)]


def collect_units(I, st, it, site, t, most=4):
    """like collect, but a handful of items is listed one by one"""
    n = remaining(it)
    n = st.facts.canon(n) if n is not None else None
    n = None if n is None else numval(n)
    if n is None or not 0 <= n <= most:
        return collect(I, st, it, site, t)
    work = [(EMPTY, it, st)]
    out = []
    for _ in range(n + 1):
        nxt = []
        for acc, i, s in work:
            for x, i2, s2 in inext(I, s, i, site, t) or [(None, None, None)]:
                if s2 is None:
                    return collect(I, st, it, site, t)
                if x is None:
                    out.append((acc, s2))
                else:
                    nxt.append((concat(acc, mkseq([unit(x)])), i2, s2))
        work = nxt
    return out if not work else collect(I, st, it, site, t)


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(I, args, st, site, t, fn):
    adt = t["dty"].get("adt") or ""
    if adt.endswith(("HashSet", "HashMap")):
        out = []
        for q, x in collect_units(I, st, args[0], site, t):
            gs = segs(x.facts.canon(q))
            if q.hard or any(g.op != "u" for g in gs) or len(gs) > 4:
                out.append((unk("collect"), x))
                continue
            work = [(mk("arena", mk("app", "emptymap"), ()), x)]
            for g in gs:
                e = g.args[0]
                k, v = (e, UNIT) if adt.endswith("HashSet") else (fld(e, None, 0, "0"), fld(e, None, 1, "1"))
                work = [(I.arena_set(z, m, k2, v), z) for m, y in work for k2, z in known_keys(I, y, m, y.facts.canon(k))]
            out += work
        return out
    if "Map" in adt or "Set" in adt:
        return [(unk("collect"), st)]
    return collect(I, st, args[0], site, t)


@model("std::iter::Iterator::sum")
def m_sum(I, args, st, site, t, fn):
    return [(seqsum(s), x) for s, x in collect_vals(I, st, args[0], site, t)]


def seqsum(s):
    return TM.sumseq(s)


def collect_vals(I, st, it, site, t):
    out = []
    for s, x in collect(I, st, it, site, t):
        out.append((s, x))
    return out


@model("std::iter::Iterator::count", "std::iter::ExactSizeIterator::len")
def m_count(I, args, st, site, t, fn):
    it = strip(I, st, args[0])
    n = remaining(it)
    if n is not None:
        return [(n, st)]
    out, work = [], [(0, it, st)]
    while work:
        i, x, s = work.pop()
        got = inext(I, s, x, site, t) if i < 16 and (x.op == "rec" and x.args[0] != "I:opaque" or x.op in ("ref", "ite")) else None
        if got is None:
            out.append((unk("count"), s))
            continue
        for y, nx, s2 in got:
            if y is None:
                out.append((num(i), s2))
            else:
                work.append((i + 1, nx, s2))
    return out


@model("std::iter::Iterator::size_hint")
def m_hint(I, args, st, site, t, fn):
    return [(mk("app", "size_hint", strip(I, st, args[0])), st)]


@model("std::iter::Iterator::last")
def m_last(I, args, st, site, t, fn):
    out = []
    for x, n, s in inext(I, st, args[0], site, t, True) or [(unk("last"), None, st)]:
        out.append((NONE if x is None else some(x), s))
    return out


@model("std::iter::Iterator::nth")
def m_nth(I, args, st, site, t, fn):
    r, p = I.target(st, args[0])
    it = I.read(st, r, p)
    n = remaining(it)
    i2 = shift_iter(it, args[1]) if it.op == "rec" else None
    if n is None or i2 is None:
        I.write(st, r, p, unk("nth"))
        return [(unk("nth"), st)]
    out = []
    for b, s in I.split_bool(st, lt(args[1], n)):
        if not b:
            out.append((NONE, s))
            continue
        for x, m, s2 in inext(I, s, i2, site, t):
            I.write(s2, r, p, m)
            out.append((NONE if x is None else some(x), s2))
    return out


def asked(I, s, f, x, site, t, kind):
    """[(answer, state)] of a question about one item"""
    arg = x
    root = ("T", "find", site.fid, site.block)
    if kind == "find":
        from .engine import mkref
        s.store[root] = x
        arg = mkref(root, ())
    out = I.call_value(f, [arg], s, site, t)
    for _, s2 in out:
        s2.store.pop(root, None)
    return out


def acts(I, st, it, f, site, t, kind):
    """the closure changes something outside itself"""
    s = st.copy()
    before = dict(s.store)
    mark = I.mark()
    fv, wb = callable_place(I, s, f, site)
    own = set(s.store) - set(before)
    own0 = {r: s.store[r] for r in own}
    it2 = shift_iter(it, mk("bv", ("at", site.path, site.block)))
    outs = inext(I, s, it2, site, t) if it2 is not None else None
    r = False
    for x, _, s1 in outs or []:
        if x is None:
            continue
        for _, s2 in asked(I, s1, fv, x, site, t, kind):
            r = r or any(s2.store.get(q) is not v for q, v in before.items()) or any(s2.store.get(q) is not v for q, v in own0.items()) or any(
                q[0] == "O" and q not in before and v is not mk("deref", q[1]) for q, v in s2.store.items())
    I.reset(mark)
    return r


def search_loop(I, st, it, f, site, t, kind, place):
    """a search round by round"""
    from .engine import mkref
    st = st.copy()
    root = ("T", "each", site.fid, site.block)
    st.store[root] = f
    hit = ("T", "hit", site.fid, site.block)

    def body(s, acc, x):
        out = []
        for v, s2 in asked(I, s, mkref(root, ()), x, site, t, kind):
            if kind == "find_map":
                for vn, v2, s3 in I.split_variant(s2, v, ("Some", "None")):
                    if vn == "Some":
                        s3.store[hit] = v2
                    out.append((acc, s3, "hit") if vn == "Some" else (add(acc, num(1)), s3, None))
                continue
            for b, s3 in I.split_bool(s2, v):
                if b is (kind != "all"):
                    s3.store[hit] = x
                    out.append((acc, s3, "hit"))
                else:
                    out.append((add(acc, num(1)), s3, None))
        return out
    r = consume(I, st, it, site, t, None, body, num(0))
    if r is None:
        return None
    out = []
    for a, s, tag in r:
        s.store.pop(root, None)
        x = s.store.pop(hit, None)
        if place:
            I.write(s, place[0], place[1], unk(kind))
        if tag == "hit":
            out.append(({"position": some(a), "find": some(x) if x is not None else None, "find_map": x, "any": TRUE, "all": FALSE}[kind], s))
        else:
            out.append(({"any": FALSE, "all": TRUE}.get(kind, NONE), s))
    return out


@model("std::iter::Iterator::position", "std::iter::Iterator::find", "std::iter::Iterator::rposition", "std::iter::Iterator::any",
       "std::iter::Iterator::all", "std::iter::Iterator::find_map")
def m_search(I, args, st, site, t, fn):
    kind = fn["path"].split("::")[-1]
    it = args[0]
    place = None
    if it.op == "ref":
        place = it.args
        it = I.read(st, *place)
    f = args[1]
    n = remaining(it) if it.op == "rec" else None
    if kind == "find_map" or n is not None and kind != "rposition" and acts(I, st, it, f, site, t, kind):
        r = search_loop(I, st, it, f, site, t, kind, place)
        if r is not None:
            return r
    if n is None or kind == "find_map":
        if place:
            I.write(st, place[0], place[1], unk(kind))
        return [(unk(kind), st)]
    j = mk("app", "idx:" + kind, mk("app", "itkey", snapshot(I, st, it), clokey(I, st, f)))
    out = []
    want = kind != "all"
    for h in I.search_rules:
        h(I, st, kind, it, f, j, site, t)
    hit = st.copy()
    if I.assume(hit, lt(j, n)):
        it2 = shift_iter(it, j)
        outs = inext(I, hit, it2, site, t) if it2 is not None else None
        if outs is None:
            outs = [(unk(kind), None, hit)]
        for x, m, s in outs:
            if x is None:
                continue
            fv, wb = callable_place(I, s, f, site)
            arg = x
            if kind == "find":
                from .engine import mkref
                root = ("T", "find", site.fid, site.block)
                s.store[root] = x
                arg = mkref(root, ())
            for v, s2 in I.call_value(fv, [arg], s, site, t):
                wb(s2)
                if kind == "find":
                    s2.store.pop(root, None)
                for b, s3 in I.split_bool(s2, v):
                    if b is not want:
                        continue
                    if place:
                        I.write(s3, place[0], place[1], m if m is not None else unk(kind))
                    r = {"position": some(j), "rposition": some(j), "find": some(x), "any": TRUE, "all": FALSE}[kind]
                    out.append((r, s3))
    miss = st.copy()
    # no element satisfies it: recorded as an index past the end
    if not I.assume(miss, lt(j, n), False):
        return out
    if place:
        I.write(miss, place[0], place[1], unk(kind))
    out.append(({"any": FALSE, "all": TRUE}.get(kind, NONE), miss))
    return out


def snapshot(I, st, it):
    """the iterator with the sequences it runs over in place of their places"""
    if it.op == "ref":
        return st.facts.canon(I.deref(st, it))
    if it.op == "rec":
        return mk("rec", it.args[0], it.args[1], tuple(snapshot(I, st, x) for x in it.args[2]))
    return st.facts.canon(it)


def clokey(I, st, f):
    v = strip(I, st, f) if f.op == "ref" else f
    if v.op == "rec":
        return mk("rec", v.args[0], None, tuple(strip(I, st, x) if x.op == "ref" else x for x in v.args[2]))
    return v


@model("std::iter::Iterator::for_each", "std::iter::Iterator::fold", "std::iter::Iterator::try_for_each")
def m_foreach(I, args, st, site, t, fn):
    kind = fn["path"].split("::")[-1]
    it = args[0]
    if kind == "try_for_each":
        return None
    f = args[-1]
    root = ("T", "each", site.fid, site.block)
    st.store[root] = f
    from .engine import mkref

    def body(s, acc, x):
        a = [acc, x] if kind == "fold" else [x]
        return [((v if kind == "fold" else acc), s2, None) for v, s2 in I.call_value(mkref(root, ()), a, s, site, t)]
    r = consume(I, st, it, site, t, fn, body, args[1] if kind == "fold" else UNIT)
    if r is None:
        return None
    out = []
    for a, s, _ in r:
        s.store.pop(root, None)
        out.append((a, s))
    return out


@model("std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key")
def m_itmax(I, args, st, site, t, fn):
    return [(unk(fn["path"].split("::")[-1]), st)]


# ------------------------------------------------------------------ calls through Fn traits
@model("std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once", "std::ops::Fn::call")
def m_callfn(I, args, st, site, t, fn):
    f, a = args
    a = st.facts.canon(a) if a.op != "rec" else a
    xs = list(a.args[2]) if a.op == "rec" else [a]
    return I.call_value(f, xs, st, site, t)


# ------------------------------------------------------------------ ranges of unknown type
@model("std::ops::RangeBounds::start_bound", "std::ops::RangeBounds::end_bound")
def m_bound(I, args, st, site, t, fn):
    start = fn["path"].endswith("start_bound")
    r = strip(I, st, args[0])
    B = "std::ops::Bound"
    from .engine import mkref
    if r.op == "rec" and r.args[0] == "I:bounds":
        q, p = tgt(I, st, args[0])
        b = r.args[2][0 if start else 1]
        k = b.args[1]
        if k == "Unbounded":
            return [(b, st)]
        return [(rec(B, k, mkref(q, p + (("f", None, 0 if start else 1, "start" if start else "end"), ("f", k, 0, "0")))), st)]
    if r.op == "rec" and str(r.args[0]).startswith("std::ops::Range"):
        k = str(r.args[0]).split("::")[-1]
        q, p = tgt(I, st, args[0])
        def f(i, n):
            return mkref(q, p + (("f", None, i, n),))
        if k == "Range":
            return [(rec(B, "Included", f(0, "start")) if start else rec(B, "Excluded", f(1, "end")), st)]
        if k == "RangeFrom":
            return [(rec(B, "Included", f(0, "start")) if start else rec(B, "Unbounded"), st)]
        if k == "RangeTo":
            return [(rec(B, "Unbounded") if start else rec(B, "Excluded", f(0, "end")), st)]
        if k == "RangeFull":
            return [(rec(B, "Unbounded"), st)]
        if k == "RangeToInclusive":
            return [(rec(B, "Unbounded") if start else rec(B, "Included", f(0, "end")), st)]
        if k == "RangeInclusive":
            return [(rec(B, "Included", f(0, "start")) if start else rec(B, "Included", f(1, "end")), st)]
    return [(mk("app", "start_bound" if start else "end_bound", r), st)]


# ------------------------------------------------------------------ caller-supplied traits (uninterpreted)
@model("BTreeTrait::get_elem_cache")
def m_ec(I, args, st, site, t, fn):
    e = strip(I, st, args[0])
    return [(I.theory.ec(e) if I.theory else mk("app", "ec", e), st)]


@model("BTreeTrait::calc_cache_internal")
def m_cc(I, args, st, site, t, fn):
    s = place_seq(I, st, args[1])[2]
    old = rd(I, st, args[0])
    new = I.theory.cc(s) if I.theory else mk("app", "cc", s)
    wr(I, st, args[0], new)
    return [(I.theory.dsub(new, old) if I.theory else mk("app", "dsub", new, old), st)]


@model("BTreeTrait::apply_cache_diff")
def m_apply(I, args, st, site, t, fn):
    f = I.theory.apply if I.theory else (lambda a, b: mk("app", "apply", a, b))
    wr(I, st, args[0], f(rd(I, st, args[0]), strip(I, st, args[1])))
    return [(UNIT, st)]


@model("BTreeTrait::merge_cache_diff")
def m_mdiff(I, args, st, site, t, fn):
    f = I.theory.mdiff if I.theory else (lambda a, b: mk("app", "mdiff", a, b))
    wr(I, st, args[0], f(rd(I, st, args[0]), strip(I, st, args[1])))
    return [(UNIT, st)]


@model("BTreeTrait::new_cache_to_diff")
def m_c2d(I, args, st, site, t, fn):
    c = strip(I, st, args[0])
    return [(I.theory.c2d(c) if I.theory else mk("app", "c2d", c), st)]


@model("BTreeTrait::sub_cache")
def m_subc(I, args, st, site, t, fn):
    f = I.theory.dsub if I.theory else (lambda a, b: mk("app", "dsub", a, b))
    return [(f(strip(I, st, args[0]), strip(I, st, args[1])), st)]


def rle_of(e):
    """length of an element; the documented laws of merging, splitting and inserting"""
    if e.op == "app":
        k = e.args[0]
        if k == "cat":
            return add(rle_of(e.args[1]), rle_of(e.args[2]))
        if k == "sub":
            return sub(e.args[3], e.args[2])
        if k == "ins":
            return add(rle_of(e.args[1]), rle_of(e.args[3]))
    if e.op == "ite":
        return mkite(e.args[0], rle_of(e.args[1]), rle_of(e.args[2]))
    return mk("app", "rle", e)


TM.APP_NORM["rle"] = rle_of


@model("rle::HasLength::rle_len")
def m_rle(I, args, st, site, t, fn):
    return [(rle_of(strip(I, st, args[0])), st)]


@model("rle::Mergeable::can_merge")
def m_canmerge(I, args, st, site, t, fn):
    return [(mk("app", "can_merge", strip(I, st, args[0]), strip(I, st, args[1])), st)]


@model("rle::Mergeable::merge_right")
def m_mr(I, args, st, site, t, fn):
    a = rd(I, st, args[0])
    b = strip(I, st, args[1])
    st.ev("merge", a, b, site, I.implied(st, mk("app", "can_merge", a, b)))
    wr(I, st, args[0], mk("app", "cat", a, b))
    return [(UNIT, st)]


@model("rle::Mergeable::merge_left")
def m_ml(I, args, st, site, t, fn):
    a = rd(I, st, args[0])
    b = strip(I, st, args[1])
    st.ev("merge", b, a, site, I.implied(st, mk("app", "can_merge", b, a)))
    wr(I, st, args[0], mk("app", "cat", b, a))
    return [(UNIT, st)]


@model("rle::Sliceable::_slice")
def m__slice(I, args, st, site, t, fn):
    e = strip(I, st, args[0])
    rg = range_of(I, st, args[1], rle_of(e))
    if rg is None:
        return [(mk("app", "subr", e, strip(I, st, args[1])), st)]
    return [(mk("app", "sub", e, rg[0], rg[1]), st)]


@model("rle::Sliceable::split")
def m_esplit(I, args, st, site, t, fn):
    a = rd(I, st, args[0])
    wr(I, st, args[0], mk("app", "sub", a, num(0), args[1]))
    return [(mk("app", "sub", a, args[1], rle_of(a)), st)]


@model("rle::TryInsert::try_insert")
def m_tryins(I, args, st, site, t, fn):
    a = rd(I, st, args[0])
    out = []
    for b, s in I.split_bool(st, mk("app", "try_ins", a, args[1], args[2])):
        if b:
            wr(I, s, args[0], mk("app", "ins", a, args[1], args[2]))
            out.append((ok(UNIT), s))
        else:
            out.append((err(args[2]), s))
    return out


@model("rle::CanRemove::can_remove")
def m_canrem(I, args, st, site, t, fn):
    return [(mk("app", "can_remove", strip(I, st, args[0])), st)]


@model("Query::init")
def m_qinit(I, args, st, site, t, fn):
    return [(mk("app", "qinit", strip(I, st, args[0])), st)]


@model("Query::find_node")
def m_findnode(I, args, st, site, t, fn):
    q = rd(I, st, args[0])
    s = place_seq(I, st, args[2])[2]
    r = mk("app", "find", q, strip(I, st, args[1]), s)
    wr(I, st, args[0], mk("app", "qnext", q, strip(I, st, args[1]), s))
    # the finder answers with a child slot
    I.assume(st, lt(fld(r, None, 0, "index"), length(s)))
    st.ev("find_node", q, s, site, r)
    return [(r, st)]


@model("Query::confirm_elem")
def m_confirm(I, args, st, site, t, fn):
    q = rd(I, st, args[0])
    e = strip(I, st, args[2])
    r = mk("app", "confirm", q, strip(I, st, args[1]), e)
    wr(I, st, args[0], mk("app", "qdone", q, strip(I, st, args[1]), e))
    st.ev("confirm", q, e, site, r)
    return [(r, st)]


@model("generic_impl::len_finder::UseLengthFinder::get_len")
def m_getlen(I, args, st, site, t, fn):
    return [(mk("app", "get_len", strip(I, st, args[0])), st)]


@model("std::str::from_utf8", "core::str::from_utf8", "std::string::String::from_utf8", "std::str::from_utf8_unchecked")
def m_utf8(I, args, st, site, t, fn):
    x = strip(I, st, args[0])
    n = st.facts.value(eqi(length(st.facts.canon(x)), num(0))) if x.op in ("seq", "fld", "app", "deref") else None
    if n is True:
        return [(rec("std::result::Result", "Ok", args[0]), st)]
    if getattr(I, "valid_text", False):
        return [(rec("std::result::Result", "Ok", args[0]), st)]
    if I.theory:
        return [(TM.unk("text"), st)]
    return [(mk("app", "utf8", args[0]), st)]


@model("std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::fmt::Formatter::pad")
def m_write_str(I, args, st, site, t, fn):
    st.ev("written", st.facts.canon(strip(I, st, args[1])))
    return [(mk("app", "written", num(len(st.log))), st)]


@model("std::mem::needs_drop", "core::mem::needs_drop")
def m_needs_drop(I, args, st, site, t, fn):
    return [(mk("app", "needs_drop", ",".join(x.get("s", "") for x in fn.get("targs", ()))), st)]


@model("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def m_unwrap_or_default(I, args, st, site, t, fn):
    out = []
    good = "Some" if "Option" in fn["path"] else "Ok"
    for vn, _, s in I.split_variant(st, args[0], ["Some", "None"] if good == "Some" else ["Ok", "Err"]):
        if vn == good:
            a = s.facts.canon(args[0])
            out.append((a.args[2][0] if a.op == "rec" else fld(a, good, 0, "0"), s))
        else:
            out += m_default(I, [], s, site, t, fn)
    return out
