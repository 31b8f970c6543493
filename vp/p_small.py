"""Smaller operations: cutting elements, single entries of the ordered map, insertion by search, fresh trees."""
from .p_tree import *
from .p_nav import NavOp
from .p_misc import nothing_in, HOMES, ROPE, MAP, SET
from .p_drain import k_last
from .p_bulk import k_told, tup_
from .models import iter_seq, VAL, REF
from .engine import Limit, Site, isvar as isvar_
from . import judge as J

UNM = "generic_impl::ord::Unmergeable"


class Plain(OneOp):
    """a function whose body is given"""

    def __init__(self, prog, rep, sink, body, label):
        super().__init__(prog, rep, sink, Diff(), "-", label=label)
        self.given = body

    def __enter__(self):
        super().__enter__()
        self.body = self.given
        return self


# ------------------------------------------------------------------ cutting elements
RANGES = (("a..b", "Range", True, True), ("a..", "RangeFrom", True, False), ("..b", "RangeTo", False, True), ("..", "RangeFull", False, False))


def range_term(kind, lo, hi):
    return mk("rec", "std::ops::" + kind, None, tuple(x for x in (lo, hi) if x is not None))


def bounds(I, st, e, kind, from_, to):
    lo, hi = sym("lo"), sym("hi")
    if to:
        I.assume(st, le(hi, rle_of(e)))
    if from_:
        I.assume(st, le(lo, hi if to else rle_of(e)))
    return range_term(kind, lo if from_ else None, hi if to else None), lo if from_ else num(0), hi if to else rle_of(e)


def elem_op(name):
    def deco(f):
        def g(prog, rep, sink):
            body = prog.find("rle::Sliceable::" + name)
            if body is None:
                return
            for txt, kind, a, b in RANGES if name != "split" else (("at a place", None, 0, 0),):
                with Plain(prog, rep, sink, body, "Sliceable::%s %s" % (name, txt)) as op:
                    st = op.T.start(op.I)
                    e = sym("e")
                    st.store[("E", "e")] = e
                    f(op, st, e, mkref(("E", "e"), ()), kind, a, b)
        g.__name__ = "elem_" + name
        return part(*(("C19", "C03") if name == "update_with_split" else ("C03",)), seconds=60)(g)
    return deco


def part_of(e, lo, hi):
    return mkseq([sl(mkseq(content(e)), lo, hi)])


def now(op, s, at):
    return content(s.facts.canon(op.I.deref(s, at)))


@elem_op("slice")
def _(op, st, e, at, kind, a, b):
    r, lo, hi = bounds(op.I, st, e, kind, a, b)
    for v, s in op.run([at, r], st):
        op.judge("C03", "a slice is the part named", s, mkseq(content(s.facts.canon(v))), part_of(e, lo, hi))
        op.judge("C03", "slicing leaves the element", s, mkseq(now(op, s, at)), mkseq(content(e)))


@elem_op("slice_")
def _(op, st, e, at, kind, a, b):
    r, lo, hi = bounds(op.I, st, e, kind, a, b)
    for v, s in op.run([at, r], st):
        op.judge("C03", "an element cut to a slice is the part named", s, mkseq(now(op, s, at)), part_of(e, lo, hi))


@elem_op("split")
def _(op, st, e, at, kind, a, b):
    p = sym("pos")
    op.I.assume(st, le(p, rle_of(e)))
    for v, s in op.run([at, p], st):
        op.judge("C03", "the left part stays", s, mkseq(now(op, s, at)), part_of(e, num(0), p))
        op.judge("C03", "the right part comes back", s, mkseq(content(s.facts.canon(v))), part_of(e, p, rle_of(e)))


@elem_op("update_with_split")
def _(op, st, e, at, kind, a, b):
    r, lo, hi = bounds(op.I, st, e, kind, a, b)
    f = sym("f")
    for v, s in op.run([at, r, f], st):
        C = s.facts.canon
        uc = [x for x in s.log if x[0] == "usercall"]
        none = J.entails(s, sub(lo, hi))
        if not uc:
            op.judge_known("C19", "a range that is not empty is given to the function", s, True if none is True else None if none is None else False)
            got = now(op, s, at)
            op.judge("C03", "nothing changes without a call", s, mkseq(got), mkseq(content(e)))
            continue
        if len(uc) > 1:
            op.judge_known("C19", "the function is called once", s, False)
            continue
        given = C(uc[0][2][0])
        c = mkseq(content(e))
        op.judge("C19", "the function is given the part named", s, mkseq(content(given)), part_of(e, lo, hi))
        after = mk("app", "after", f, *uc[0][2])
        parts = now(op, s, at)
        v = C(v)
        if v.op != "rec":
            op.judge_known("C03", "the parts make up the element", s, None)
            continue
        for x in v.args[2]:
            x = C(x)
            vn = s.facts.variant(x)
            if vn == "Some":
                parts = parts + content(C(fld(x, "Some", 0, "0")))
            elif vn != "None":
                parts = None
                break
        if parts is None:
            op.judge_known("C03", "the parts make up the element", s, None)
            continue
        want = [sl(c, num(0), lo)] + content(after) + [sl(c, hi, rle_of(e))]
        op.judge("C03", "the parts make up the element", s, mkseq(parts), mkseq(want))


# ------------------------------------------------------------------ entries of the ordered map
def entry_op(trait, name, pids, what, args, want):
    def g(prog, rep, sink):
        body = prog.method(UNM, name, trait)
        if body is None:
            return
        with Plain(prog, rep, sink, body, "an entry's " + name) as op:
            st = op.T.start(op.I)
            st.store[("E", "e")] = mk("rec", UNM, None, (sym("e"),))
            st.store[("E", "o")] = mk("rec", UNM, None, (sym("o"),))
            for v, s in op.run([mkref(("E", "e"), ())] + args, st):
                for p in pids:
                    op.judge(p, what, s, v, want)
                    op.judge(p, "an entry is only looked at", s, op.I.deref(s, mkref(("E", "e"), ())), st0)
    st0 = mk("rec", UNM, None, (sym("e"),))
    g.__name__ = "entry_" + name
    part(*pids, seconds=30)(g)


_other = mk("rec", UNM, None, (sym("o"),))
entry_op("rle::Mergeable", "can_merge", ("C09",), "entries of the ordered map are never merged", [mkref(("E", "o"), ())], FALSE)
entry_op("rle::CanRemove", "can_remove", ("C09",), "an entry of the ordered map stays until it is deleted", [], FALSE)
entry_op("rle::HasLength", "rle_len", ("C09",), "an entry counts as one", [], num(1))
entry_op("rle::TryInsert", "try_insert", ("C09",), "an entry takes up no other", [sym("p"), _other], mk("rec", "std::result::Result", "Err", (_other,)))
entry_op("rle::Sliceable", "_slice", ("C09",), "an entry is copied whole", [range_term("Range", num(0), num(1))], mk("rec", UNM, None, (sym("e"),)))


# ------------------------------------------------------------------ insertion by search
@part("C20", "C03", seconds=60)
def insert(prog, rep, sink):
    """the element goes to the place the search names; into an empty tree it is pushed"""
    with NavOp(prog, rep, sink, "insert") as op:
        T, I = op.T, op.I
        k, off = sym("k"), sym("off")
        names = FIELDS["QueryResult"]

        def query(I, args, st, site, t, body):
            st.ev("query", I.deref(st, args[1]))
            out = []
            for e, s in I.split_bool(st, eqi(length(T.children(T.R)), num(0))):
                d = {"cursor": mkcursor(k, off), "found": sym("found")}
                out.append((NONE if e else some(mk("rec", "QueryResult", None, tuple(d[n] for n in names))), s))
            return out

        def placed(I, args, st, site, t, body):
            st.ev("placed", *(st.facts.canon(x) for x in args[1:3]))
            return [(mk("app", "placed"), st)]
        I.contracts.update({"BTree::query": query, "BTree::push": k_told("push", 1), "BTree::insert_by_path": placed, "BTree::prepend": k_told("prepend", 1)})
        q, x = sym("q"), sym("x")
        for v, s in op.run([ref("self"), mkref(("O", q), ()), x], T.start(I)):
            empty = s.facts.value(eqi(length(T.children(T.R)), num(0)))
            evs = [e for e in s.log if e[0] in ("push", "placed", "prepend")]
            if empty is None:
                op.judge_known("C03", "the element is inserted once", s, None)
                continue
            op.judge_known("C20" if empty else "C03", "the element is inserted once", s, len(evs) == 1)
            if len(evs) != 1:
                continue
            e = evs[0]
            C = s.facts.canon
            if e[0] == "placed":
                if empty:
                    op.judge_known("C20", "an empty tree has no place to insert at", s, False)
                    continue
                op.judge("C03", "the element goes to the place found", s, e[1], mkcursor(k, off))
                op.judge("C03", "the element given is the one inserted", s, e[2], x)
                op.judge("C03", "the place and what was split are handed back", s, v, mk("app", "placed"))
            else:
                op.judge("C20" if empty else "C03", "the element given is the one inserted", s, e[1], x)
                if not empty:
                    op.judge_known("C03", "the element goes to the place found", s, False)
                else:
                    op.judge("C20", "the place of the element is handed back", s, fld(C(v), None, 0, "0"), mk("app", e[0], num(s.log.index(e) + 1)))


# ------------------------------------------------------------------ the element of a search result
@part("C05", "C21", seconds=30)
def result_elem(prog, rep, sink):
    with NavOp(prog, rep, sink, "QueryResult::elem") as op:
        T, I = op.T, op.I
        k = sym("k")
        d = {"cursor": mkcursor(k, sym("off")), "found": sym("found")}
        st = T.start(I)
        st.store[("E", "q")] = mk("rec", "QueryResult", None, tuple(d[n] for n in FIELDS["QueryResult"]))
        for v, s in op.run([mkref(("E", "q"), ()), ref("self")], st):
            live = s.facts.value(mk("app", "alive", T.ld(k)))
            if live is False:
                op.judge("C21", "an unknown handle yields nothing", s, v, NONE)
            elif live is True:
                if s.facts.variant(v) == "None":
                    op.judge_known("C05", "a live handle yields its element", s, False)
                else:
                    op.judge("C05", "a live handle yields its element", s, I.deref(s, fld(v, "Some", 0, "0")), T.elem0(k))


# ------------------------------------------------------------------ fresh trees
def fresh(ty, name, trait=None):
    label = "%s::%s" % (ty.split("::")[-1], name)

    def g(prog, rep, sink):
        body = prog.method(ty, name, trait) if trait else next((b for b in prog.bodies.values() if b.d["name"] == name and not b.d.get("trait") and (b.d.get("impl_self") or {}).get("adt") == ty), None)
        if body is None:
            return
        with NavOp(prog, rep, sink, name) as op:
            op.body, op.label = body, label
            for v, s in op.run([], op.T.start(op.I)):
                t = s.facts.canon(v)
                for _, path in [(0, HOMES[ty])]:
                    for a, f in path:
                        if a == ROPE:
                            op.judge("C20", "a new rope remembers no place", s, F(t, ROPE, "cursor"), NONE)
                        if a == MAP:
                            op.judge("C20", "a new map counts nothing", s, F(t, MAP, "len"), num(0))
                        t = s.facts.canon(F(t, a, f))
                nothing_in(op, s, t, label, "C20")
    g.__name__ = "fresh_" + label.replace("::", "_")
    part("C20", seconds=30)(g)


for _ty in HOMES:
    if _ty != "BTree":
        fresh(_ty, "new")
    fresh(_ty, "default", "std::default::Default")


# ------------------------------------------------------------------ what the map's iterators yield
def pairs(ty, name, want):
    label = "%s::%s" % (ty.split("::")[-1], name)

    def g(prog, rep, sink):
        body = next((b for b in prog.bodies.values() if b.d["name"] == name and not b.d.get("trait") and (b.d.get("impl_self") or {}).get("adt") == ty), None)
        if body is None:
            return
        with NavOp(prog, rep, sink, name, inside=HOMES[ty]) as op:
            I = op.I
            op.body, op.label = body, label
            xs = [sym("e0"), sym("e1")]

            def it(I, args, st, site, t, body):
                st.store[("E", "all")] = mkseq([unit(x) for x in xs])
                return [(iter_seq(REF, mkref(("E", "all"), ()), num(0), num(2)), st)]
            I.contracts["BTree::iter"] = it
            from .models import inext
            for v, s in op.run([ref("self")], op.T.start(I)):
                work = [(s.facts.canon(v), s, 0)]
                while work:
                    v, s, n = work.pop()
                    try:
                        outs = inext(I, s, v, Site(op.body.path, 0, ("src", 0), 0), {"dty": {}, "atys": [], "span": ("src", 0)})
                    except Exception:
                        op.judge_known("C09", "the entries are yielded in order", s, None)
                        continue
                    for x, nv, s2 in outs:
                        if x is None:
                            op.judge_known("C09", "all entries are yielded", s2, n == 2)
                        elif n >= 2:
                            op.judge_known("C09", "all entries are yielded", s2, False)
                        else:
                            y = I.deref(s2, x) if x.op == "ref" else mk("deref", x)
                            op.judge("C09", "the entries are yielded in order", s2, y, want(xs[n]))
                            work.append((nv, s2, n + 1))
    g.__name__ = "pairs_" + label.replace("::", "_")
    part("C09", seconds=30)(g)


pairs(MAP, "iter", lambda e: fld(e, None, 0, "0"))
pairs(MAP, "iter_key", lambda e: fld(fld(e, None, 0, "0"), None, 0, "0"))
pairs(SET, "iter", lambda e: fld(fld(e, None, 0, "0"), None, 0, "0"))


# ------------------------------------------------------------------ walks with a filter
def shapes(op, st):
    """small trees: (label, state, [(ancestor entries, leaf)])"""
    T, I = op.T, op.I
    R = T.R
    for widths in ((1,), (2,), (3,), (1, 1), (2, 1)):
        s = st.copy()
        if len(widths) == 1:
            n, flat = widths[0], True
        else:
            n, flat = len(widths), False
        I.assume(s, eqi(length(T.children(R)), num(n)))
        leaves = []
        for i in range(n):
            c = el(T.children(R), num(i))
            a = fn(c, "Child", "arena")
            if flat:
                I.assume(s, isvar_(a, "Leaf"))
                leaves.append(([c], key_of(s.facts.canon(a), "Leaf")))
                continue
            I.assume(s, isvar_(a, "Internal"))
            p = key_of(s.facts.canon(a), "Internal")
            I.assume(s, eqi(length(T.children(p)), num(widths[i])))
            for j in range(widths[i]):
                d = el(T.children(p), num(j))
                b = fn(d, "Child", "arena")
                I.assume(s, isvar_(b, "Leaf"))
                leaves.append(([c, d], key_of(s.facts.canon(b), "Leaf")))
        yield "x".join(map(str, widths)) if not flat else str(n), s, leaves


def drive(op, v, s, most):
    """[(yielded values, state)] of an iterator, None in place of the values when it is not understood"""
    from .models import inext
    out, work = [], [(s.facts.canon(v), s, [])]
    while work:
        v, s, got = work.pop()
        if len(got) > most:
            out.append((got, s))
            continue
        outs = inext(op.I, s, v, Site(op.body.path, 0, ("src", 0), 0), {"dty": {}, "atys": [], "span": ("src", 0)})
        for x, nv, s2 in outs:
            if not feasible(s2):
                continue
            if x is None:
                out.append((got, s2))
            else:
                work.append((nv, s2, got + [x]))
    return out


@part("C07", seconds=120)
def iter_with_filter(prog, rep, sink):
    """the elements all of whose ancestors pass come in order, each with the sum of what stands before on the way"""
    for at in range(5):
        with NavOp(prog, rep, sink, "iter_with_filter") as op:
            T, I = op.T, op.I
            I.peel = 8
            I.unroll = 10
            label, st, leaves = list(shapes(op, T.start(I)))[at]
            op.label = "iter_with_filter of a tree of %s" % label
            f = sym("f")
            for v, s in op.run([ref("self"), f], st):
                for got, s2 in drive(op, v, s, len(leaves) + 1):
                    judge_walk(op, s2, f, got, leaves)
            op.panics(op.label)


def passed(op, s, f, entries, first=True):
    """whether all these entries pass the filter, None when it was not asked"""
    out = True
    for c in entries:
        r = mk("app", "ret", f, s.facts.canon(fn(c, "Child", "cache")))
        b = s.facts.value(fld(r, None, 0, "0") if first else r)
        if b is False:
            return False
        if b is None:
            if out and not any(e[0] == "usercall" and s.facts.canon(e[1]) is s.facts.canon(f) and s.facts.canon(e[2][0]) is r.args[2] for e in s.log):
                op.judge_known("C07", "each entry on the way is asked", s, False)
            out = None
    return out


def judge_walk(op, s, f, got, leaves):
    T, I, sink = op.T, op.I, op.sink
    C = s.facts.canon
    asked = [e for e in s.log if e[0] == "usercall"]
    want = []
    for entries, k in leaves:
        b = passed(op, s, f, entries)
        if b is None:
            op.judge_known("C07", "each entry on the way is asked", s, None)
            return
        if b:
            want.append((entries, k))
    op.judge_known("C07", "as many elements come as pass the filter", s, len(got) == len(want))
    if len(got) != len(want):
        return
    for x, (entries, k) in zip(got, want):
        x = C(x)
        op.judge("C07", "the elements that pass come in order", s, I.deref(s, fld(x, None, 1, "1")), T.elem0(k))
        r = num(0)
        for c in entries:
            p, i = c.args
            for j in range(numval(C(i))):
                r = add(r, fld(mk("app", "ret", f, C(fn(el(p, num(j)), "Child", "cache"))), None, 1, "1"))
        d = C(sub(fld(x, None, 0, "0"), r))
        zero = d.op == "app" and d.args[0] == "default" or numval(d) == 0
        op.judge_known("C07", "what stands before on the way is summed", s, True if zero else False if d.op == "lin" else None)


@part("C07", "C19", seconds=120)
def update_cache_and_elem_with_filter(prog, rep, sink):
    """the entries on the way are offered once, the elements below those that pass are offered once"""
    for at in range(5):
        with NavOp(prog, rep, sink, "update_cache_and_elem_with_filter") as op:
            T, I = op.T, op.I
            I.peel = 8
            I.unroll = 10
            label, st, leaves = list(shapes(op, T.start(I)))[at]
            op.label = "update_cache_and_elem_with_filter of a tree of %s" % label
            f, g = sym("f"), sym("g")
            for v, s in op.run([ref("self"), f, g], st):
                C = s.facts.canon
                calls = [e for e in s.log if e[0] == "usercall" and C(e[1]) is g]
                want = []
                for entries, k in leaves:
                    b = passed(op, s, f, entries, False)
                    if b is None:
                        break
                    if b:
                        want.append(k)
                else:
                    given = [C(e[2][0]) for e in calls]
                    for k in want:
                        op.judge_known("C19", "an element below entries that pass is updated once", s, given.count(C(T.elem0(k))) == 1)
                    op.judge_known("C19", "no other element is updated", s, len(given) <= len(want))
                    continue
                op.judge_known("C19", "each entry on the way is asked", s, None)


# ------------------------------------------------------------------ a range of two searches
@part("C08", "C20", seconds=30)
def range_(prog, rep, sink):
    with NavOp(prog, rep, sink, "range") as op:
        T, I = op.T, op.I
        a, b = sym("a"), sym("b")

        def query(I, args, st, site, t, body):
            q = I.deref(st, args[1])
            out = []
            for e, s in I.split_bool(st, eqi(length(T.children(T.R)), num(0))):
                out.append((NONE if e else some(mk("app", "answer", q)), s))
            return out
        I.contracts["BTree::query"] = query
        for v, s in op.run([ref("self"), range_term("Range", a, b)], T.start(I)):
            empty = s.facts.value(eqi(length(T.children(T.R)), num(0)))
            if empty:
                op.judge("C20", "an empty tree has no range", s, v, NONE)
            elif s.facts.variant(v) == "None":
                op.judge_known("C08", "a range is found in a tree that is not empty", s, False if empty is False else None)
            else:
                r = s.facts.canon(fld(v, "Some", 0, "0"))
                op.judge("C08", "the range starts where its start is found", s, fld(r, None, 0, "start"), mk("app", "answer", a))
                op.judge("C08", "the range ends where its end is found", s, fld(r, None, 1, "end"), mk("app", "answer", b))


# ------------------------------------------------------------------ what a rope shows
def pieces_of(prog, rep, sink, name, n):
    body = next((b for b in prog.bodies.values() if b.d["name"] == name and (b.d.get("impl_self") or {}).get("adt") == ROPE and (name != "fmt" or (b.d.get("impl_trait") or "").endswith("Display"))), None)
    if body is None:
        return
    with NavOp(prog, rep, sink, name, inside=HOMES[ROPE]) as op:
        T, I = op.T, op.I
        op.body, op.label = body, "Rope::%s of %d elements" % (name, n)
        xs = [sym("e%d" % i) for i in range(n)]
        I.peel = 8
        I.unroll = 8
        I.valid_text = True

        def rows(I, args, st, site, t, body):
            st.store[("E", "all")] = mkseq([unit(x) for x in xs])
            return [(iter_seq(REF, mkref(("E", "all"), ()), num(0), num(n)), st)]

        def halves(I, args, st, site, t, body):
            e = I.deref(st, args[0])
            g = mk("app", "gap_at", e)
            I.assume(st, le(g, rle_of(e)))
            out = []
            for i, (lo, hi) in enumerate(((num(0), g), (g, rle_of(e)))):
                r = ("E", "half", i, repr(e))
                st.store[r] = part_of(e, lo, hi)
                out.append(mkref(r, ()))
            return [(tup_(*out), st)]
        def size(I, args, st, site, t, body):
            return [(rle_of(I.deref(st, args[0])), st)]
        I.contracts["generic_impl::gap_buffer::GapBuffer::as_bytes"] = halves
        I.contracts["generic_impl::gap_buffer::GapBuffer::len"] = size
        I.contracts["generic_impl::rope::Rope::iter"] = rows
        for x in ("generic_impl::gap_buffer::GapBuffer::as_bytes", "generic_impl::rope::Rope::iter"):
            if prog.find(x) is None:
                return
        st = T.start(I)
        st.store[("E", "f")] = sym("formatter")
        for v, s in op.run([ref("self"), mkref(("E", "f"), ())], st):
            w = [e for e in s.log if e[0] == "written"]
            if any(e[1].unk for e in w) or not w and xs:
                op.judge_known("C10", "the text of all elements is shown in order", s, None)
                continue
            op.judge("C10", "the text of all elements is shown in order", s, mkseq([e[1] for e in w]), mkseq([g for x in xs for g in content(x)]))


@part("C10", seconds=60)
def Rope_fmt(prog, rep, sink):
    for n in (0, 1, 2, 3):
        pieces_of(prog, rep, sink, "fmt", n)


@part("C07", "C10", seconds=30)
def Rope_iter(prog, rep, sink):
    """the buffers from the first to the last"""
    body = next((b for b in prog.bodies.values() if b.d["name"] == "iter" and not b.d.get("trait") and (b.d.get("impl_self") or {}).get("adt") == ROPE), None)
    step = prog.method("iter::Iter", "next", "std::iter::Iterator")
    if body is None or step is None or prog.find("iter::Iter::new") is None or FIELDS.get("LeafNode") is None:
        return
    for n in (0, 2):
        with NavOp(prog, rep, sink, "iter", inside=HOMES[ROPE]) as op:
            T, I = op.T, op.I
            op.body, op.label = body, "Rope::iter of %d elements" % n
            xs = [sym("k%d" % i) for i in range(n)]
            first, last = sym("first_path"), sym("last_path")

            def path(p):
                def f(I, args, st, site, t, body):
                    return [(some(p) if n else NONE, st)]
                return f

            def new(I, args, st, site, t, body):
                st.ev("walk", *(st.facts.canon(x) for x in args[1:]))
                k, p = T.home
                items = [unit(tup_(mk("app", "path", x), mk("app", "leafref", x))) for x in xs]
                for x in xs:
                    st.store[("E", "leaf", repr(x))] = mk("app", "leafnode", x)
                items = [unit(tup_(mk("app", "path", x), mkref(("E", "leaf", repr(x)), ()))) for x in xs]
                return [(iter_seq(VAL, mkseq(items), num(0), num(n)), st)]

            def nxt(I, args, st, site, t, body):
                from .models import inext, wr
                out = []
                for x, nv, s in inext(I, st, I.deref(st, args[0]), site, t):
                    wr(I, s, args[0], nv)
                    out.append((NONE if x is None else some(x), s))
                return out
            def whole(I, args, st, site, t, body):
                refs = []
                for x in xs:
                    st.store[("E", "leaf", repr(x))] = mk("app", "leafnode", x)
                    refs.append(unit(mkref(("E", "leaf", repr(x)), (("f", None, FIELDS["LeafNode"].index("elem"), "elem"),))))
                return [(iter_seq(VAL, mkseq(refs), num(0), num(n)), st)]
            I.contracts.update({"BTree::iter": whole, "BTree::first_path": path(first), "BTree::last_path": path(last), "iter::Iter::new": new, step.np: nxt})
            for v, s in op.run([ref("self")], T.start(I)):
                for e in s.log:
                    if e[0] == "walk":
                        op.judge("C07", "the walk starts at the first element", s, e[1], first)
                        op.judge("C07", "the walk ends at the last element", s, e[2], last)
                try:
                    rows = drive(op, v, s, n + 1)
                except Exception:
                    op.judge_known("C07", "all buffers come in order", s, None)
                    continue
                for got, s2 in rows:
                    op.judge_known("C07", "all buffers come in order", s2, len(got) == n)
                    if len(got) == n:
                        for x, k in zip(got, xs):
                            op.judge("C07", "all buffers come in order", s2, I.deref(s2, x), fn(mk("app", "leafnode", k), "LeafNode", "elem"))


# ------------------------------------------------------------------ the place one further on
@part("C07", seconds=90)
def shift_path_by_one_offset(prog, rep, sink):
    """one position on, over the ends of elements and nodes, never to an end"""
    with NavOp(prog, rep, sink, "shift_path_by_one_offset") as op:
        T, I = op.T, op.I
        I.unroll = 3
        k, off = sym("k"), sym("off")
        p2 = sym("p2")

        def nextnode(I, args, st, site, t, body):
            vn = st.facts.variant(args[1])
            if vn == "Leaf":
                return I.run(body, args, st, site.fid, site.block)
            if vn != "Internal":
                raise Limit("the next node of an unknown kind of node")
            st.ev("nextnode", st.facts.canon(args[1]))
            s = st.copy()
            I.assume(s, mk("app", "alive", T.nd(p2)))
            I.assume(s, le(num(1), length(T.children(p2))))
            I.assume(s, isvar_(fn(el(T.children(p2), num(0)), "Child", "arena"), "Leaf"))
            return [(NONE, st), (some(mk("rec", "ArenaIndex", "Internal", (p2,))), s)]
        I.contracts["BTree::next_same_level_in_node"] = nextnode
        st = T.start(I, leaf=k)
        I.assume(st, lt(off, rle_of(T.elem0(k))))
        for v, s in op.run([ref("self"), mkcursor(k, off)], st):
            moved_on(op, v, s, k, off, p2)


def moved_on(op, v, s, k, off, p2):
    T, I = op.T, op.I
    C = s.facts.canon
    rule = "the place is one further on"
    v = C(v)
    vn = s.facts.variant(v)
    left = add(off, num(1))
    p, i, key = C(T.lpar(k)), T.lslot(k), C(k)
    asked = [C(e[1]) for e in s.log if e[0] == "nextnode"]
    if vn == "Some":
        j, o = (C(x) for x in cursor_of(C(fld(v, "Some", 0, "0"))))
    nodes = 0
    for _ in range(6):
        r = rle_of(T.elem0(key))
        inside = J.entails(s, sub(sub(r, left), num(1)))
        if vn == "Some" and j is key:
            op.judge_known("C07", "the place is inside its element", s, inside)
            op.judge("C07", rule, s, o, left)
            return
        over = J.entails(s, sub(left, r))
        if over is not True:
            op.judge_known("C07", rule, s, False if inside is True else None)
            return
        left, i = sub(left, r), add(i, num(1))
        end = s.facts.value(eqi(C(i), length(T.children(p))))
        if end is None:
            end = True if J.entails_eq(s, C(i), length(T.children(p))) is True else False if J.entails(s, sub(sub(length(T.children(p)), i), num(1))) is True else None
        if end is None:
            op.judge_known("C07", rule, s, None)
            return
        if end:
            here = mk("rec", "ArenaIndex", "Internal", (p,))
            if nodes >= len(asked) or asked[nodes] is not C(here):
                op.judge_known("C07", "the next node is looked for at the end of a node", s, None if nodes >= len(asked) else False)
                return
            nodes += 1
            if nodes == len(asked) and vn == "None":
                op.judge_known("C07", rule, s, True)
                return
            if nodes > 1:
                op.judge_known("C07", rule, s, None)
                return
            p, i = p2, num(0)
        key = C(key_of(C(fn(el(T.children(p), C(i)), "Child", "arena")), "Leaf"))
    op.judge_known("C07", rule, s, None)
