"""Iterating: every element from the first place on, in order and once."""
from .p_tree import *
from .p_nav import NavOp, some_path, mkidx, succ_path, path_items, is_path
from .engine import Site, mkref, isvar as isvar_
from .models import inext, iter_seq, REF
from .p_upd import path_to
from . import judge as J

SITE = Site("iterating", 0, ("src/lib.rs", 0), 0)
CALL = {"dty": {}, "atys": [], "span": ("src/lib.rs", 0)}
ITER = "iter::Iter"
ITER_NEXT = "<iter::Iter<'a, B> as std::iter::Iterator>::next"


def paths_of(items):
    return mkseq([unit(mkidx(a, r)) for a, r in items])


def k_next_path(op):
    """next_sibling on a path all of whose entries are known"""
    def f(I, args, st, site, t, body):
        r, p = I.target(st, args[1])
        items = path_items(op, st, I.read(st, r, p))
        if not items:
            raise Limit("path")
        out = []
        for want, s in succ_path(op, st, items):
            if want is None:
                out.append((FALSE, s))
            else:
                I.write(s, r, p, paths_of(want))
                out.append((TRUE, s))
        return out
    return f


def step(op, s, it):
    """[(item or None, next iterator, state)] and judges that nothing fails"""
    op.I.panic_states = []
    out = inext(op.I, s, it, SITE, CALL)
    op.panics(op.label + ", next")
    return [r for r in out or [] if feasible(r[2])]


def replace(t, new):
    """rebuild a value with some parts replaced"""
    if t in new:
        return new[t]
    if t.op == "rec":
        return mk("rec", t.args[0], t.args[1], tuple(replace(x, new) for x in t.args[2]))
    return t


def parts_of(t):
    yield t
    if t.op == "rec":
        for x in t.args[2]:
            yield from parts_of(x)


def looks(op, s, it):
    """(the path held, the iterator over a child list held) of an iteration state, when it has exactly one of each"""
    ps, its = [], []
    for x in parts_of(it):
        y = s.facts.canon(x)
        if y.op == "seq" and path_items(op, s, y) is not None and (segs(y) and all(F(g.args[0], "Idx", "arena") is not None for g in segs(y)) or not segs(y)):
            ps.append(x)
        elif x.op == "rec" and str(x.args[0]) == "I:seq" and x.args[2][0] is REF:
            its.append(x)
    return (ps[0], its[0]) if len(ps) == 1 and len(its) == 1 else None


def rest_of(op, s, it):
    """the entries of a child list an iterator has still to give"""
    _, src, lo, hi = it.args[2]
    return mkseq([sl(s.facts.canon(op.I.read(s, *src.args)), s.facts.canon(lo), s.facts.canon(hi))])


def stands(op, s, it, want, lo):
    """the iteration goes on at entry lo of the last node of the path"""
    I, T = op.I, op.T
    l = looks(op, s, it)
    if l is None:
        op.judge_known("C07", "an iteration goes on where it stopped", s, None)
        return
    items = path_items(op, s, l[0])
    if [x[0] for x in items] != [s.facts.canon(x[0]) for x in want]:
        same_ = len(items) == len(want) and all(J.equal(I, s, a, b) is True for (a, _), (b, _) in zip(items, want))
        op.judge_known("C07", "an iteration goes on where it stopped", s, True if same_ else None)
        if not same_:
            return
    ch = T.children(s.facts.canon(key_of(want[-1][0], "Internal")))
    op.judge("C07", "an iteration gives all children of the node it is at", s, rest_of(op, s, l[1]), mkseq([sl(ch, lo, length(ch))]))


def elem_at(op, s, p, i):
    k = s.facts.canon(key_of(op.child_at(s, p, i), "Leaf"))
    op.T.saturate(op.I, s, [k], op.T.IN0, op.T.LN0, [])
    return op.T.elem0(k)


@part("C07", "C20", seconds=120)
def iter_all(prog, rep, sink):
    """iterating starts at the first element and steps from each to the next"""
    with NavOp(prog, rep, sink, "iter") as op:
        T, I = op.T, op.I
        T0 = T.start(I)
        for v, s in op.run([ref("self")], T0):
            e = op.empty(s)
            if e is None:
                op.judge_known("C07", "an iteration starts at the first element", s, None)
                continue
            if e:
                for x, n, y in step(op, s, v):
                    op.judge_known("C20", "iterating over an empty tree gives nothing", y, x is None)
                continue
            l = looks(op, s, v)
            if l is None:
                op.judge_known("C07", "an iteration starts at the first element", s, None)
                continue
            items = path_items(op, s, l[0])
            for _, i in items[1:]:
                op.judge("C07", "an iteration starts at the first element", s, i, num(0))
            p = s.facts.canon(key_of(items[-1][0], "Internal"))
            op.judge_known("C07", "an iteration starts at the first element", s, s.facts.variant(op.child_at(s, p, num(0))) == "Leaf")
            op.judge("C07", "an iteration gives all children of the node it is at", s, rest_of(op, s, l[1]), mkseq([sl(T.children(p), num(0), length(T.children(p)))]))
            for x, n, y in step(op, s, v):
                op.judge_known("C07", "iterating over elements gives one", y, x is not None)
                if x is not None:
                    op.judge("C07", "the first element is given first", y, I.deref(y, x), elem_at(op, y, p, num(0)))
            first = (s, v, l)
    # from any place on
    for d in (1, 2, 3):
        with NavOp(prog, rep, sink, "iter", label="iter at depth %d" % d) as op:
            T, I = op.T, op.I
            I.contracts["BTree::next_sibling"] = k_next_path(op)
            done = False
            for v, s0 in op.run([ref("self")], T.start(I)):
                if op.empty(s0) is not False or done:
                    continue
                l = looks(op, s0, v)
                if l is None or len(path_items(op, s0, l[0])) != d:
                    continue
                done = True
                # the same state, but at an arbitrary place
                st = T.start(I)
                for k_, x_ in s0.store.items():
                    st.store.setdefault(k_, x_)
                items = some_path(op, st, d, "Internal")
                p = st.facts.canon(key_of(items[-1][0], "Internal"))
                i = sym("i")
                ch = T.children(p)
                I.assume(st, le(num(1), length(ch)))
                I.assume(st, isvar_(st.facts.canon(fn(el(ch, num(0)), "Child", "arena")), "Leaf"))
                I.assume(st, le(num(0), i))
                I.assume(st, le(i, length(ch)))
                here = s0.facts.canon(key_of(path_items(op, s0, l[0])[-1][0], "Internal"))
                root, way = l[1].args[2][1].args
                if not any(len(w) > 1 and w[1] is here for w in way):
                    continue
                src = mkref(root, tuple((w[0], p) + tuple(w[2:]) if len(w) > 1 and w[1] is here else w for w in way))
                it = replace(v, {l[0]: paths_of(items), l[1]: iter_seq(REF, src, i, length(ch))})
                for x, n, y in step(op, st, it):
                    for more, z in I.split_bool(y, lt(i, length(ch))):
                        if not feasible(z):
                            continue
                        if more:
                            if x is None:
                                op.judge_known("C07", "every child of a node is given", z, False)
                                continue
                            op.judge("C07", "every child of a node is given in its turn", z, I.deref(z, x), elem_at(op, z, p, i))
                            stands(op, z, n, items, add(i, num(1)))
                            continue
                        for want, w in succ_path(op, z, items):
                            if not feasible(w):
                                continue
                            if want is None:
                                op.judge_known("C07", "an iteration ends after the last element", w, x is None)
                                continue
                            if x is None:
                                op.judge_known("C07", "an iteration goes on to the next node", w, False)
                                continue
                            q = w.facts.canon(key_of(want[-1][0], "Internal"))
                            op.judge("C07", "the next node's first element comes after a node's last", w, I.deref(w, x), elem_at(op, w, q, num(0)))
                            stands(op, w, n, want, num(1))


def record(ty, d):
    return mk("rec", ty, None, tuple(d[x] for x in FIELDS[ty]))


def field(v, ty, name):
    return fld(v, None, FIELDS[ty].index(name), name)


@part("C07", seconds=200)
def iter_next(prog, rep, sink):
    """stepping over elements gives each with its path, up to and with the last one asked for"""
    if not FIELDS.get(ITER) or set(FIELDS[ITER]) != {"tree", "inclusive_end", "path", "done"}:
        rep.notes.append("the iterator over elements has another form")
        return
    with NavOp(prog, rep, sink, "iter::Iter::new", label="Iter::new") as op:
        T, I = op.T, op.I
        a, b = sym("start"), sym("end")
        for v, s in op.run([ref("self"), a, b], T.start(I)):
            op.judge("C07", "stepping starts at the start place", s, field(v, ITER, "path"), a)
            op.judge("C07", "stepping ends at the end place", s, field(v, ITER, "inclusive_end"), b)
            op.judge("C07", "stepping starts", s, field(v, ITER, "done"), FALSE)
    for d in (2, 3, 4):
        for case in ("somewhere", "at the end", "ended"):
            with NavOp(prog, rep, sink, ITER_NEXT, label="Iter::next at depth %d, %s" % (d, case)) as op:
                T, I = op.T, op.I
                I.contracts["BTree::next_sibling"] = k_next_path(op)
                st = T.start(I)
                items = some_path(op, st, d, "Leaf")
                k = st.facts.canon(key_of(items[-1][0], "Leaf"))
                T.saturate(I, st, [k], T.IN0, T.LN0, [])
                ends = items
                if case == "somewhere":
                    ends = items[:-1] + [(T.leafi(sym("e")), sym("endr"))]
                    I.assume(st, mk("app", "alive", T.ld(sym("e"))))
                    I.assume(st, eq(sym("e"), k), False)
                place = ("O", sym("it"))
                I.write(st, place, (), record(ITER, {"tree": ref("self"), "inclusive_end": paths_of(ends), "path": paths_of(items), "done": TRUE if case == "ended" else FALSE}))
                for v, s in op.run([mkref(place, ())], st):
                    if case == "ended":
                        op.judge("C07", "stepping that ended stays so", s, v, NONE)
                        continue
                    now = I.deref(s, mkref(place, ()))
                    x = fld(v, "Some", 0, "0")
                    op.judge("C07", "the element is given with its path", s, fld(x, None, 0, "0"), paths_of(items))
                    op.judge("C07", "every element is given in its turn", s, F(I.deref(s, fld(x, None, 1, "1")), "LeafNode", "elem"), T.elem0(k))
                    e = s.facts.canon(field(now, ITER, "done"))
                    for want, z in succ_path(op, s, items):
                        for stop, w in I.split_bool(z, z.facts.canon(e)):
                            if not feasible(w):
                                continue
                            op.judge_known("C07", "stepping ends with the last element asked for or the tree", w, stop == (case == "at the end" or want is None))
                            if not stop:
                                op.judge("C07", "stepping goes on to the next element", w, field(now, ITER, "path"), paths_of(want))


class Places:
    """what the iterator over elements was made for, and the element it gives"""

    def __init__(self, T, k):
        self.T, self.k = T, k

    def new(self, I, args, st, site, t, body):
        s, e = (end_of(st, x) for x in args[1:3])
        st.ev("walk", s, e)
        return [(mk("rec", ITER, None, (num(0),)), st)]

    def next(self, I, args, st, site, t, body):
        r, p = I.target(st, args[0])
        n = I.read(st, r, p)
        if n.op != "rec" or len(n.args[2]) != 1:
            raise Limit("another iterator")
        if n.args[2][0] is num(1):
            return [(NONE, st)]
        I.write(st, r, p, mk("rec", ITER, None, (num(1),)))
        T = self.T
        _, LN = T.arenas(st)
        cell = ("O", sym("cell"))
        I.write(st, cell, (), T.ld(self.k))
        return [(some(mk("rec", "tuple", None, (path_to(T, self.k, LN), mkref(cell, ())))), st)]


def end_of(st, x):
    """the element a path leads to"""
    gs = segs(st.facts.canon(x))
    if not gs or gs[-1].op != "u":
        return None
    return st.facts.canon(key_of(st.facts.canon(F(gs[-1].args[0], "Idx", "arena")), "Leaf"))


@part("C07", seconds=200)
def iter_range(prog, rep, sink):
    """iterating over a range gives the parts of its elements inside the range, each once"""
    from .p_upd import k_path
    if not FIELDS.get(ITER):
        rep.notes.append("the iterator over elements has another form")
        return
    for incl in (True, False):
        for open_ in (None, "start", "end"):
            label = "iter_range %s%s" % ("up to and with its end" if incl else "up to its end", ", no %s" % open_ if open_ else "")
            with NavOp(prog, rep, sink, "iter_range", label=label) as op:
                T, I = op.T, op.I
                a, b, k, i, j = (sym(x) for x in "abkij")
                w = Places(T, k)
                I.contracts.update({"BTree::get_path": k_path(T), "iter::Iter::new": w.new, ITER_NEXT: w.next})
                st = T.start(I, leaf=a)
                for x in (b, k):
                    I.assume(st, mk("app", "alive", T.ld(x)))
                T.leaves = [a, b, k]
                I.assume(st, le(i, rle_of(T.elem0(a))))
                I.assume(st, le(j, rle_of(T.elem0(b))))
                if open_:
                    I.contracts["BTree::start_cursor"] = lambda I, args, st, site, t, body: [(some(mkcursor(a, num(0))), st)]
                    I.contracts["BTree::end_cursor"] = lambda I, args, st, site, t, body: [(some(mkcursor(b, rle_of(T.elem0(b)))), st)]
                if open_ == "start":
                    if incl:
                        continue
                    r = mk("rec", "std::ops::RangeTo", None, (mkcursor(b, j),))
                elif open_ == "end":
                    if incl:
                        continue
                    r = mk("rec", "std::ops::RangeFrom", None, (mkcursor(a, i),))
                elif incl:
                    r = mk("rec", "std::ops::RangeInclusive", None, (mkcursor(a, i), mkcursor(b, j), FALSE))
                else:
                    r = mk("rec", "std::ops::Range", None, (mkcursor(a, i), mkcursor(b, j)))
                ii = num(0) if open_ == "start" else i
                jj = rle_of(T.elem0(b)) if open_ == "end" else j
                for v, s in op.run([ref("self"), r], st):
                    for x, n, y in step(op, s, v):
                        walks = [e for e in y.log if e[0] == "walk"]
                        if len(walks) != 1:
                            op.judge_known("C07", "a range is walked from its start to its end", y, None)
                            continue
                        op.judge_known("C07", "a range is walked from its start to its end", y, None if None in walks[0][1:] else all(y.facts.canon(g) is y.facts.canon(w_) for g, w_ in zip(walks[0][1:], (a, b))))
                        for at_a, z in I.split_bool(y, eq(k, a)):
                            for at_b, u in I.split_bool(z, eq(k, b)):
                                if feasible(u):
                                    part_given(op, u, x, k, ii if at_a else None, jj if at_b else None, incl or open_ == "end")


def part_given(op, s, x, k, i, j, incl):
    """the part of element k from i to j"""
    T, I = op.T, op.I
    if x is None:
        none_left = j is not None and not incl and J.entails(s, neg_(j))
        op.judge_known("C07", "every element of the range is given", s, True if none_left else False)
        return
    if j is not None and not incl:
        for some_, y in I.split_bool(s, lt(num(0), j)):
            if feasible(y):
                op.judge_known("C07", "nothing of the element an excluded end stands before is given", y, some_)
    ES = "ElemSlice"
    if not FIELDS.get(ES) or not {"cursor", "elem", "start", "end"} <= set(FIELDS[ES]):
        op.judge_known("C07", "every element of the range is given", s, None)
        return
    f = lambda n: s.facts.canon(field(x, ES, n))
    op.judge("C07", "the part given is of the element at the place", s, cursor_of(f("cursor"))[0], k)
    op.judge("C07", "the part given is of the element at the place", s, I.deref(s, f("elem")), T.elem0(k))
    for n, want, default in (("start", i, num(0)), ("end", j, rle_of(T.elem0(k)))):
        for vn, o, y in I.split_variant(s, f(n), ("Some", "None")):
            if feasible(y):
                op.judge("C07", "the part given lies in the range", y, default if vn == "None" else fld(o, "Some", 0, "0"), default if want is None else want)


def neg_(j):
    """j is zero or less"""
    return sub(num(0), j)


@part("C07", seconds=200)
def visit_previous_caches(prog, rep, sink):
    """what is told about what stands before a cursor is exactly that, in order"""
    for d, most in ((2, None), (3, 6), (4, 2)) if rep.tier == "quick" else ((2, None), (3, None), (4, 4)):
        with NavOp(prog, rep, sink, "visit_previous_caches", label="visit_previous_caches at depth %d" % d, unroll=13 if most is None else most + 2) as op:
            T, I = op.T, op.I
            I.follow = I.unroll
            off, f = sym("off"), sym("f")
            st = T.start(I)
            items = some_path(op, st, d, "Leaf")
            k = st.facts.canon(key_of(items[-1][0], "Leaf"))
            T.saturate(I, st, [k], T.IN0, T.LN0, [])
            for _, r in items[1:]:
                if most is not None:
                    I.assume(st, le(r, num(most)))
            I.contracts["BTree::get_path"] = lambda I, args, st, site, t, body: [(paths_of(items), st)]
            for v, s in op.run([ref("self"), mkcursor(k, off), f], st):
                told(op, s, items, k, off)


def told(op, s, items, k, off):
    T, I = op.T, op.I
    C = s.facts.canon
    want = []
    for (a, _), (_, r) in zip(items, items[1:]):
        n = numval(C(r))
        if n is None:
            # the path has not looked at this slot: every value it can have there
            for m in range(13):
                t = s.copy()
                if I.assume(t, eq(r, num(m))) is not False and feasible(t):
                    told(op, t, items, k, off)
            return
        p = C(key_of(a, "Internal"))
        want += [(p, num(m)) for m in range(n)]
    got = [e for e in s.log if e[0] == "usercall"]
    if len(got) != len(want) + 1:
        op.judge_known("C07", "everything before the cursor is told once, in order", s, False)
        return
    for e, (p, m) in zip(got, want):
        x = C(e[2][0])
        c = T.children(p)
        if x.op == "rec" and x.args[1] == "PrevSiblingElem":
            op.judge("C07", "everything before the cursor is told once, in order", s, I.deref(s, x.args[2][0]), elem_at(op, s, p, m))
        elif x.op == "rec" and x.args[1] == "NodeCache":
            op.judge("C07", "everything before the cursor is told once, in order", s, I.deref(s, x.args[2][0]), fn(I.seq_get(s, c, m), "Child", "cache"))
        else:
            op.judge_known("C07", "everything before the cursor is told once, in order", s, False if x.op == "rec" else None)
    x = C(got[-1][2][0])
    if x.op != "rec" or x.args[1] != "ThisElemAndOffset":
        op.judge_known("C07", "the cursor's own element comes last", s, False if x.op == "rec" else None)
        return
    op.judge("C07", "the cursor's own element comes last", s, I.deref(s, x.args[2][0]), T.elem0(k))
    op.judge("C07", "the cursor's own element comes last", s, x.args[2][1], off)
