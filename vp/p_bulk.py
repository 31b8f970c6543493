"""Many elements at once: inserted at a place, or made into a tree."""
from .p_tree import *
from .engine import mkref, isvar as isvar_
from .p_upd import k_cut, ranked, place_in
from .p_drain import k_last
from .p_args import tup_
from . import judge as J


def items(n):
    xs = [sym("x%d" % i) for i in range(n)]
    return xs, mkseq([unit(x) for x in xs])


SIZES = (1, 2, 10, 11, 12, 20, 21, 30, 101, 111, 122, 213, 340)


@part("C18", "C01", "C02", "C04", "C05", seconds=100)
def create_subtrees(prog, rep, sink):
    """a tree over given elements"""
    for n in SIZES:
        with OneOp(prog, rep, sink, Free(), "create_subtrees_from_elem", label="a tree of %d elements" % n) as op:
            T, I = op.T, op.I
            I.peel = 2048
            xs, seq = items(n)
            st = T.start(I)
            for v, s in op.run([ref("self"), seq], st):
                root = s.facts.canon(fld(v, None, 0, "0"))
                grown(op, s, root, T.arenas(s), xs)


def grown(op, s, root, arenas, xs, old=()):
    """the tree below root is well formed and holds exactly xs"""
    T, I = op.T, op.I
    C = s.facts.canon
    IN, LN = arenas
    got, heights, seen = [], set(), set()
    rule = "a tree built holds the given elements in order"

    def walk(k, depth):
        cell = I.arena_get(s, IN, k)
        seen.add(k)
        if cell is DEAD:
            op.judge_known("C18", rule, s, False)
            return None
        ch = C(F(cell, "Node", "children"))
        gs = segs(ch) if ch.op == "seq" else None
        if gs is None or any(g.op != "u" for g in gs):
            return None
        op.judge_known("C04", "a node built has room", s, len(gs) < T.MAX)
        for i, g in enumerate(gs):
            c = g.args[0]
            a, cache = C(F(c, "Child", "arena")), C(F(c, "Child", "cache"))
            vn = s.facts.variant(a)
            if vn is None:
                return None
            x = C(key_of(a, vn))
            if vn == "Leaf":
                l = I.arena_get(s, LN, x)
                if l is DEAD:
                    op.judge_known("C18", rule, s, False)
                    return None
                e = C(F(l, "LeafNode", "elem"))
                got.append(e)
                heights.add(depth)
                seen.add(x)
                op.judge("C01", "a leaf built names its node", s, F(l, "LeafNode", "parent"), k)
                op.judge("C02", "a summary built is that of the element", s, cache, T.th.ec(e))
            else:
                m = I.arena_get(s, IN, x)
                if m is DEAD or len(seen) > 4000:
                    op.judge_known("C18", rule, s, False)
                    return None
                op.judge("C01", "a node built names its parent", s, F(m, "Node", "parent"), some(T.inode(k)))
                op.judge("C01", "a node built names its place", s, F(m, "Node", "parent_slot"), num(i))
                op.judge("C02", "a summary built is that of the children", s, cache, T.th.cc(C(F(m, "Node", "children"))))
                if walk(x, depth + 1) is None:
                    return None
        return gs
    if s.facts.variant(root) != "Internal":
        op.judge_known("C18", rule, s, None)
        return None
    r = C(key_of(root, "Internal"))
    top = walk(r, 0)
    if top is None:
        op.judge_known("C18", rule, s, None)
        return None
    op.judge("C18", rule, s, mkseq([g for e in got for g in content(e)]), mkseq([g for x in xs for g in content(x)]))
    op.judge_known("C18", "all elements of a tree built are equally deep", s, len(heights) <= 1)
    op.judge("C01", "the root built has no parent", s, F(I.arena_get(s, IN, r), "Node", "parent"), NONE)
    for ar in (IN, LN):
        for l in I.arena_parts(ar)[1]:
            if l.op == "w" and l.args[1] is not DEAD and C(l.args[0]) not in old:
                op.judge_known("C05", "nothing unreachable stays allocated", s, C(l.args[0]) in seen)
    return top


FROM_ITER = "from_iter"


@part("C18", "C01", "C02", "C04", "C05", seconds=100)
def from_iter(prog, rep, sink):
    """a tree built from a sequence"""
    name = next((b.np for b in prog.bodies.values() if b.d["name"] == "from_iter" and (b.d.get("impl_self") or {}).get("adt") == "BTree"), None)
    if name is None:
        return
    for n in (0,) + SIZES:
        with OneOp(prog, rep, sink, Free(), name, label="a tree collected from %d elements" % n) as op:
            T, I = op.T, op.I
            I.peel = 2048
            xs, seq = items(n)
            from .models import iter_seq, VAL
            st = T.start(I)
            for v, s in op.run([iter_seq(VAL, seq, num(0), num(n))], st):
                v = s.facts.canon(v)
                root = s.facts.canon(F(v, "BTree", "root"))
                top = grown(op, s, root, (F(v, "BTree", "in_nodes"), F(v, "BTree", "leaf_nodes")), xs)
                if top is not None and n:
                    op.judge("C02", "a summary built is that of the children", s, F(v, "BTree", "root_cache"), T.th.cc(mkseq(top)))


# ------------------------------------------------------------------ many elements at a place
def k_put(T):
    """insert_by_path: taken up by the element there, or a new one beside it (an inner place cuts it)"""
    def f(I, args, st, site, t, body):
        k, off = (st.facts.canon(x) for x in cursor_of(args[1]))
        x = st.facts.canon(args[2])
        IN, LN = T.arenas(st)
        cell = I.arena_get(st, LN, k)
        if cell is DEAD:
            I.panic_states.append(("an insertion at a removed element", site, st))
            return []
        e = st.facts.canon(fn(cell, "LeafNode", "elem"))
        n = rle_of(e)
        ie = FIELDS["LeafNode"].index("elem")
        none = mk("rec", "SplittedLeaves", None, tuple(EMPTY for _ in FIELDS["SplittedLeaves"]))

        def with_(y):
            return setfld(cell, None, ie, "elem", y)
        out = []
        if not I.must(st, [le(off, n)], site, "an insertion behind the end of an element"):
            return []
        for at0, s in I.split_bool(st, eqi(off, num(0))):
            for atn, s in [(False, s)] if at0 else I.split_bool(s, eqi(off, n)):
                for taken, s in I.split_bool(s, mk("app", "absorbs", LN, k, off, x)):
                    if not feasible(s):
                        continue
                    if taken:
                        y = mk("app", "cat", x, e) if at0 else mk("app", "cat", e, x) if atn else mk("app", "ins", e, off, x)
                        T.setarenas(I, s, IN, I.arena_set(s, LN, k, with_(y)))
                        s.ev("taken", k, x)
                        out.append((tup_(mkcursor(k, off), none), s))
                        continue
                    j = mk("app", "newleaf", LN, k, x)
                    I.assume(s, eq(j, k), False)
                    L2 = I.arena_set(s, LN, j, with_(x))
                    if not at0 and not atn:
                        m = mk("app", "cutleaf", LN, k, off)
                        I.assume(s, eq(m, k), False)
                        I.assume(s, eq(m, j), False)
                        L2 = I.arena_set(s, I.arena_set(s, L2, k, with_(mk("app", "sub", e, num(0), off))), m, with_(mk("app", "sub", e, off, n)))
                        s.ev("line", "after", k, m)
                    s.ev("line", "before" if at0 else "after", k, j)
                    T.setarenas(I, s, IN, L2)
                    out.append((tup_(mkcursor(j, num(0)), none), s))
        return out
    return f


def k_told(name, *which):
    """a call that is only noted"""
    def f(I, args, st, site, t, body):
        st.ev(name, *(st.facts.canon(args[i]) for i in which))
        return [(mk("app", name, num(len(st.log))), st)]
    return f


def k_summed(T):
    def f(I, args, st, site, t, body):
        st.ev("summed", st.facts.canon(args[1]), T.arenas(st)[1])
        return [(UNIT, st)]
    return f


def k_subtrees(T):
    def f(I, args, st, site, t, body):
        st.ev("built", st.facts.canon(args[1]), *T.arenas(st))
        j = sym("built")
        IN, LN = T.arenas(st)
        return [(tup_(T.inode(j), sym("height")), st)]
    return f


@part("C18", "C02", "C05", "C06", seconds=200)
def insert_many(prog, rep, sink):
    """given elements stand at the given place in the given order"""
    from .models import iter_seq, VAL
    for n in (0, 1, 2, 3):
        for where in ("a place", "an empty tree"):
            with OneOp(prog, rep, sink, Diff(), "insert_many_by_cursor", label="insertion of %d elements %s %s" % (n, "at" if where == "a place" else "into", where)) as op:
                T, I = op.T, op.I
                I.peel = 6
                I.unroll = 6
                I.contracts.update({"BTree::split_leaf_if_needed": k_cut(T), "BTree::insert_by_path": k_put(T), "BTree::last_leaf": k_last(T),
                                    "BTree::recursive_update_cache": k_summed(T), "BTree::push": k_told("push", 1),
                                    "BTree::create_subtrees_from_elem": k_subtrees(T), "BTree::update_root_cache": k_told("rootsum")})
                xs, seq = items(n)
                it = iter_seq(VAL, seq, num(0), num(n))
                if where == "a place":
                    k, off = sym("k"), sym("off")
                    ranked(T, I, k)
                    st = T.start(I, leaf=k)
                    I.assume(st, lt(num(0), rle_of(T.elem0(k))))
                    I.assume(st, le(off, rle_of(T.elem0(k))))
                    for x in xs:
                        I.assume(st, lt(num(0), rle_of(x)))
                    for v, s in op.run([ref("self"), some(mkcursor(k, off)), it], st):
                        stands_there(op, s, k, off, xs)
                else:
                    st = T.start(I)
                    I.assume(st, eqi(length(T.children(T.R)), num(0)))
                    total = st.facts.canon(I.read(st, T.home[0], T.home[1] + (("f", None, FIELDS["BTree"].index("root_cache"), "root_cache"),)))
                    for v, s in op.run([ref("self"), NONE, it], st):
                        stands_alone(op, s, xs, total)


def conts(xs):
    return [g for x in xs for g in content(x)]


def stands_there(op, s0, k, off, xs):
    T, I, sink = op.T, op.I, op.sink
    C = s0.facts.canon
    IN, LN = T.arenas(s0)
    rule = "the given elements stand at the place in order"
    line = [C(k)]
    r = mk("app", "next", T.LN0, C(k))
    if s0.facts.variant(r) == "Some":
        line.append(C(mk("app", "nextleaf", T.LN0, C(k))))
    old = list(line)
    for e in s0.log:
        if e[0] in ("cut", "line"):
            at, new, after = (e[1], e[3], True) if e[0] == "cut" else (e[2], e[3], e[1] == "after")
            at = C(at)
            if at not in line:
                op.judge_known("C18", rule, s0, None)
                return
            line.insert(line.index(at) + after, C(new))
    # what stood before may have grown
    grown_ = [C(l.args[0]) for l in I.arena_parts(LN)[1] if l.op == "w" and C(l.args[0]) not in line]
    if len(set(grown_)) > 1:
        op.judge_known("C18", rule, s0, None)
        return
    work = [s0]
    want = []
    if grown_:
        want += content(T.elem0(grown_[0]))
        line.insert(0, grown_[0])
        work = []
        for p, x in place_in(op, s0, T.lpar(k), k):
            if p is None:
                continue
            a = el(T.children(T.lpar(k)), sub(p, num(1)))
            op.judge("C18", "only the element before the place may grow", x, grown_[0], key_of(x.facts.canon(fn(a, "Child", "arena")), "Leaf"))
            work.append(x)
    e = mkseq(content(T.elem0(k)))
    want += [sl(e, num(0), off)] + conts(xs) + [sl(e, off, length(e))]
    for j in old[1:]:
        want += content(T.elem0(j))
    for s in work:
        have_ = []
        for j in line:
            c = I.arena_get(s, LN, j)
            if c is not DEAD:
                have_ += content(s.facts.canon(fn(c, "LeafNode", "elem")))
        got, wanted = mkseq(have_), mkseq(want)
        r = J.equal(I, s, got, wanted)
        for pid in ("C18",):
            sink.put(pid, rule + ": " + op.label, "ok" if r is True else "bad" if r is False and clean_path(s) else "open", "got %s, want %s" % (got, wanted))
    # an element that grew here has its summaries brought up to date afterwards
    for j in grown_:
        sums = [e for e in s0.log if e[0] == "summed" and s0.facts.variant(e[1]) == "Leaf" and C(key_of(e[1], "Leaf")) is j]
        if not sums:
            op.judge_known("C02", "the summaries above an element that grew follow", s0, False)
        else:
            c = I.arena_get(s0, sums[-1][2], j)
            now = I.arena_get(s0, LN, j)
            op.judge("C02", "the summaries above an element that grew follow", s0, rle_of(C(fn(c, "LeafNode", "elem"))), rle_of(C(fn(now, "LeafNode", "elem"))))


def stands_alone(op, s, xs, s0cache=None):
    T, I = op.T, op.I
    C = s.facts.canon
    IN, LN = T.arenas(s)
    rule = "the given elements make up the tree in order"
    evs = [e for e in s.log if e[0] in ("push", "built", "line", "taken")]
    if not xs:
        op.judge_known("C18", rule, s, not evs and IN is T.IN0 and LN is T.LN0)
        return
    if all(e[0] == "push" for e in evs):
        op.judge("C18", rule, s, mkseq(conts(C(e[1]) for e in evs)), mkseq(conts(xs)))
        return
    if len(evs) != 1 or evs[0][0] != "built":
        op.judge_known("C18", rule, s, None)
        return
    data = C(evs[0][1])
    if data.op != "seq" or any(g.op != "u" for g in segs(data)):
        op.judge_known("C18", rule, s, None)
        return
    op.judge("C18", rule, s, mkseq(conts(C(g.args[0]) for g in segs(data))), mkseq(conts(xs)))
    root = C(I.read(s, T.home[0], T.home[1] + (("f", None, FIELDS["BTree"].index("root"), "root"),)))
    op.judge("C18", "the tree built becomes the tree", s, root, T.inode(sym("built")))
    op.judge_known("C05", "the old root is freed", s, I.arena_get(s, IN, T.R) is DEAD)
    at = s.log.index(evs[0])
    def total(x):
        return C(I.read(x, T.home[0], T.home[1] + (("f", None, FIELDS["BTree"].index("root_cache"), "root_cache"),)))

    told = any(e[0] == "rootsum" for e in s.log[at:])
    op.judge_known("C02", "the summary of the tree is that of the tree built", s, told or (False if total(s) is s0cache else None))
