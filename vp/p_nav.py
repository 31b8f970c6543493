"""Moving through the tree: ends, paths, neighbours, comparison."""
from .p_tree import *


class NavOp(OneOp):
    def __init__(self, prog, rep, sink, name, contracts=None, **kw):
        kw.setdefault("unroll", 3)
        super().__init__(prog, rep, sink, Diff(), name, contracts, **kw)

    def empty(self, s):
        return s.facts.value(eqi(length(self.T.children(self.T.R)), num(0)))

    def child_at(self, s, p, i):
        """the index stored at place i of the children of p"""
        return s.facts.canon(fn(self.I.seq_get(s, self.T.children(p), i), "Child", "arena"))

    def none_only_if_empty(self, s, vn, what):
        e = self.empty(s)
        if vn == "None":
            self.judge_known("C07", what + " is missing only in an empty tree", s, e)
        else:
            self.judge_known("C20", what + " is missing in an empty tree", s, None if e is None else not e)


def end_leaf(name, last):
    def f(prog, rep, sink):
        with NavOp(prog, rep, sink, name, drop=("BTree::" + name,)) as op:
            T, I = op.T, op.I
            for v, s in op.run([ref("self")], T.start(I)):
                unchanged(op, s, "")
                vn = s.facts.variant(v)
                op.none_only_if_empty(s, vn, "the %s element" % ("last" if last else "first"))
                if vn != "Some":
                    continue
                k = s.facts.canon(fld(fld(v, "Some", 0, "0"), None, 0, "0"))
                on_the_edge(op, s, k, "Leaf", last)
    f.__name__ = name
    return part("C07", "C20")(f)


def on_the_edge(op, s, k, kind, last, pid="C07"):
    """the node is reached from the root by always taking the outermost child"""
    T = op.T
    rule = "the %s element is reached through outermost children" % ("last" if last else "first")
    for _ in range(6):
        if s.facts.canon(k) is s.facts.canon(T.R):
            op.judge_known(pid, rule, s, True)
            return
        c = T.child_key(k)
        if c is None:
            op.judge_known(pid, rule, s, None)
            return
        p, i = c[1], c[2]
        r = J.entails_eq(s, i, sub(length(T.children(p)), num(1)) if last else num(0))
        if r is not True:
            op.sink.put(pid, rule + ": " + op.label, "bad" if r is False else "open", "child %s of %s" % (i, p))
            return
        k = p
    op.judge_known(pid, rule, s, None)


first_leaf = end_leaf("first_leaf", False)
last_leaf = end_leaf("last_leaf", True)


def known(op, s, arenas):
    """the links of these nodes are those of a well-formed tree"""
    T = op.T
    leaves = [s.facts.canon(key_of(a, "Leaf")) for a in arenas if s.facts.variant(a) == "Leaf"]
    nodes = [s.facts.canon(key_of(a, "Internal")) for a in arenas if s.facts.variant(a) == "Internal"]
    T.saturate(op.I, s, leaves, T.IN0, T.LN0, [n for n in nodes if n is not s.facts.canon(T.R)])


def path_items(op, s, seq):
    """entries of a path, None when not all are known"""
    out = []
    for g in segs(s.facts.canon(seq)):
        if g.op != "u":
            return None
        out.append((s.facts.canon(F(g.args[0], "Idx", "arena")), s.facts.canon(F(g.args[0], "Idx", "arr"))))
    return out


def is_path(op, s, seq, pid="C07", to=None, place=None):
    """root first, then a listed child of the entry before at every step"""
    T, I = op.T, op.I
    items = path_items(op, s, seq)
    rule = "a path lists a child of the entry before at every step"
    if items is None:
        op.judge_known(pid, rule, s, None)
        return None
    if not items:
        op.judge_known(pid, rule, s, False)
        return items
    known(op, s, [a for a, _ in items])
    op.judge(pid, "a path starts at the root", s, items[0][0], T.inode(T.R))
    for (a, _), (b, i) in zip(items, items[1:]):
        if s.facts.variant(a) == "Leaf":
            op.judge_known(pid, rule, s, False)
            return items
        p = s.facts.canon(key_of(a, "Internal"))
        op.judge(pid, rule, s, b, op.child_at(s, p, i))
        if place is not None:
            r = J.entails_eq(s, i, place(p))
            op.sink.put(pid, "the path goes through the outermost children: " + op.label, "ok" if r is True else "bad" if r is False else "open", "%s at %s" % (b, i))
    if to is not None:
        op.judge(pid, "a path ends at the node it is made for", s, items[-1][0], to)
    else:
        vn = s.facts.variant(items[-1][0])
        op.judge_known(pid, "a path ends at an element", s, None if vn is None else vn == "Leaf")
    return items


def end_path(name, last):
    def f(prog, rep, sink):
        with NavOp(prog, rep, sink, name) as op:
            T, I = op.T, op.I
            for v, s in op.run([ref("self")], T.start(I)):
                vn = s.facts.variant(v)
                op.none_only_if_empty(s, vn, "the path to the %s element" % ("last" if last else "first"))
                if vn == "Some":
                    is_path(op, s, fld(v, "Some", 0, "0"), place=lambda p: sub(length(T.children(p)), num(1)) if last else num(0))
    f.__name__ = name
    return part("C07", "C20", "C04")(f)


first_path = end_path("first_path", False)
last_path = end_path("last_path", True)


@part("C07", "C04")
def get_path(prog, rep, sink):
    with NavOp(prog, rep, sink, "get_path") as op:
        T, I = op.T, op.I
        k = sym("k")
        st = T.start(I, leaf=k)
        for v, s in op.run([ref("self"), T.leafi(k)], st):
            is_path(op, s, v, to=T.leafi(k))
    with NavOp(prog, rep, sink, "get_path", label="get_path of a node") as op:
        T, I = op.T, op.I
        n = sym("n")
        st = T.start(I, node=n)
        for v, s in op.run([ref("self"), T.inode(n)], st):
            is_path(op, s, v, to=T.inode(n))


def neighbour_contract(op, name, fwd):
    """the recursive call: the node on the same level next to the one given"""
    def f(I, args, st, site, t, body):
        if getattr(op, "inner", False) is False:
            op.inner = True
            try:
                return I.run(body, args, st, site.fid, site.block)
            finally:
                op.inner = False
        out = []
        for vn, a, s in I.split_variant(st, args[1], ["Internal", "Leaf"]):
            k = s.facts.canon(key_of(a, vn))
            if vn == "Leaf":
                continue
            r = mk("app", name, op.T.IN0, k)
            if k is s.facts.canon(op.T.R):
                out.append((NONE, s))
                continue
            for y in ("Some", "None"):
                s2 = s.copy()
                if not I.assume(s2, isvar_(r, y)):
                    continue
                if y == "Some":
                    # a neighbour is an inner node of the tree that has children
                    j = mk("app", name + "node", op.T.IN0, k)
                    I.assume(s2, mk("app", "alive", op.T.nd(j)))
                    I.assume(s2, le(num(1), length(op.T.children(j))))
                    kind = s2.facts.variant(fn(el(op.T.children(k), num(0)), "Child", "arena"))
                    if kind and not I.assume(s2, isvar_(fn(el(op.T.children(j), num(0)), "Child", "arena"), kind)):
                        continue
                    s2.ev("neighbour", k, j)
                    out.append((some(op.T.inode(j)), s2))
                else:
                    s2.ev("neighbour", k, None)
                    out.append((NONE, s2))
        return out
    return f


def neighbour_wanted(op, s, kind, k, fwd, told, up=0):
    """[(index value or None, state)] the neighbour of a node on its level; code that asks nobody is followed up four levels"""
    T, I = op.T, op.I
    if up > 4:
        return []
    if kind == "Internal":
        if k is s.facts.canon(T.R):
            return [(None, s)]
        out = []
        for r, x in I.split_bool(s, eq(k, T.R)):
            if not feasible(x):
                continue
            if r:
                out.append((None, x))
            else:
                out += inner(op, x, kind, k, fwd, told, up)
        return out
    return inner(op, s, kind, k, fwd, told, up)


def inner(op, s, kind, k, fwd, told, up=0):
    T, I = op.T, op.I
    c = T.child_key(k)
    if c is not None:
        p, slot = c[1], c[2]
    elif kind == "Leaf":
        p, slot = T.lpar(k), T.lslot(k)
    else:
        p, slot = T.par(k), T.pslot(k)
    p = s.facts.canon(p)
    out = []
    cond = lt(add(slot, num(1)), length(T.children(p))) if fwd else le(num(1), slot)
    for v, x in I.split_bool(s, cond):
        if not feasible(x):
            continue
        if v:
            out.append((op.child_at(x, p, add(slot, num(1)) if fwd else sub(slot, num(1))), x))
            continue
        if p in told:
            j = told[p]
            ns = [(None if j is None else T.inode(j), x)]
        else:
            ns = neighbour_wanted(op, x, "Internal", p, fwd, told, up + 1)
        for n, y in ns:
            if n is None:
                out.append((None, y))
            else:
                q = y.facts.canon(key_of(n, "Internal"))
                out.append((op.child_at(y, q, num(0) if fwd else sub(length(T.children(q)), num(1))), y))
    return out


def neighbour_part(name, fwd):
    def f(prog, rep, sink):
        for kind in ("Leaf", "Internal"):
            path = "BTree::" + name
            op = NavOp(prog, rep, sink, name, label="%s of %s" % (name, "an element" if kind == "Leaf" else "a node"))
            op.extra = {path: neighbour_contract(op, name, fwd)}
            with op:
                op.inner = True
                T, I = op.T, op.I
                k = sym("k")
                st = T.start(I, leaf=k) if kind == "Leaf" else T.start(I, node=k)
                for v, s in op.run([ref("self"), T.leafi(k) if kind == "Leaf" else T.inode(k)], st):
                    told = {e[1]: e[2] for e in s.log if e[0] == "neighbour"}
                    for want, x in neighbour_wanted(op, s, kind, x_canon(s, k), fwd, told):
                        if feasible(x):
                            op.judge("C07", "the neighbour is the one %s in order" % ("after" if fwd else "before"), x, v, NONE if want is None else some(want))
    f.__name__ = name
    return part("C07")(f)


def x_canon(s, k):
    return s.facts.canon(k)


next_same_level_in_node = neighbour_part("next_same_level_in_node", True)
prev_same_level_in_node = neighbour_part("prev_same_level_in_node", False)


def some_path(op, st, d, last):
    """an arbitrary path of d entries: [(arena, place)]"""
    T, I = op.T, op.I
    items = [(T.inode(T.R), sym("r0"))]
    n = T.R
    for i in range(1, d):
        r = sym("r%d" % i)
        I.assume(st, le(num(0), r))
        I.assume(st, lt(r, length(T.children(n))))
        a = fn(el(T.children(n), r), "Child", "arena")
        kind = last if i == d - 1 else "Internal"
        I.assume(st, isvar_(a, kind))
        n = key_of(st.facts.canon(a), kind)
        items.append((st.facts.canon(a), r))
    return items


def mkidx(a, i):
    d = {"arena": a, "arr": i}
    return mk("rec", "Idx", None, tuple(d[x] for x in FIELDS["Idx"]))


def succ_path(op, s, items, i=None):
    """[(path or None, state)] the next path on the same level"""
    T, I = op.T, op.I
    if i is None:
        i = len(items) - 1
    if i <= 0:
        return [(None, s)]
    p = s.facts.canon(key_of(items[i - 1][0], "Internal"))
    out = []
    for v, x in I.split_bool(s, lt(add(items[i][1], num(1)), length(T.children(p)))):
        if not feasible(x):
            continue
        if v:
            j = add(items[i][1], num(1))
            out.append((items[:i] + [(op.child_at(x, p, j), j)], x))
        else:
            for up, y in succ_path(op, x, items, i - 1):
                if up is not None:
                    q = y.facts.canon(key_of(up[-1][0], "Internal"))
                    up = up + [(op.child_at(y, q, num(0)), num(0))]
                out.append((up, y))
    return out


@part("C07")
def next_sibling(prog, rep, sink):
    for last in ("Leaf", "Internal"):
        for d in (1, 2, 3, 4):
            if d == 1 and last == "Leaf":
                continue
            with NavOp(prog, rep, sink, "next_sibling", label="next_sibling of a path of %d to %s" % (d, "an element" if last == "Leaf" else "a node"), unroll=5) as op:
                T, I = op.T, op.I
                I.contracts["BTree::next_sibling"] = T.k_again(d)
                st = T.start(I)
                items = some_path(op, st, d, last)
                place = ("O", sym("path"))
                I.write(st, place, (), mkseq([unit(mkidx(a, r)) for a, r in items]))
                for v, s in op.run([ref("self"), mkref(place, ())], st):
                    now = path_items(op, s, I.deref(s, mkref(place, ())))
                    for want, x in succ_path(op, s, items):
                        op.judge("C07", "stepping tells whether there is a next place", x, v, FALSE if want is None else TRUE)
                        if want is None:
                            continue
                        if now is None or len(now) != len(want):
                            op.judge_known("C07", "stepping keeps the level", x, None if now is None else False)
                            continue
                        for (a, i), (b, j) in zip(now, want):
                            op.judge("C07", "stepping moves to the next place in order", x, a, b)
                            if b is not T.inode(T.R):
                                op.judge("C07", "stepping records the place of each entry", x, i, j)


def step_part(name, fwd, want):
    """an operation built on stepping to the neighbouring element; want(op, state, leaf, offset, neighbour) -> value"""
    def f(prog, rep, sink):
        inner = "next_same_level_in_node" if fwd else "prev_same_level_in_node"
        op = NavOp(prog, rep, sink, name, drop=("BTree::next_elem", "BTree::prev_elem"))
        op.extra = {"BTree::" + inner: neighbour_contract(op, inner, fwd)}
        with op:
            T, I = op.T, op.I
            k, off = sym("k"), sym("off")
            st = T.start(I, leaf=k)
            I.assume(st, le(off, rle_of(T.elem0(k))))
            for v, s in op.run([ref("self"), mkcursor(k, off)], st):
                told = {e[1]: e[2] for e in s.log if e[0] == "neighbour"}
                for c, x0 in want(op, s, k, off):
                    if c is not None:
                        op.judge("C07", "a cursor that needs no step is kept", x0, v, c)
                        continue
                    for n, x in neighbour_wanted(op, x0, "Leaf", x_canon(x0, k), fwd, told):
                        if not feasible(x):
                            continue
                        if n is None:
                            op.judge("C07", "no neighbour means no cursor", x, v, NONE)
                        else:
                            j = x_canon(x, key_of(n, "Leaf"))
                            o = num(0)
                            if name == "prefer_left":
                                o = rle_of(fn(op.I.arena_get(x, T.LN0, j), "LeafNode", "elem"))
                            op.judge("C07", "the cursor returned is at the neighbour", x, v, some(mkcursor(j, o)))
    f.__name__ = name
    return part("C07")(f)


def always(op, s, k, off):
    return [(None, s)]


def unless(cond):
    """the cursor itself unless the condition holds"""
    def f(op, s, k, off):
        out = []
        for v, x in op.I.split_bool(s, cond(op, k, off)):
            if feasible(x):
                out.append((None if v else some(mkcursor(k, off)), x))
        return out
    return f


def right_end(op, s, k, off):
    out = []
    for z, x in op.I.split_bool(s, eqi(off, num(0))):
        if z and feasible(x):
            out.append((some(mkcursor(k, off)), x))
        elif feasible(x):
            out += unless(lambda op, k, off: eqi(off, rle_of(op.T.elem0(k))))(op, x, k, off)
    return out


next_elem = step_part("next_elem", True, always)
prev_elem = step_part("prev_elem", False, always)
prefer_right = step_part("prefer_right", True, right_end)
prefer_left = step_part("prefer_left", False, unless(lambda op, k, off: eqi(off, num(0))))


def end_cursor(name, last):
    def f(prog, rep, sink):
        with NavOp(prog, rep, sink, name) as op:
            T, I = op.T, op.I
            for v, s in op.run([ref("self")], T.start(I)):
                vn = s.facts.variant(v)
                op.none_only_if_empty(s, vn, "the %s cursor" % ("end" if last else "start"))
                if vn == "Some":
                    k = mk("app", "lastleaf" if last else "firstleaf", T.IN0)
                    op.judge("C07", "the cursor is at the very %s" % ("end" if last else "start"), s, v,
                             some(mkcursor(k, rle_of(T.elem0(k)) if last else num(0))))
    f.__name__ = name
    return part("C07", "C20")(f)


start_cursor_ = end_cursor("start_cursor", False)
end_cursor_ = end_cursor("end_cursor", True)


@part("C07")
def compare_pos(prog, rep, sink):
    with NavOp(prog, rep, sink, "compare_pos") as op:
        T, I = op.T, op.I
        a, oa, b, ob = sym("a"), sym("oa"), sym("b"), sym("ob")
        st = T.start(I)
        for k in (a, b):
            I.assume(st, mk("app", "alive", T.ld(k)))
        for v, s in op.run([ref("self"), mkcursor(a, oa), mkcursor(b, ob)], st):
            for want, x in order_of(op, s, a, oa, b, ob):
                got = x.facts.canon(v)
                if got.op == "app" and got.args[0] == "cmp":
                    for w, y in cmp_of(op, x, *got.args[1:]):
                        op.judge_known("C07", "cursors compare as they stand in the sequence", y, w == want)
                else:
                    w = x.facts.variant(got)
                    op.judge_known("C07", "cursors compare as they stand in the sequence", x, None if w is None else w == want)


def cmp_of(op, s, x, y):
    out = []
    for v, s1 in op.I.split_bool(s, eqi(x, y)):
        if not feasible(s1):
            continue
        if v:
            out.append(("Equal", s1))
            continue
        for w, s2 in op.I.split_bool(s1, lt(x, y)):
            if feasible(s2):
                out.append(("Less" if w else "Greater", s2))
    return out


def order_of(op, s, a, oa, b, ob):
    """[(order of two cursors, state)]"""
    T, I = op.T, op.I
    out = []
    for same, x in I.split_bool(s, eq(a, b)):
        if not feasible(x):
            continue
        if same:
            out += cmp_of(op, x, oa, ob)
            continue
        work = [(x, T.lpar(a), T.lpar(b), T.lslot(a), T.lslot(b), 0, None)]
        while work:
            y, p, q, i, j, n, below = work.pop()
            p, q = y.facts.canon(p), y.facts.canon(q)
            told = True if p is q else below is not None and y.facts.value(eq(*(fn(T.nd(k), "Node", "parent") for k in below)))
            for e, z in [(told, y)] if told is not None and n or p is q else I.split_bool(y, eq(p, q)):
                if not feasible(z):
                    continue
                if e:
                    # different children of one node stand at different places
                    for o, w in cmp_of(op, z, i, j):
                        if o != "Equal":
                            out.append((o, w))
                elif n < 3:
                    # neither is the root: they are equally far from it
                    if I.assume(z, eq(p, T.R), False) and I.assume(z, eq(q, T.R), False) and feasible(z):
                        work.append((z, T.par(p), T.par(q), T.pslot(p), T.pslot(q), n + 1, (p, q)))
    return out


@part("C07", "C20")
def depth_(prog, rep, sink):
    with NavOp(prog, rep, sink, "depth") as op:
        T, I = op.T, op.I
        for v, s in op.run([ref("self")], T.start(I)):
            n, want = T.R, 1
            ok_ = None
            for _ in range(6):
                e = s.facts.value(eqi(length(T.children(n)), num(0)))
                if n is T.R and e is True:
                    ok_ = True
                    break
                a = op.child_at(s, n, num(0))
                vn = s.facts.variant(a)
                if vn == "Leaf":
                    ok_ = True
                    break
                if vn != "Internal":
                    break
                n, want = s.facts.canon(key_of(a, "Internal")), want + 1
            if ok_:
                op.judge("C07", "the height counts the levels above the elements", s, v, num(want))
