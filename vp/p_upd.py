"""Splitting an element, updates over ranges, summaries brought up to date."""
from .p_tree import *
from .p_nav import NavOp, known
from . import judge as J


def place_in(op, s, n, k):
    """[(place of leaf k among the children of n now, state)]"""
    T, I = op.T, op.I
    w = View(T, I, s)
    return [(p, x) for p, x in T.find_child(I, s.copy(), w.children(s.facts.canon(n)), "Leaf", k) if feasible(x)]


@part(*HEAP)
def split_leaf_if_needed(prog, rep, sink):
    """an element is cut in two at an inner offset; the place for new elements is named"""
    with OneOp(prog, rep, sink, Diff(), "split_leaf_if_needed") as op:
        T, I = op.T, op.I
        k, off = sym("k"), sym("off")
        st = T.start(I, leaf=k)
        e = T.elem0(k)
        I.assume(st, le(off, rle_of(e)))
        for v, s in op.run([ref("self"), mkcursor(k, off)], st):
            heap_after(op, v, s, "", {k: content(e)})
            split_info(op, s, v, k, off)


def split_info(op, s0, v, k, off):
    T, I, sink = op.T, op.I, op.sink
    e = T.elem0(k)
    for cond, where in ((eqi(off, num(0)), "start"), (eqi(off, rle_of(e)), "end"), (None, "inside")):
        s = s0.copy()
        C = s.facts.canon
        if where == "inside":
            ok = I.assume(s, lt(num(0), off)) and I.assume(s, lt(off, rle_of(e)))
        else:
            ok = I.assume(s, cond)
            if where == "end":
                ok = ok and I.assume(s, lt(num(0), off))
        if not ok or not feasible(s):
            continue
        par, slot = F(v, "SplitInfo", "parent_idx"), F(v, "SplitInfo", "insert_slot")
        _, LN = T.arenas(s)
        cell = I.arena_get(s, LN, k)
        if cell is DEAD:
            op.judge_known("C05", "the element cut keeps its handle", s, False)
            continue
        op.judge("C03", "new elements go to the parent of the element cut", s, par, F(cell, "LeafNode", "parent"))
        for p, x in place_in(op, s, par, k):
            if p is None:
                op.judge_known("C03", "the parent named lists the element cut", x, False)
                continue
            want = p if where == "start" else add(p, num(1))
            r = J.entails_eq(x, slot, want)
            sink.put("C03", "new elements go behind what is before the offset: " + op.label, "ok" if r is True else "bad" if r is False else "open",
                     "slot %s, want %s (%s)" % (slot, want, where))
        new = C(F(v, "SplitInfo", "new_leaf"))
        fresh = [l.args[0] for l in I.arena_parts(LN)[1] if l.op == "w" and l.args[0].op == "fresh" and l.args[1] is not DEAD]
        op.judge("C05", "the handle of the new element is returned", s, new, some(T.leafi(fresh[0])) if fresh else NONE)
        np = C(F(v, "SplitInfo", "new_pos"))
        if where == "start":
            op.judge("C07", "the place behind the cut is named", s, np, some(mkcursor(k, num(0))))
        elif fresh:
            op.judge("C07", "the place behind the cut is named", s, np, some(mkcursor(fresh[0], num(0))))
        else:
            behind(op, s, np, par, k)
        ln = F(v, "SplitInfo", "left_neighbour")
        if where != "start":
            op.judge("C06", "the element before the cut is named", s, ln, some(mk("rec", "LeafIndex", None, (k,))))
        elif s.facts.variant(ln) == "Some":
            # an element of the same parent, right before
            q = fld(fld(ln, "Some", 0, "0"), None, 0, "0")
            op.judge("C06", "the element before the cut is named", s, q,
                     key_of(fn(el(T.children(T.lpar(k)), sub(T.lslot(k), num(1))), "Child", "arena"), "Leaf"))


def behind(op, s, np, par, k):
    """the start of the element after k, nothing behind the last"""
    T, I = op.T, op.I
    rule = "the place behind the cut is named"
    for p, x in place_in(op, s, par, k):
        if p is None:
            continue
        ch = View(T, I, x).children(x.facts.canon(par))
        for more, y in I.split_bool(x, lt(add(p, num(1)), length(ch))):
            if not feasible(y):
                continue
            vn = y.facts.variant(np)
            if more:
                if vn == "None":
                    op.judge_known("C07", rule, y, False)
                    continue
                nk, off = cursor_of(fld(np, "Some", 0, "0"))
                op.judge("C07", rule, y, off, num(0))
                at = y.facts.canon(fn(I.seq_get(y, ch, add(p, num(1))), "Child", "arena"))
                op.judge("C07", rule, y, nk, y.facts.canon(key_of(at, "Leaf")))
            else:
                if vn == "Some":
                    nk, off = cursor_of(fld(np, "Some", 0, "0"))
                    op.judge("C07", rule, y, nk, mk("app", "nextleaf", T.arenas(y)[1], k))
                    op.judge("C07", rule, y, off, num(0))
                else:
                    op.judge_known("C07", rule, y, y.facts.value(isvar_(mk("app", "next", T.arenas(y)[1], k), "None")))


# ------------------------------------------------------------------ contracts used for updates over a range
def k_cut(T):
    """split_leaf_if_needed: nothing changes at the ends of an element, inside it a new element takes what is behind"""
    def f(I, args, st0, site, t, body):
        todo = [st0]
        for e in st0.log:
            if e[0] == "succ":
                todo = [z for y in todo for _, z in I.split_bool(y, eq(y.facts.canon(e[1]), y.facts.canon(cursor_of(args[1])[0])))]
        return [x for y in todo for x in cut(I, args, y, site)]

    def cut(I, args, st, site):
        k, off = (st.facts.canon(x) for x in cursor_of(args[1]))
        out = []
        IN, LN = T.arenas(st)
        cell = I.arena_get(st, LN, k)
        if cell is DEAD:
            I.panic_states.append(("a removed element is cut", site, st))
            return []
        e = st.facts.canon(fn(cell, "LeafNode", "elem"))
        n = rle_of(e)

        def info(s, np, ln, slot, new):
            d = {"new_pos": np, "left_neighbour": ln, "parent_idx": mk("app", "cutparent", LN, k, off), "insert_slot": slot, "new_leaf": new}
            return mk("rec", "SplitInfo", None, tuple(d[x] for x in FIELDS["SplitInfo"]))
        kk = some(mk("rec", "LeafIndex", None, (k,)))
        for at0, s in I.split_bool(st, eqi(off, num(0))):
            if at0:
                for ln, s2 in T.neighbour_in_node(I, s, k):
                    out.append((info(s2, some(mkcursor(k, num(0))), ln, mk("app", "cutslot", LN, k, off), NONE), s2))
                continue
            for atn, s in I.split_bool(s, eqi(off, n)):
                if atn:
                    for j, s2 in successor(T, I, s, k, site):
                        out.append((info(s2, NONE if j is None else some(mkcursor(j, num(0))), kk, mk("app", "cutslot", LN, k, off), NONE), s2))
                    continue
                for inside, s in I.split_bool(s, lt(off, n)):
                    if not inside:
                        I.panic_states.append(("an element is cut behind its end", site, s))
                        continue
                    j = mk("app", "cutleaf", LN, k, off)
                    s.ev("cut", k, off, j, LN)
                    a = setfld(cell, None, FIELDS["LeafNode"].index("elem"), "elem", mk("app", "sub", e, num(0), off))
                    b = setfld(cell, None, FIELDS["LeafNode"].index("elem"), "elem", mk("app", "sub", e, off, n))
                    L2 = I.arena_set(s, I.arena_set(s, LN, k, a), j, b)
                    T.setarenas(I, s, IN, L2)
                    ib, lb, i2, l2 = T.epoch(I, s, mk("cut", k, off))
                    I.assume(s, eq(j, k), False)
                    I.assume(s, eq(T.lpar(j, l2), T.lpar(k, l2)))
                    I.assume(s, eqi(T.lslot(j, l2), add(T.lslot(k, l2), num(1))))
                    out.append((info(s, some(mkcursor(j, num(0))), kk, mk("app", "cutslot", LN, k, off), some(T.leafi(j))), s))
        return out
    return f


def neighbour_in_node(self, I, st, k):
    """the element before k when it has the same parent: [(Option<LeafIndex>, state)]"""
    IN, LN = self.arenas(st)
    out = []
    node = I.arena_get(st, IN, st.facts.canon(fn(I.arena_get(st, LN, k), "LeafNode", "parent")))
    ch = st.facts.canon(fn(node, "Node", "children"))
    for i, s in self.find_child(I, st.copy(), ch, "Leaf", k):
        if i is None:
            continue
        for first, s2 in I.split_bool(s, eqi(i, num(0))):
            if first:
                out.append((NONE, s2))
            else:
                a = s2.facts.canon(fn(I.seq_get(s2, ch, sub(i, num(1))), "Child", "arena"))
                out.append((some(mk("rec", "LeafIndex", None, (s2.facts.canon(key_of(a, "Leaf")),))), s2))
    return out


Tree.neighbour_in_node = neighbour_in_node


def path_to(T, k, LN):
    """the path to an element, only its end known"""
    p = mk("app", "pathto", LN, k)
    d = {"arena": T.leafi(k), "arr": mk("app", "slotof", LN, k)}
    return mkseq([sl(p, num(0), length(p)), unit(mk("rec", "Idx", None, tuple(d[x] for x in FIELDS["Idx"])))])


def k_path(T):
    def f(I, args, st, site, t, body):
        a = st.facts.canon(args[1])
        if st.facts.variant(a) != "Leaf":
            raise Limit("path to %s" % a)
        k = st.facts.canon(key_of(a, "Leaf"))
        if I.arena_get(st, T.arenas(st)[1], k) is DEAD:
            I.panic_states.append(("path to a removed element requested", site, st))
            return []
        return [(path_to(T, k, T.arenas(st)[1]), st)]
    return f


def rank(k):
    return mk("app", "rank", k)


def ranked(T, I, *ks):
    """elements stand in a line: equal ones at the same place"""
    def hook(I, st, b, pol):
        if b.op == "eq" and pol:
            x, y = b.args
            if any(t.op == "app" and t.args[0] == "cutleaf" for t in (x, y)):
                return False        # a new element is none of the others
            if all(t.op == "app" and t.args[0] == "nextleaf" for t in (x, y)) and x.args[1] is y.args[1] and not st.facts.assume(eq(x.args[2], y.args[2])):
                return False
            if any(t in ks or t.op == "app" and t.args[0] == "nextleaf" for t in (x, y)):
                return st.facts.assume(eqi(rank(x), rank(y)))
        return True
    I.assume_hooks.append(hook)


def successor(T, I, st, k, site):
    """[(key of the element after leaf k or None, state)], cut elements taken into account"""
    out = []
    cuts = [e for e in st.log if e[0] == "cut"]
    work = [(k, len(cuts), st)]
    while work:
        k, n, s = work.pop()
        if n == 0:
            r = mk("app", "next", T.LN0, k)
            for vn in ("None", "Some"):
                s2 = s.copy()
                if I.assume(s2, isvar_(r, vn)):
                    j = mk("app", "nextleaf", T.LN0, k)
                    if vn == "Some" and not (I.assume(s2, mk("app", "alive", T.ld(j))) and I.assume(s2, eqi(rank(j), add(rank(k), num(1)))) and all(I.assume(s2, eq(j, c[3]), False) for c in cuts)):
                        continue
                    if vn == "None":
                        out.append((None, s2))
                        continue
                    todo = [s2]
                    for c in cuts:
                        todo = [z for y in todo for _, z in I.split_bool(y, eq(y.facts.canon(j), y.facts.canon(c[1])))]
                    for y in todo:
                        y.ev("succ", j)
                        out.append((y.facts.canon(j), y))
            continue
        c = cuts[n - 1]
        if s.facts.canon(c[3]) is k:
            work.append((s.facts.canon(c[1]), n - 1, s))
            continue
        for eq_, s2 in I.split_bool(s, eq(k, s.facts.canon(c[1]))):
            if eq_:
                out.append((c[3], s2))
            else:
                work.append((k, n - 1, s2))
    return out


def k_step(T):
    """next_sibling on a path to an element"""
    def f(I, args, st, site, t, body):
        r, p = I.target(st, args[1])
        x = st.facts.canon(I.read(st, r, p))
        gs = segs(x)
        if not gs or gs[-1].op != "u":
            raise Limit("path %s" % x)
        k = st.facts.canon(key_of(st.facts.canon(F(gs[-1].args[0], "Idx", "arena")), "Leaf"))
        out = []
        for j, s in successor(T, I, st, k, site):
            s.ev("step", k, j)
            if j is None:
                out.append((FALSE, s))
            else:
                I.write(s, r, p, path_to(T, j, T.arenas(s)[1]))
                out.append((TRUE, s))
        return out
    return f


def k_dirty(T):
    def f(I, args, st, site, t, body):
        st.ev("dirty", st.facts.canon(args[1]), *T.arenas(st))
        return [(UNIT, st)]
    return f


def k_removed(T):
    def f(I, args, st, site, t, body):
        k = st.facts.canon(cursor_of(args[1])[0])
        IN, LN = T.arenas(st)
        c = I.arena_get(st, LN, k)
        st.ev("removed", k, c)
        if c is DEAD:
            return [(NONE, st)]
        T.setarenas(I, st, IN, I.arena_set(st, LN, k, DEAD))
        return [(some(fn(c, "LeafNode", "elem")), st)]
    return f


@part("C02", "C05", "C16", "C19", seconds=200)
def update(prog, rep, sink):
    """the given function is called once for every element of the range, in order, and for nothing else"""
    for same in (True, False):
        with OneOp(prog, rep, sink, Diff(), "update", label="update %s" % ("inside one element" if same else "of several elements"), unroll=2 if rep.tier == "quick" else 3) as op:
            T, I = op.T, op.I
            I.contracts.update({"BTree::split_leaf_if_needed": k_cut(T), "BTree::get_path": k_path(T), "BTree::next_sibling": k_step(T),
                                "BTree::update_dirty_cache_map": k_dirty(T), "BTree::remove_leaf": k_removed(T)})
            laws_of_callbacks(op)
            a, i, j = sym("a"), sym("i"), sym("j")
            b = a if same else sym("b")
            ranked(T, I, a, b)
            st = T.start(I, leaf=a)
            if not same:
                I.assume(st, mk("app", "alive", T.ld(b)))
                I.assume(st, lt(rank(a), rank(b)))
                I.assume(st, eq(a, b), False)
            I.assume(st, le(i, rle_of(T.elem0(a))))
            I.assume(st, le(j, rle_of(T.elem0(b))))
            if same:
                I.assume(st, le(i, j))
            f = sym("f")
            rng = mk("rec", "std::ops::Range", None, (mkcursor(a, i), mkcursor(b, j)))
            for v, s in op.run([ref("self"), rng, mkref(("O", f), ())], st):
                range_updated(op, s, v, f, (a, i), (b, j))


def walk(op, s, a, b):
    """[(leaves from a to b, state)]; paths on which b does not follow a are not possible"""
    I, T = op.I, op.T
    out, work = [], [([s.facts.canon(a)], s)]
    while work:
        ks, x = work.pop()
        if len(ks) > 6:
            out.append((None, x))
            continue
        for there, y in I.split_bool(x, eq(ks[-1], x.facts.canon(b))):
            if not feasible(y):
                continue
            if there:
                out.append((ks, y))
            elif y.facts.variant(mk("app", "next", T.LN0, ks[-1])) is None:
                out.append((None, y))
            elif y.facts.variant(mk("app", "next", T.LN0, ks[-1])) == "Some":
                work.append((ks + [y.facts.canon(mk("app", "nextleaf", T.LN0, ks[-1]))], y))
    return out


def range_updated(op, s0, v, f, start, end):
    T, I, sink = op.T, op.I, op.sink
    (a, i), (b, j) = start, end
    fv = mk("deref", f)
    calls = [e for e in s0.log if e[0] == "usercall"]
    for ks, s in walk(op, s0, a, b):
        C = s.facts.canon
        got = []
        for e in calls:
            got += content(C(e[2][0]))
        if ks is None:
            # the operation ended before it could know where the range ends
            empty = J.equal(I, s, mkseq(got), EMPTY)
            ia = I.assume(s.copy(), lt(i, rle_of(T.elem0(a))))
            sink.put("C19", "the function sees exactly the elements of the range: " + op.label, "bad" if clean_path(s) and not calls and ia is False else "open", "range not walked")
            continue
        want = []
        for n, k in enumerate(ks):
            c = mkseq(content(T.elem0(k)))
            want.append(sl(c, i if n == 0 else num(0), j if n == len(ks) - 1 else rle_of(T.elem0(k))))
        r = J.equal(I, s, mkseq(got), mkseq(want))
        sink.put("C19", "the function sees exactly the elements of the range: " + op.label, "ok" if r is True else "bad" if r is False else "open",
                 "called with %s, range is %s" % (mkseq(got), mkseq(want)))
        for e in calls:
            op.judge_known("C19", "no part outside an element is handed over", s, True if e[1] is fv else None)
    s = s0
    C = s.facts.canon
    dirty = [e for e in s.log if e[0] == "dirty"]
    LN = dirty[-1][3] if dirty else T.arenas(s)[1]
    removed = [C(e[1]) for e in s.log if e[0] == "removed"]
    seen = []
    for e in calls:
        after = mk("app", "after", fv, *e[2])
        ret = mk("app", "ret", fv, *e[2])
        here = None
        for l in I.arena_parts(LN)[1]:
            if l.op == "w" and l.args[1] is not DEAD and C(fn(l.args[1], "LeafNode", "elem")) is C(after):
                here = C(l.args[0])
        if here is None:
            here = next((C(r[1]) for r in s.log if r[0] == "removed" and r[2] is not DEAD and C(fn(r[2], "LeafNode", "elem")) is C(after)), None)
        gone = s.facts.value(mk("app", "can_remove", after))
        if here is None:
            if gone is not True or dirty:
                op.judge_known("C19", "the updated element is in the tree", s, False if gone is False else None)
            continue
        seen.append(here)
        if gone is not None:
            op.judge_known("C16", "an element that reports itself removable leaves the tree", s, (here in removed) == gone)
        elif here not in removed:
            # never asked: it may well be removable
            s2 = s.copy()
            may = I.assume(s2, mk("app", "can_remove", after)) and feasible(s2)
            op.judge_known("C16", "an element that reports itself removable leaves the tree", s, False if may else True)
        vn = s.facts.variant(ret)
        if vn is None:
            op.judge_known("C02", "the reported difference is looked at", s, None)
            continue
        m = dirty[-1][1] if dirty else None
        if vn == "Some":
            if m is None:
                op.judge_known("C02", "a reported difference goes into the summaries", s, False)
            else:
                x = I.arena_get(s, m, T.leafi(here))
                op.judge("C02", "a reported difference goes into the summaries", s, x, fld(ret, "Some", 0, "0"))
    if dirty:
        for l in I.arena_parts(dirty[-1][1])[1]:
            if l.op == "w":
                k = key_of(C(l.args[0]), "Leaf")
                op.judge_known("C02", "only updated elements change summaries", s, True if C(k) in seen else False)
    for k in removed:
        op.judge_known("C16", "only elements that report themselves removable leave the tree", s, True if k in seen else None)
    told = {C(fld(g.args[0], None, 0, "0")) for g in segs(C(F(v, "SplittedLeaves", "arr"))) if g.op == "u"} if C(F(v, "SplittedLeaves", "arr")).op == "seq" else None
    for e in s.log:
        if e[0] == "cut":
            op.judge_known("C05", "the handles of new elements are returned", s, None if told is None else C(e[3]) in told)


# ------------------------------------------------------------------ summaries after the update of several elements
EMPTYMAP = mk("arena", mk("app", "emptymap"), ())


@part("C02")
def update_root_cache(prog, rep, sink):
    """the root's stored summary is recomputed"""
    for th in THEORIES:
        with OneOp(prog, rep, sink, th(), "update_root_cache") as op:
            T, I = op.T, op.I
            st = T.start(I)
            root = T.home
            c = sym("stale")
            I.write(st, root[0], root[1] + (("f", None, FIELDS["BTree"].index("root_cache"), "root_cache"),), c)
            for v, s in op.run([ref("self")], st):
                op.judge("C02", "the root's stored summary is that of its children", s, fn(T.now(s), "BTree", "root_cache"), T.th.cc(s.facts.canon(T.children(T.R))))
                op.judge("C02", "nothing else changes", s, T.arenas(s)[0], T.IN0)


@part("C01", "C02", seconds=200)
def update_dirty_cache_map(prog, rep, sink):
    """the differences of updated elements reach every stored summary above them once"""
    for n in (1, 2):
        with OneOp(prog, rep, sink, Diff(), "update_dirty_cache_map", label="update_dirty_cache_map for %s" % ("one element" if n == 1 else "two elements"),
                   unroll=4) as op:
            T, I = op.T, op.I
            ks = [sym("a"), sym("b")][:n]
            st = T.start(I)
            m = EMPTYMAP
            if n == 2:
                I.assume(st, eq(*ks), False)
            for k in ks:
                I.assume(st, mk("app", "alive", T.ld(k)))
                e1 = sym("new_%s" % k.args[0])
                IN, LN = T.arenas(st)
                cell = setfld(T.ld(k), None, FIELDS["LeafNode"].index("elem"), "elem", e1)
                T.setarenas(I, st, IN, I.arena_set(st, LN, k, cell))
                d = sub(rle_of(e1), rle_of(T.elem0(k)))
                m = I.arena_set(st, m, T.leafi(k), d)
            T.leaves = ks
            starts = [st]
            if n == 2:
                # which ancestors the two elements share
                def apart(starts, a, b, pa, pb, slot):
                    out = []
                    for x in starts:
                        if x.facts.canon(a) is x.facts.canon(b):
                            out.append(x)
                            continue
                        for same, y in I.split_bool(x, eq(pa, pb)):
                            out += [z for o in (lt(slot(a), slot(b)), lt(slot(b), slot(a))) for z in (y.copy(),) if I.assume(z, o)] if same else [y]
                    return out
                a, b = ks
                starts = apart(starts, a, b, T.lpar(a), T.lpar(b), T.lslot)
                for _ in range(2):
                    a, b = (T.lpar(a), T.lpar(b)) if a is ks[0] else (T.par(a), T.par(b))
                    starts = apart(starts, a, b, T.par(a), T.par(b), T.pslot)
                starts = [x for x in starts if x.facts.canon(T.par(a)) is x.facts.canon(T.par(b))]
            for v, s in [r for x in starts for r in op.run([ref("self"), m], x)]:
                heap_after(op, v, s, "", order=False)
